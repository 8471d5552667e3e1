"""C22 Auxiliary statistics and table helpers equal their definitions"""
import math

import numpy as np
from hypothesis import strategies as st

import lom.auxiliary_functions as aux
from harness import gen
from harness.core import Sub, Violation

RULE = ('random admissible parameters, label sets, score matrices with ties, held-out patterns; '
        'non-trivial: the result is not constant or empty')

ASSUMPTIONS = ['the ROC score is asked for with at least one held-out one and one held-out minus-one',
               'tables have unique row and column labels of one type',
               'the binomial table is asked for with at least as many entries as draws']


def same(got, want, what, tol=1e-9):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: length %s instead of %s' % (what, got.shape, want.shape))
    for i, (a, b) in enumerate(zip(got.ravel(), want.ravel())):
        if not (a == b or abs(a - b) <= tol * max(1, abs(b))):
            raise Violation('%s: entry %d is %.12g instead of %.12g' % (what, i, a, b))


shape_parameter = st.one_of(st.floats(.01, 50), st.sampled_from([1, 2, .5]),
                            st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 200., 5000.]))


@st.composite
def bp_case(draw):
    n = draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.sampled_from([150, 200, 300])))
    return {'q': draw(st.one_of(st.floats(1e-6, 1 - 1e-6), st.sampled_from([.5, .1, .9]))), 'n': n,
            'N': n + draw(st.sampled_from([0, 0, 1, 2, 7])),
            'a': draw(shape_parameter), 'b': draw(shape_parameter)}


def log_binom(n, k):
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)


def log_beta(a, b):
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)


def bp(case, info):
    n, q, N, a, b = (case[k] for k in ('n', 'q', 'N', 'a', 'b'))
    lp = [log_binom(n, k) + k * math.log(q) + (n - k) * math.log1p(-q) for k in range(n + 1)]
    want = [lp[k + 1] - lp[k] for k in range(n)] + [-math.inf] * (N - n)
    same(aux.compute_bp(q, n, N), want, 'binomial log odds (q=%g, n=%d, N=%d)' % (q, n, N), 1e-8)
    lp = [log_binom(n, k) + log_beta(k + a, n - k + b) - log_beta(a, b) for k in range(n + 1)]
    want = [lp[k + 1] - lp[k] for k in range(n)] + [-math.inf]
    same(aux.compute_bbp(n, a, b), want, 'beta-binomial log odds (n=%d, a=%g, b=%g)' % (n, a, b), 1e-8)
    info.nontrivial = n > 1


@st.composite
def auc_case(draw):
    shape = draw(gen.dims(2, 1, 9))
    buf = draw(gen.raw)
    scores = np.random.default_rng(np.frombuffer(buf, dtype=np.uint32)).random(shape)
    kind = draw(st.sampled_from(['any', 'ties', 'coarse', 'binary', 'close', 'tiny']))
    if kind == 'ties':
        scores = np.round(scores * 10) / 10
    elif kind == 'coarse':
        scores = np.round(scores * 2) / 2
    elif kind == 'close':
        scores = .5 + np.round(scores * 8) * 2.**-40
    elif kind == 'tiny':
        scores = np.round(scores * 8) * 1e-30
    elif kind == 'binary':
        scores = np.round(scores)
    return {'X': draw(gen.signs(shape)), 'mask': draw(gen.bits(shape, ('half', 'sparse', 'dense', 'ones'))),
            'scores': scores, 'coding': draw(st.sampled_from(['-1/1', '0/1']))}


def auc(case, info):
    X, mask, s = case['X'], case['mask'] == 1, case['scores']
    ones, minus = s[mask & (X == 1)], s[mask & (X == -1)]
    if not len(ones) or not len(minus):
        info.nontrivial = False
        return
    want = np.mean((ones[:, None] > minus[None]) + .5 * (ones[:, None] == minus[None]))
    train = np.where(mask, 0, X)
    data = X if case['coding'] == '-1/1' else (X + 1) // 2
    a, b, c = data.copy(), train.copy(), s.copy()
    got = aux.get_roc_auc(a, b, c)
    if not abs(got - want) <= 1e-9:
        raise Violation('ROC score is %.10g, a held-out one is ranked above a held-out minus-one '
                        'with probability %.10g' % (got, want))
    if not (np.array_equal(a, data) and np.array_equal(b, train) and np.array_equal(c, s)):
        raise Violation('the ROC score altered its arguments')
    info.nontrivial = 0 < want < 1


@st.composite
def coding_case(draw):
    shape = draw(st.one_of(gen.dims(2, 1, 7), gen.dims(3, 1, 4)))
    return {'X': draw(gen.data(shape, ('none', 'some', 'many'))), 'kind': draw(st.sampled_from(['0/1', '-1/1', '-1/0/1'])),
            'dtype': draw(st.sampled_from(['int8', 'int64', 'float64', 'bool', 'int32', 'uint8']))}


def coding(case, info):
    X = case['X']
    if case['kind'] == '0/1' or case['dtype'] in ('bool', 'uint8'):
        X = np.abs(X) if not np.any(X == -1) else (X == 1).astype(np.int8)
        want = 2 * X.astype(int) - 1
        info.label('0/1')
    else:
        if case['kind'] == '-1/1':
            X = np.where(X == 0, 1, X)
        if not np.any(X == -1):
            X = X.copy()
            X.flat[0] = -1
        want = X.astype(int)
        info.label(case['kind'])
    arg = X.astype(case['dtype'])
    keep = arg.copy()
    got = aux.check_binary_coding(arg)
    if not np.array_equal(np.asarray(got).astype(int), want):
        raise Violation('coding of %s data of type %s: %s became %s' % (
            case['kind'], case['dtype'], np.unique(keep), np.unique(got)))
    if got.dtype != np.int8:
        raise Violation('coded data have type %s' % got.dtype)
    if not np.array_equal(arg, keep):
        raise Violation('the coding altered its input')
    info.nontrivial = len(np.unique(want)) > 1


@st.composite
def frames_case(draw):
    def labels():
        kind = draw(st.sampled_from(['int', 'str']))
        pool = list(range(12)) if kind == 'int' else ['r%d' % i if i % 2 else chr(97 + i) for i in range(12)]
        return [draw(st.permutations(pool))[:draw(st.integers(0, 9))] for _ in range(2)]
    (ra, rb), (ca, cb) = labels(), labels()
    if draw(st.integers(0, 19)) == 0:
        # many rows, many columns
        seed = draw(gen.seeds)
        rng = np.random.default_rng(seed)
        n = draw(st.sampled_from([120, 260, 300]))
        big = [[int(v) for v in rng.permutation(n)[:n - int(rng.integers(3))]] for _ in range(2)]
        if draw(st.booleans()):
            ra, rb = big
            ca, cb = list(ca)[:3], list(cb)[:3]
        else:
            ca, cb = big
            ra, rb = list(ra)[:3], list(rb)[:3]
    return {'rows': [list(ra), list(rb)], 'cols': [list(ca), list(cb)],
            'dtype': draw(st.sampled_from(['float', 'int', 'mixed']))}


def frames(case, info):
    import pandas as pd
    F = []
    for i in range(2):
        r, c = case['rows'][i], case['cols'][i]
        v = np.arange(len(r) * len(c)).reshape(len(r), len(c)) * (1 if i else -1) + 1000 * i
        f = pd.DataFrame(v if case['dtype'] != 'float' else v + .5, index=r, columns=c)
        if case['dtype'] == 'mixed' and len(c):
            f[c[0]] = ['x%d' % j for j in range(len(r))]
        F.append(f)
    keep = [f.copy() for f in F]
    A, B = aux.intersect_dataframes(*F)
    rows, cols = set(case['rows'][0]) & set(case['rows'][1]), set(case['cols'][0]) & set(case['cols'][1])
    for name, out, src in (('first', A, keep[0]), ('second', B, keep[1])):
        if len(out.index) != len(rows) or set(out.index) != rows:
            raise Violation('rows of the %s table: %s instead of %s' % (name, list(out.index), sorted(rows)))
        if len(out.columns) != len(cols) or set(out.columns) != cols:
            raise Violation('columns of the %s table: %s instead of %s' % (name, list(out.columns), sorted(cols)))
        if len(out.index) * len(out.columns) > 100:
            if not np.array_equal(out.values, src.loc[list(out.index), list(out.columns)].values):
                raise Violation('the values of a large %s table changed' % name)
            continue
        for r in out.index:
            for c in out.columns:
                if out.loc[r, c] != src.loc[r, c]:
                    raise Violation('%s table at (%s, %s) is %r instead of %r' % (
                        name, r, c, out.loc[r, c], src.loc[r, c]))
    if list(A.index) != list(B.index) or list(A.columns) != list(B.columns):
        raise Violation('the tables are ordered differently')
    for f, k in zip(F, keep):
        if list(f.index) != list(k.index) or list(f.columns) != list(k.columns) or not f.equals(k):
            raise Violation('the intersection altered its arguments')
    info.nontrivial = len(rows) > 1 and len(cols) > 1


@st.composite
def list_case(draw):
    kind = draw(st.sampled_from(['int', 'str', 'tuple', 'float', 'any']))
    el = {'int': st.integers(-3, 4), 'str': st.sampled_from(['a', 'b', 'ab', '', 'c']),
          'tuple': st.tuples(st.integers(0, 1), st.integers(0, 1)),
          'float': st.sampled_from([.5, -1.25, 0., 3.]),
          'any': st.sampled_from([None, '', 0, -1, False, 'a', (), (1,), 2.5])}[kind]
    return {'seq': draw(st.lists(el, max_size=25)), 'as': draw(st.sampled_from(['list', 'tuple', 'array']))}


def lists(case, info):
    seq = list(case['seq'])
    want = []
    for x in seq:
        if x not in want:
            want.append(x)
    arg = tuple(seq) if case['as'] == 'tuple' else list(seq)
    if case['as'] == 'array' and seq and all(type(x) is type(seq[0]) for x in seq) and \
            isinstance(seq[0], (int, float)):
        arg = np.array(seq)
    got = list(aux.unique_ordered(arg))
    if got != want:
        raise Violation('distinct values of %s: %s instead of %s' % (seq, got, want))
    if len({type(x) for x in seq}) > 1 or any(x is None for x in seq):
        info.nontrivial = len(want) < len(seq)
        info.label('any')
        return
    ordered = sorted(seq)
    oarg = tuple(ordered) if case['as'] == 'tuple' else ordered
    pos, i = [], 0
    while i < len(ordered):
        j = i
        while j < len(ordered) and ordered[j] == ordered[i]:
            j += 1
        pos.append((i + j - 1) // 2)
        i = j
    got = list(aux.find_centers_of_ordered_list(oarg))
    if got != pos:
        raise Violation('group centres of %s: %s instead of %s' % (ordered, got, pos))
    # descending order is an order as well
    desc = ordered[::-1]
    pos, i = [], 0
    while i < len(desc):
        j = i
        while j < len(desc) and desc[j] == desc[i]:
            j += 1
        pos.append((i + j - 1) // 2)
        i = j
    if list(aux.find_centers_of_ordered_list(desc)) != pos:
        raise Violation('group centres of %s' % desc)
    info.nontrivial = 1 < len(want) < len(seq)


@st.composite
def logistic_case(draw):
    return {'x': draw(st.lists(st.floats(-700, 700), min_size=1, max_size=8)),
            'p': draw(st.lists(st.floats(1e-12, 1 - 1e-12), min_size=1, max_size=8)),
            'scalar': draw(st.booleans())}


def logistic(case, info):
    x, p = np.array(case['x']), np.array(case['p'])
    ex = [1 / (1 + math.exp(-v)) if v > 0 else math.exp(v) / (1 + math.exp(v)) for v in x]
    lg = [math.log(v) - math.log1p(-v) for v in p]
    if case['scalar']:
        got, gotl = [float(aux.expit(v)) for v in x], [float(aux.logit(v)) for v in p]
    else:
        got, gotl = aux.expit(x), aux.logit(p)
    for a, b, v in zip(got, ex, x):
        if not abs(a - b) <= 1e-9 * b + 1e-300:
            raise Violation('logistic function of %r is %r' % (v, a))
    same(gotl, lg, 'inverse logistic function', 1e-7)
    m = max(case['x'])
    want = m + math.log(math.fsum(math.exp(v - m) for v in case['x']))
    g = float(aux.logsumexp(x))
    if not abs(g - want) <= 1e-9 * max(1, abs(want)):
        raise Violation('log-sum-exp of %s is %r instead of %r' % (case['x'], g, want))
    info.nontrivial = len(x) > 1


SUBS = [
    Sub('tables', bp_case(), bp, 3000, 80000, what='binomial and beta-binomial log odds'),
    Sub('auc', auc_case(), auc, 3000, 80000, what='ROC score against pairwise ranking'),
    Sub('coding', coding_case(), coding, 3000, 60000, what='binary coding'),
    Sub('frames', frames_case(), frames, 1200, 30000, what='table intersection'),
    Sub('lists', list_case(), lists, 4000, 100000, what='distinct values, group centres'),
    Sub('logistic', logistic_case(), logistic, 2400, 60000, what='logistic functions, log-sum-exp'),
]
