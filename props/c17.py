"""C17 Train/test splits hide exactly the held-out observed entries"""
import math

import numpy as np
from hypothesis import strategies as st

import lom.auxiliary_functions as aux
import lom.experiments as ex
from harness import gen
from harness.core import Sub, Violation

RULE = ('random 2D/3D data with missing entries, split fractions, all three splitting functions; '
        'frequencies over repeated splits are accepted within 6.5 standard deviations + 3 counts; '
        'non-trivial: something is held out and something observed is left')

ASSUMPTIONS = [
    'balanced splits are asked for with at least as many ones and minus-ones as are to be held out, '
    'unbalanced ones with a share of at most the observed share (other requests raise errors)',
    'the old tensor split and the max-machine split are asked for their share on fully observed data']


def check_split(X, train, mask, what):
    if train.shape != X.shape:
        raise Violation('%s: training data of shape %s for %s' % (what, train.shape, X.shape))
    if mask is not None:
        mask = np.asarray(mask)
        if mask.shape != X.shape or mask.dtype != bool:
            raise Violation('%s: the mask has shape %s, type %s' % (what, mask.shape, mask.dtype))
        if np.any(mask & (X == 0)):
            raise Violation('%s: an unobserved entry is held out' % what)
        if np.any(train[mask] != 0):
            raise Violation('%s: a held-out entry is visible in the training data' % what)
        if np.any(train[~mask] != X[~mask]):
            raise Violation('%s: an entry that is not held out differs in the training data' % what)
        return mask
    if np.any((train != X) & (train != 0)):
        raise Violation('%s: an entry that is not held out differs in the training data' % what)
    return (train == 0) & (X != 0)


def floors(x):
    """floor of a share up to rounding"""
    return {math.floor(x - 1e-9), math.floor(x + 1e-9)}


def call(kind, X, split):
    if kind == 'unbalanced':
        return ex.split_train_test(X, split=split)
    if kind == 'balanced':
        return ex.split_train_test(X, split=split, balanced=True)
    if kind == 'old':
        return ex.split_tensor_train_test_old(X, split=split)
    return aux.split_test_train(X, p=split), None


share = st.one_of(st.sampled_from([.1, .1, .2, .5, .3, .05, 0., 1.]), st.floats(0., 1., allow_nan=False))


@st.composite
def split_case(draw):
    kind = draw(st.sampled_from(['unbalanced', 'balanced', 'old', 'max']))
    K = 2 if kind == 'max' else draw(st.sampled_from([2, 3]))
    X = draw(gen.data(draw(gen.dims(K, 1, 9 if K == 2 else 5)), ('none', 'some', 'some', 'many')))
    return {'kind': kind, 'X': X, 'split': draw(share),
            'coding': draw(st.sampled_from(['-1/1', '-1/1', '0/1'])),
            'dtype': draw(st.sampled_from(['int8', 'int8', 'int64', 'float64'])),
            'layout': draw(st.sampled_from(['C', 'F'])), 'seed': draw(gen.seeds)}


def admissible(kind, X, split):
    n, ones, minus = int(np.sum(X != 0)), int(np.sum(X == 1)), int(np.sum(X == -1))
    if kind == 'unbalanced':
        return n > 0 and split <= n / X.size * (1 - 1e-9)
    if kind == 'balanced':
        return min(ones, minus) > 0 and n * split / 2 + 1e-6 <= min(ones, minus)
    if kind == 'max':
        return min(ones, minus) > 0 and X.size * split / 2 + 1e-6 <= min(ones, minus)
    return True


def split(case, info):
    kind, X, s = case['kind'], case['X'], case['split']
    if kind == 'max' and case['coding'] == '0/1':
        X = np.where(X == 0, 1, X).astype(np.int8)
    if not admissible(kind, X, s):
        # shrink the share until the request can be met
        ok = [t for t in (s / 2, s / 4, s / 8, s / 16, 0.) if admissible(kind, X, t)]
        if not ok:
            info.nontrivial = False
            info.label('inadmissible')
            return
        s = ok[0]
    arg = X.copy()
    if kind == 'max' and case['coding'] == '0/1':
        arg = ((X + 1) // 2).astype(np.int8)
    if kind != 'old':
        arg = arg.astype(case['dtype'])
    if case['layout'] == 'F':
        arg = np.asfortranarray(arg)
    keep = arg.copy()
    np.random.seed(case['seed'])
    train, mask = call(kind, arg, s)
    if not np.array_equal(arg, keep):
        raise Violation('%s split modified its input' % kind)
    if np.shares_memory(train, arg):
        raise Violation('%s split returned its input' % kind)
    mask = check_split(X, train, mask, kind + ' split')
    ones, minus, n = int(mask[X == 1].sum()), int(mask[X == -1].sum()), int(np.sum(X != 0))
    if kind in ('balanced', 'max') and ones != minus:
        raise Violation('%s split holds out %d ones and %d minus-ones' % (kind, ones, minus))
    if kind == 'balanced' and ones not in floors(n * s / 2):
        raise Violation('balanced split of %.4g of %d observed entries holds out %d of each' % (
            s, n, ones))
    if kind == 'max' and n == X.size and ones not in floors(n * s / 2):
        raise Violation('max-machine split of %.4g of %d entries holds out %d of each' % (s, n, ones))
    if kind == 'old' and n == X.size and int(mask.sum()) not in floors(n * s):
        raise Violation('old split of %.4g of %d entries holds out %d' % (s, n, int(mask.sum())))
    if kind == 'unbalanced' and s == 0 and mask.any():
        raise Violation('an empty split holds out entries')
    info.nontrivial = bool(mask.any() and (mask != (X != 0)).any())
    info.label(kind, '%dD' % X.ndim)


@st.composite
def large_case(draw):
    kind = draw(st.sampled_from(['unbalanced', 'balanced', 'old', 'max']))
    shape = draw(st.sampled_from([[300, 300], [70000, 1], [1, 66000], [260, 270]] +
                                 ([] if kind == 'max' else [[50, 40, 40], [2, 200, 200]])))
    rare = draw(st.sampled_from([.5, .2, .01, .99]))
    X = gen.seeded_data(draw(gen.seeds), shape, rare, draw(st.sampled_from([0., 0., .3])))
    return {'kind': kind, 'X': X, 'split': draw(st.sampled_from([.001, .005, .01, .1, .3])),
            'coding': '-1/1', 'dtype': 'int8', 'layout': 'C', 'seed': draw(gen.seeds)}


def large(case, info):
    """more entries than fit 16 bits; the held-out ones are spread over all positions"""
    split(case, info)
    X, s = case['X'], case['split']
    if not admissible(case['kind'], X, s) or (case['kind'] in ('old', 'max') and (X == 0).any()):
        return
    np.random.seed(case['seed'])
    train, mask = call(case['kind'], X.copy(), s)
    mask = check_split(X, train, mask, case['kind'] + ' split')
    n = int(np.sum(X != 0))
    q = np.zeros(X.shape)
    if case['kind'] in ('balanced', 'max'):
        for v in (-1, 1):
            q[X == v] = n * s / 2 / np.sum(X == v)
    else:
        q[X != 0] = s * X.size / n if case['kind'] == 'unbalanced' else s
    for part, (a, b) in enumerate(zip(np.array_split(mask.ravel(), 8), np.array_split(q.ravel(), 8))):
        mean, var = b.sum(), (b * (1 - np.minimum(b, 1))).sum()
        if abs(a.sum() - mean) > 6.5 * math.sqrt(var) + 4:
            raise Violation('%s split of %.3g: %d of the entries in part %d/8 of %s are held out, '
                            'expected %.1f' % (case['kind'], s, a.sum(), part + 1, X.shape, mean))


@st.composite
def uniform_case(draw):
    kind = draw(st.sampled_from(['unbalanced', 'unbalanced', 'balanced', 'old', 'max']))
    K = 2 if kind == 'max' else draw(st.sampled_from([2, 3]))
    full = kind in ('old', 'max')
    X = draw(gen.data(draw(gen.dims(K, 2, 7 if K == 2 else 4)), ('none',) if full else ('none', 'some')))
    if draw(st.booleans()):
        # as many ones as minus-ones, but for an odd one
        o = np.argsort(np.cumsum(X.ravel() == 1), kind='stable')
        o = o[X.ravel()[o] != 0]
        X.ravel()[o[::2]] = 1
        X.ravel()[o[1::2]] = -1
    return {'kind': kind, 'X': X, 'split': draw(st.sampled_from([.1, .2, .3, .4])),
            'seed': draw(gen.seeds)}


def uniform(case, info):
    kind, X, s = case['kind'], case['X'], case['split']
    if not admissible(kind, X, s):
        info.nontrivial = False
        return
    np.random.seed(case['seed'])
    T = 400
    c, both, tot = np.zeros(X.shape), 0, []
    R = []
    for _ in range(T):
        train, mask = call(kind, X.copy(), s)
        mask = check_split(X, train, mask, kind + ' split')
        c += mask
        R.append(mask.ravel().copy())
    n = int(np.sum(X != 0))
    if kind == 'unbalanced':
        p = np.where(X != 0, s * X.size / n, 0.)
    elif kind == 'balanced' or kind == 'max':
        k = min(floors(n * s / 2))
        ks = floors(n * s / 2)
        if len(ks) > 1:
            info.nontrivial = False
            return
        p = np.where(X == 1, k / max(1, np.sum(X == 1)), np.where(X == -1, k / max(1, np.sum(X == -1)), 0.))
    else:
        ks = floors(n * s)
        if len(ks) > 1:
            info.nontrivial = False
            return
        p = np.full(X.shape, min(ks) / n)
    bad = np.abs(c - T * p) > 6.5 * np.sqrt(T * p * (1 - p)) + 3
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation('%s split of %.2g: entry %s is held out in %d of %d splits, expected %.1f' % (
            kind, s, i, c[i], T, T * p[i]))
    total, want = c.sum(), T * p.sum()
    # entries are held out independently, or in fixed number: the variance is no larger
    if abs(total - want) > 6.5 * math.sqrt(T * float(np.sum(p * (1 - p)))) + 3:
        raise Violation('%s split of %.2g: %d held out in %d splits, expected %.1f' % (
            kind, s, total, T, want))
    # pairs of entries: not always held out together, no more than independently
    R = np.array(R)
    q = p.ravel()
    idx = np.flatnonzero(q > 0)[:12]
    for a, i in enumerate(idx):
        for j in idx[a + 1:]:
            n11 = int(np.sum(R[:, i] & R[:, j]))
            pij = q[i] * q[j]
            if n11 > T * pij + 6.5 * math.sqrt(T * pij * (1 - pij)) + 5:
                raise Violation('%s split: entries %d and %d are held out together in %d of %d '
                                'splits, at most %.1f expected' % (kind, i, j, n11, T, T * pij))
    info.nontrivial = bool(p.max() > 0 and p.max() < 1)
    info.label(kind)


SUBS = [
    Sub('split', split_case(), split, 8000, 200000, what='masks, counts, untouched input'),
    Sub('large', large_case(), large, 64, 1200, what='tens of thousands of entries, by position'),
    Sub('uniform', uniform_case(), uniform, 120, 3000, what='every observed entry equally likely'),
]
