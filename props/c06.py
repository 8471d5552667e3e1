"""C06 A full sampling sweep leaves the exact posterior invariant"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import fix_all, sweep, warm

RULE = ('random model, axis, data, lambda, prior; the starting rows are drawn from the exactly '
        'enumerated posterior, the rows after the sweep are counted and compared with it (bound '
        '6.5 standard deviations + 8 counts, at least 1200 independent rows); non-trivial: the '
        'posterior has no state with more than 98%')


def bound(n, p):
    return 6.5 * math.sqrt(n * p * (1 - p)) + 8


def row_posterior(x, others, model, lbda, prior, L):
    """log weights of the 2^L states of one row given its data and the other factors"""
    states = np.array(list(itertools.product([-1, 1], repeat=L)), dtype=np.int8)
    pred = ref.product([states] + others, model)
    X = np.asarray(x)[None]
    lw = lbda * ((X != 0) & (pred == X)).reshape(len(states), -1).sum(axis=1)
    lw = lw + mach_logit(prior) * (states == 1).sum(axis=1)
    w = np.exp(lw - lw.max())
    return states, w / w.sum()


def mach_logit(p):
    return math.log(p) - math.log1p(-p)


def parent_values(model, Lp, seed, G, L):
    """factors of a parent layer: one row per group, and one row per latent dimension"""
    return gen.seeded_signs([seed, 0], (G, Lp)), gen.seeded_signs([seed, 1], (L, Lp))


@st.composite
def rows_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 3))
    model = draw(st.sampled_from(gen.IMPL))
    other = draw(gen.dims(K - 1, 1, 4 if K == 2 else 3))
    groups = draw(st.sampled_from([1, 2, 3]))
    return {'model': model, 'L': L, 'k': draw(st.integers(0, K - 1)),
            'others': draw(gen.factors(other, L, model)),
            'x': [draw(gen.data(other)) for _ in range(groups)],
            'lbda': draw(st.sampled_from([.2, .5, 1., 1.5, 2.5])),
            'prior': draw(st.sampled_from([.5, .5, .3, .8])),
            'marks': [draw(gen.bits((L,), ('zeros', 'sparse', 'half'))) for _ in range(groups)],
            'sweeps': draw(st.sampled_from([1, 1, 2])), 'seed': draw(gen.seeds),
            'parents': draw(st.lists(st.tuples(
                st.sampled_from(gen.IMPL), st.integers(1, 3), st.sampled_from([.3, 1., 2.]),
                st.integers(0, 2**31 - 1)), max_size=2)) if K == 2 else []}


def rows(case, info):
    rng = np.random.default_rng(case['seed'])
    K, L, k = len(case['others']) + 1, case['L'], case['k']
    G = len(case['x'])
    n = 1500
    N = n * G
    group = rng.permutation(np.repeat(np.arange(G), n))
    post = []
    for g in range(G):
        states, p = row_posterior(case['x'][g], case['others'], case['model'], case['lbda'],
                                  case['prior'], L)
        # marked entries keep a fixed value: condition on it
        v = rng.integers(0, 2, L) * 2 - 1
        ok = np.all((states == v) | (case['marks'][g] == 0), axis=1)
        p = np.where(ok, p, 0.)
        for model, Lp, lam, seed in case['parents']:
            a, b = parent_values(model, Lp, seed, G, L)
            agree = (states == ref.product([a[g:g + 1], b], model)).sum(axis=1)
            p = p * np.exp(lam * (agree - L))
        post.append(p / p.sum())
    start = np.array([rng.choice(len(states), p=post[g]) for g in group])
    Z = states[start]
    marks = np.array([case['marks'][g] for g in group], dtype=np.int8)
    X = np.array([case['x'][g] for g in group], dtype=np.int8)
    X = np.moveaxis(X, 0, k)
    m = lom.Machine()
    data = m.add_matrix(X, fixed=True)
    layer = m.add_layer(latent_size=L, child=data, model=case['model'])
    others = list(case['others'])
    for i, f in enumerate(layer.factors):
        f.val = Z.copy() if i == k else others.pop(0).copy()
    layer.lbda.val = case['lbda']
    for model, Lp, lam, seed in case['parents']:
        pl = m.add_layer(latent_size=Lp, child=layer.factors[k], model=model)
        a, b = parent_values(model, Lp, seed, G, L)
        pl.factors[0].val, pl.factors[1].val = a[group].copy(), b.copy()
        pl.lbda.val = lam
    warm(m, 100000)
    fix_all(m)
    mat = layer.factors[k]
    mat.fixed = False
    mat.fixed_entries = marks
    mat.bernoulli_prior = case['prior']
    np.random.seed(case['seed'])
    if case['sweeps'] == 1:
        sweep(m)
        outs = [mat()]
    else:
        sweep(m, 2)
        outs = [mat.trace[0], mat.trace[1]]
    code = 2**np.arange(L - 1, -1, -1)
    info.nontrivial = any(p.max() < .98 for p in post)
    info.label('G=%d' % G, 'axis%d' % k, 'L=%d' % L, 'parents=%d' % len(case['parents']))
    for out in outs:
        if np.any((out != Z) & (marks == 1)):
            raise Violation('an entry that is marked fixed changed during a sweep')
        num = ((out == 1) @ code)
        for g in range(G):
            c = np.bincount(num[group == g], minlength=2**L)
            for s in range(2**L):
                if abs(c[s] - n * post[g][s]) > bound(n, post[g][s]):
                    raise Violation(
                        '%s axis %d: %d of %d rows in state %s after a sweep from the exact '
                        'posterior, expected %.1f' % (case['model'], k, c[s], n,
                                                      states[s].tolist(), n * post[g][s]))
    # rows are independent given the other factors: neighbouring rows
    num = ((outs[-1] == 1) @ code)
    for lag in (1, 2):
        a, b = num[:-lag], num[lag:]
        ga, gb = group[:-lag], group[lag:]
        for g, h in {(0, 0), (0, G - 1), (G - 1, 0)}:
            sel = (ga == g) & (gb == h)
            nn = int(sel.sum())
            for s in range(2**L):
                for t in range(2**L):
                    p = post[g][s] * post[h][t]
                    c = int(np.sum((a[sel] == s) & (b[sel] == t)))
                    if abs(c - nn * p) > bound(nn, p) * 1.5 + 8:
                        raise Violation('%s axis %d: rows influence each other: %d of %d '
                                        'neighbouring pairs in states %s, %s, expected %.1f' % (
                                            case['model'], k, c, nn, states[s].tolist(),
                                            states[t].tolist(), nn * p))


@st.composite
def joint_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.sampled_from([1, 2, 2])) if K == 2 else 1
    shape = [2, 2] if K == 2 else [2, 2, 2]
    if draw(st.booleans()):
        shape[draw(st.integers(0, K - 1))] = 1
    return {'model': draw(st.sampled_from(gen.IMPL)), 'L': L, 'shape': shape,
            'X': draw(gen.data(shape, ('none', 'some'))),
            'lbda': draw(st.sampled_from([.5, 1., 1.7])),
            'prior': draw(st.sampled_from([.5, .3])), 'seed': draw(gen.seeds),
            'second': draw(st.sampled_from([False, False, True]))}


def joint(case, info):
    """all factors free: joint posterior over every entry of all factors"""
    shape, L, model = case['shape'], case['L'], case['model']
    sizes = [n * L for n in shape]
    T = sum(sizes)
    bitsx = ((np.arange(2**T)[:, None] >> np.arange(T)) & 1).astype(np.int8)
    lw = np.zeros(2**T)
    X = case['X']
    for i in range(2**T):
        fs = unpack(bitsx[i], shape, L)
        pred = ref.product(fs, model)
        lw[i] = case['lbda'] * np.sum((X != 0) & (pred == X))
    lw += mach_logit(case['prior']) * bitsx.sum(axis=1)
    p = np.exp(lw - lw.max())
    p /= p.sum()
    rng = np.random.default_rng(case['seed'])
    m = lom.Machine()
    data = m.add_matrix(X.copy(), fixed=True)
    layer = m.add_layer(latent_size=L, child=data, model=model)
    layer.lbda.val = case['lbda']
    layer.lbda.fixed = True
    for f in layer.factors:
        f.bernoulli_prior = case['prior']
    warm(m)
    n = 1200
    np.random.seed(case['seed'])
    counts = np.zeros(2**T)
    w = 2**np.arange(T)
    start = rng.choice(2**T, p=p, size=n)
    for s in start:
        for f, v in zip(layer.factors, unpack(bitsx[s], shape, L)):
            f.val = v
        sweep(m)
        b = np.concatenate([(f() == 1).ravel() for f in layer.factors])
        counts[int(b @ w)] += 1
    info.nontrivial = p.max() < .98
    info.label('T=%d' % T, 'K=%d' % len(shape))
    check_counts(counts, p, n, 'state')
    # lower-order marginals have more power
    for i, j in itertools.combinations(range(T), 2):
        for a in (0, 1):
            for b in (0, 1):
                sel = (bitsx[:, i] == a) & (bitsx[:, j] == b)
                if abs(counts[sel].sum() - n * p[sel].sum()) > bound(n, p[sel].sum()):
                    raise Violation('%s %s: after one sweep over all factors from the exact '
                                    'posterior, entries %d,%d are %d,%d in %d of %d runs, expected '
                                    '%.1f' % (model, shape, i, j, a, b, counts[sel].sum(), n,
                                              n * p[sel].sum()))


def check_counts(c, p, n, what):
    bad = np.abs(c - n * p) > 6.5 * np.sqrt(n * p * (1 - p)) + 10
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('%s %d: %d of %d runs after a sweep from the exact posterior, expected '
                        '%.1f' % (what, i, c[i], n, n * p[i]))


def unpack(b, shape, L):
    out, i = [], 0
    for n in shape:
        out.append((2 * b[i:i + n * L] - 1).astype(np.int8).reshape(n, L))
        i += n * L
    return out


@st.composite
def stacked_case(draw):
    """two stacked layers with all matrices free, every entry of a tiny hierarchy"""
    return {'model': draw(st.sampled_from(gen.IMPL)), 'model2': draw(st.sampled_from(gen.IMPL)),
            'X': draw(gen.data([2, 2], ('none', 'some'))), 'axis': draw(st.integers(0, 1)),
            'lbda': draw(st.sampled_from([.5, 1.2])), 'lbda2': draw(st.sampled_from([.5, 1.2])),
            'two': draw(st.booleans()), 'seed': draw(gen.seeds)}


def stacked(case, info):
    L = 1
    X = case['X']
    shapes = [(2, 1), (2, 1)]                       # factors of layer 1
    shapes += [(2, 1), (1, 1)]                      # factors of layer 2, on factor `axis`
    if case['two']:
        shapes += [(2, 1), (1, 1)]
    sizes = [a * b for a, b in shapes]
    T = sum(sizes)
    bitsx = ((np.arange(2**T)[:, None] >> np.arange(T)) & 1).astype(np.int8)

    def split(b):
        out, i = [], 0
        for sh, n in zip(shapes, sizes):
            out.append((2 * b[i:i + n] - 1).astype(np.int8).reshape(sh))
            i += n
        return out
    lw = np.zeros(2**T)
    for i in range(2**T):
        v = split(bitsx[i])
        pred = ref.product(v[:2], case['model'])
        lw[i] = case['lbda'] * np.sum((X != 0) & (pred == X))
        for q in range(2, len(v), 2):
            pr = ref.product(v[q:q + 2], case['model2'])
            lw[i] += case['lbda2'] * np.sum(pr == v[case['axis']])
    p = np.exp(lw - lw.max())
    p /= p.sum()
    m = lom.Machine()
    data = m.add_matrix(X.copy(), fixed=True)
    l1 = m.add_layer(latent_size=L, child=data, model=case['model'])
    l1.lbda.val = case['lbda']
    mats = list(l1.factors)
    for _ in range(2 if case['two'] else 1):
        l2 = m.add_layer(latent_size=1, child=l1.factors[case['axis']], model=case['model2'])
        l2.lbda.val = case['lbda2']
        mats += list(l2.factors)
    for lb in m.lbdas:
        lb.fixed = True
    warm(m)
    rng = np.random.default_rng(case['seed'])
    np.random.seed(case['seed'])
    n = 1200
    counts = np.zeros(2**T)
    w = 2**np.arange(T)
    for s in rng.choice(2**T, p=p, size=n):
        for f, v in zip(mats, split(bitsx[s])):
            f.val = v
        sweep(m)
        counts[int(np.concatenate([(f() == 1).ravel() for f in mats]) @ w)] += 1
    info.nontrivial = p.max() < .98
    info.label('two' if case['two'] else 'one')
    for i, j in itertools.combinations(range(T), 2):
        for a in (0, 1):
            for b in (0, 1):
                sel = (bitsx[:, i] == a) & (bitsx[:, j] == b)
                if abs(counts[sel].sum() - n * p[sel].sum()) > bound(n, p[sel].sum()):
                    raise Violation('%s under %s: entries %d,%d are %d,%d in %d of %d runs after '
                                    'one sweep from the exact posterior, expected %.1f' % (
                                        case['model'], case['model2'], i, j, a, b,
                                        counts[sel].sum(), n, n * p[sel].sum()))
    check_counts(counts, p, n, 'state')


@st.composite
def visit_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    big = draw(st.sampled_from([False, False, True]))
    shape = draw(gen.dims(K, 1, 6)) if not big else \
        [draw(st.integers(100, 300)) for _ in range(2)] if K == 2 else [130, 3, 4]
    L = draw(st.sampled_from([1, 2, 3, 4, 6])) if not big else draw(st.sampled_from([1, 2]))
    return {'model': draw(st.sampled_from(gen.IMPL)), 'shape': shape, 'L': L,
            'seed': draw(gen.seeds), 'up': [draw(st.booleans()) for _ in range(K)],
            'mark': draw(st.sampled_from([0., 0., .3])), 'axis': draw(st.integers(-1, K - 1)),
            'parents': draw(st.sampled_from([0, 0, 1, 2])) if not big else 0}


def visit(case, info):
    """with an overwhelming prior every free entry must end at the prior's value"""
    m = lom.Machine()
    data = m.add_matrix(np.zeros(case['shape'], dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    K = len(case['shape'])
    marks = []
    for i, f in enumerate(layer.factors):
        rng = np.random.default_rng([case['seed'], i])
        f.val = gen.seeded_signs([case['seed'], i], f().shape)
        f.fixed_entries = (rng.random(f().shape) < case['mark']).astype(np.int8)
        f.bernoulli_prior = 1 - 1e-15 if case['up'][i] else 1e-15
        marks.append((f.fixed_entries.copy(), f().copy()))
    fix_all(m)
    free = [i for i in range(K) if case['axis'] in (-1, i)]
    if K == 2 and case['parents']:
        for _ in range(case['parents']):
            pl = m.add_layer(latent_size=2, child=layer.factors[free[0]], model='OR-AND')
            pl.lbda.val = .01
        fix_all(m)
    warm(m)
    for i in free:
        layer.factors[i].fixed = False
    sweep(m)
    for i in free:
        f = layer.factors[i]
        want = np.where(marks[i][0] == 1, marks[i][1], 1 if case['up'][i] else -1)
        if not np.array_equal(f(), want):
            j = tuple(np.argwhere(f() != want)[0])
            raise Violation('%s: entry %s of factor %d was not visited by the sweep' % (
                case['model'], j, i))
    info.nontrivial = sum(f().size for f in layer.factors) > 2


@st.composite
def visit_many_case(draw):
    n = draw(st.integers(2, 12))
    return {'layers': [{'model': draw(st.sampled_from(gen.IMPL + ['MAX-AND'])),
                        'on': draw(st.integers(-1, 40)), 'dims': draw(gen.dims(2, 1, 4)),
                        'L': draw(st.integers(1, 3)), 'fix': draw(st.integers(0, 8)),
                        'up': draw(st.integers(0, 3))} for _ in range(n)],
            'seed': draw(gen.seeds), 'sweeps': draw(st.integers(1, 2))}


def visit_many(case, info):
    """machines of many layers: every free matrix is visited in every sweep"""
    m = lom.Machine()
    facs, n = [], 0
    for i, e in enumerate(case['layers']):
        child = facs[e['on'] % len(facs)][0] if e['on'] >= 0 and facs else None
        if child is not None and len(child.parents) < 2 and child.model != 'MAX-AND':
            pass
        else:
            child = m.add_matrix(np.zeros(e['dims'], dtype=np.int8), fixed=True)
        model = e['model']
        if model == 'MAX-AND' and child.layer is not None:
            model = 'OR-AND'
        l = m.add_layer(latent_size=e['L'], child=child, model=model)
        l.lbda.val = .001 if model != 'MAX-AND' else np.full(e['L'] + 1, .5)
        for a, f in enumerate(l.factors):
            f.val = gen.seeded_signs([case['seed'], i, a], f().shape)
            f.bernoulli_prior = 1 - 1e-15 if e['up'] >> a & 1 else 1e-15
            facs.append((f, e, a, model))
    fix_all(m)
    for f, e, a, model in facs:
        f.fixed = bool(e['fix'] >> a & 1) or model == 'MAX-AND'
    before = [f().copy() for f, *_ in facs]
    if all(f.fixed for f, *_ in facs):
        info.nontrivial = False
        return
    warm(m)
    np.random.seed(case['seed'] % 2**32)
    sweep(m, case['sweeps'])
    n = 0
    for (f, e, a, model), v in zip(facs, before):
        want = v if f.fixed else np.full_like(v, 1 if e['up'] >> a & 1 else -1)
        n += not f.fixed
        if not np.array_equal(f(), want):
            raise Violation('%d layers: factor %d of a %s layer is %s and was %s' % (
                len(case['layers']), a, model, 'fixed' if f.fixed else 'free', 'changed'
                if f.fixed else 'not visited by the sweep'))
    info.nontrivial = n > 2
    info.label('many' if n > 8 else 'few')


@st.composite
def visit_data_case(draw):
    return {'shape': draw(gen.dims(2, 1, 8)), 'n': draw(st.sampled_from([1, 2])),
            'seed': draw(gen.seeds), 'up': draw(st.booleans()), 'mark': draw(st.sampled_from([0., .3])),
            'models': [draw(st.sampled_from(gen.IMPL)) for _ in range(2)]}


def visit_data(case, info):
    m = lom.Machine()
    X = gen.seeded_signs(case['seed'], case['shape'])
    data = m.add_matrix(X.copy())
    rng = np.random.default_rng(case['seed'])
    for mod in case['models'][:case['n']]:
        m.add_layer(latent_size=2, child=data, model=mod).lbda.val = .01
    data.bernoulli_prior = 1 - 1e-15 if case['up'] else 1e-15
    data.fixed_entries = (rng.random(case['shape']) < case['mark']).astype(np.int8)
    keep = data.fixed_entries.copy()
    warm(m)
    fix_all(m)
    data.fixed = False
    sweep(m)
    want = np.where(keep == 1, X, 1 if case['up'] else -1)
    if not np.array_equal(data(), want):
        raise Violation('entry %s of the unobserved data was not visited, or a fixed one moved' % (
            np.argwhere(data() != want)[0].tolist()))


@st.composite
def mobile_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    return {'model': draw(st.sampled_from(gen.IMPL + (['MAX-AND', 'qL-AND'] if K == 2 else []))),
            'X': draw(gen.signs(draw(gen.dims(K, 1, 5 if K == 2 else 3)))), 'L': draw(st.integers(1, 4)),
            'gaps': [draw(st.integers(0, 7)) for _ in range(K)], 'seed': draw(gen.seeds),
            'prior': draw(st.sampled_from([.5, .5, .5, .4, .65])), 'lbda': draw(st.sampled_from([0., .01, .2])),
            'axis': draw(st.integers(-1, K - 1)), 'mark': draw(st.sampled_from([0., 0., .3]))}


def mobile(case, info):
    """weak evidence, also rows without any: every free entry changes within a few sweeps"""
    X = case['X'].copy()
    for k, g in enumerate(case['gaps']):      # unobserved rows, columns
        ix = [slice(None)] * X.ndim
        ix[k] = [i for i in range(X.shape[k]) if g >> (i % 3) & 1]
        X[tuple(ix)] = 0
    m = lom.Machine()
    data = m.add_matrix(X, fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    layer.lbda.val = case['lbda']
    if case['model'] == 'MAX-AND':
        layer.lbda.val = np.full(case['L'] + 1, .5)
    marks = []
    for i, f in enumerate(layer.factors):
        rng = np.random.default_rng([case['seed'], i])
        f.val = gen.seeded_signs([case['seed'], i], f().shape)
        f.bernoulli_prior = case['prior']
        f.fixed_entries = (rng.random(f().shape) < case['mark']).astype(np.int8)
        marks.append(f.fixed_entries.copy())
    fix_all(m)
    warm(m)
    for i, f in enumerate(layer.factors):
        f.fixed = case['axis'] not in (-1, i)
    np.random.seed(case['seed'] % 2**32)
    start = [f().copy() for f in layer.factors]
    moved = [np.zeros(f().shape, dtype=bool) for f in layer.factors]
    want = [(mk == 0) & (not f.fixed) for f, mk in zip(layer.factors, marks)]
    for _ in range(100):
        sweep(m)
        for f, s, mv in zip(layer.factors, start, moved):
            mv |= f() != s
        if all(np.array_equal(a, b) for a, b in zip(moved, want)):
            break
    for i, (mv, w) in enumerate(zip(moved, want)):
        if not np.array_equal(mv, w):
            j = np.argwhere(mv != w)[0]
            raise Violation('%s: entry %s of factor %d %s in 100 sweeps (%d observed entries in its slice)' % (
                case['model'], j.tolist(), i, 'never changed' if w[tuple(j)] else 'is fixed but changed',
                np.count_nonzero(np.take(X, j[0], axis=i))))
    info.nontrivial = bool(np.any(X)) and any(
        not np.any(np.take(X, i, axis=k)) for k in range(X.ndim) for i in range(X.shape[k]))
    info.label(case['model'], 'flat' if case['prior'] == .5 else 'prior')


SUBS = [
    Sub('mobile', mobile_case(), mobile, 600, 12000,
        what='every free entry moves under weak evidence, also in rows without observations'),
    Sub('rows', rows_case(), rows, 480, 12000,
        what='rows of one factor drawn from the exact posterior, one or two sweeps'),
    Sub('joint', joint_case(), joint, 120, 3000, what='all factors free, joint posterior'),
    Sub('stacked', stacked_case(), stacked, 80, 2000,
        what='two stacked layers (one or two parents), joint posterior'),
    Sub('visit', visit_case(), visit, 600, 12000, what='every free entry is visited'),
    Sub('visit_many', visit_many_case(), visit_many, 300, 6000,
        what='every free matrix of machines with up to twelve layers is visited'),
    Sub('visit_data', visit_data_case(), visit_data, 300, 6000,
        what='every free entry of unobserved data is visited'),
]
