"""C12 Max model reconstructions report the strongest active dimension"""
import numpy as np
from hypothesis import strategies as st

import lom
import lom._numba.lom_outputs as lom_outputs
import lom._numba.lom_outputs_fuzzy as fuzzy
import lom._numba.max_machine_sampler as sampler
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import warm

RULE = ('random factors, records and reliabilities in (0,1) in any order (with ties, and with a '
        'background above some dimensions); non-trivial: the reliabilities are not already sorted '
        'in decreasing order and at least two dimensions')


@st.composite
def lbdas(draw, L):
    kind = draw(st.sampled_from(['any', 'any', 'inc', 'dec', 'ties', 'close', 'extreme']))
    rng = np.random.default_rng(np.frombuffer(draw(gen.raw), dtype=np.uint32))
    x = .02 + .96 * rng.random(L + 1)
    if kind == 'inc':
        x = np.sort(x)
    elif kind == 'dec':
        x = np.sort(x)[::-1].copy()
    elif kind == 'ties':
        x = np.round(x * 4) / 4 * .9 + .05
    elif kind == 'close':
        x = .5 + 1e-3 * x
    elif kind == 'extreme':
        x = np.where(x > .5, 1 - 1e-6 * x, 1e-6 * x)
    if draw(st.booleans()):
        x[-1] = x.min() * .5
    return x


@st.composite
def case_st(draw):
    L = draw(st.integers(1, 6))
    shape = draw(gen.dims(2, 1, 6))
    n = draw(st.integers(0, 5))
    mode = draw(st.sampled_from(['half', 'sparse', 'dense']))
    return {'factors': [draw(gen.signs((s, L), (mode,))) for s in shape],
            'lbda': draw(lbdas(L)), 'n': n,
            'traces': [draw(gen.signs((max(n, 1), s, L), (mode,))) for s in shape],
            'ltrace': [draw(lbdas(L)) for _ in range(5)],
            'fixed': draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            'fixl': draw(st.sampled_from([False, False, True])), 'X': draw(gen.data(shape))}


def compare(got, want, what, tol=1e-9):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation('max model %s: entry %s is %.10g, the definition gives %.10g' % (
            what, i, got[i], want[i]))
    if got.min() < -1e-12 or got.max() > 1 + 1e-12:
        raise Violation('max model %s: not a probability' % what)


def outputs(layer, cur, lb, recs, lrecs, info, what):
    """recs: list over time of (Z, U), or empty"""
    before = [f().copy() for f in layer.factors] + [layer.lbda().copy()]
    if recs:
        means = [np.mean([r[i].astype(float) for r in recs], axis=0) for i in range(2)]
        sums = [np.sum([r[i].astype(int) for r in recs], axis=0) for i in range(2)]
    else:
        means, sums = [c.astype(float) for c in cur], [c.astype(int) for c in cur]
    ml = np.mean(lrecs, axis=0) if lrecs is not None else lb
    compare(layer.output(technique='point_estimate'), ref.max_product(cur[0], cur[1], lb),
            what + 'point estimate')
    th = [np.where(s > 0, 1, -1) for s in sums]
    compare(layer.output(technique='factor_map'), ref.max_product(th[0], th[1], lb),
            what + 'thresholded means')
    compare(layer.output(), ref.max_product(th[0], th[1], lb), what + 'default')
    T = max(len(recs), 0 if lrecs is None else len(lrecs), 1)
    want = 0
    for t in range(T):
        r = recs[t] if recs else cur
        want = want + ref.max_product(r[0], r[1], lrecs[t] if lrecs is not None else lb)
    compare(layer.output(technique='mc'), want / T, what + 'average over records', 1e-6)
    compare(layer.output(technique='factor_mean'),
            ref.max_fuzzy((means[0] + 1) / 2, (means[1] + 1) / 2, ml), what + 'exact mean', 2e-6)
    compare((1 + layer.output(technique='factor_map', map_to_probabilities=False)) / 2,
            ref.max_product(th[0], th[1], lb), what + 'unmapped')
    for a, b in zip(before, [f() for f in layer.factors] + [layer.lbda()]):
        if not np.array_equal(a, b):
            raise Violation('a reconstruction changed the state')


def given(case, info):
    n = case['n']
    L = len(case['lbda']) - 1
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=L, child=data, model='MAX-AND')
    layer.lbda.val = case['lbda'].copy()
    cols, traced = [], False
    for i, f in enumerate(layer.factors):
        f.val = gen.lay(case['factors'][i], i)
        if n == 0 or case['fixed'] >> i & 1:
            f.fixed = bool(case['fixed'] >> i & 1)
            cols.append([case['factors'][i]] * max(n, 1))
        else:
            f.trace = case['traces'][i].copy()
            cols.append(list(case['traces'][i]))
            traced = True
    lrecs = None
    if n and not case['fixl']:
        layer.lbda.trace = np.array(case['ltrace'][:n])
        lrecs = np.array(case['ltrace'][:n])
    recs = [(cols[0][t], cols[1][t]) for t in range(n)] if traced else []
    outputs(layer, case['factors'], case['lbda'], recs, lrecs, info, '')
    info.nontrivial = L > 1 and bool(np.any(np.diff(case['lbda'][:-1]) > 0))
    info.label('n=%d' % n)


def scalar(case, info):
    """module functions on the same inputs"""
    Z, U = case['factors']
    lb = case['lbda']
    compare(lom_outputs.MAX_AND_product_2d([Z, U], lb), ref.max_product(Z, U, lb), 'product')
    rng = np.random.default_rng(len(Z) * 7 + len(U))
    PZ, PU = rng.random(Z.shape), rng.random(U.shape)
    PZ = np.where(Z == 1, PZ, np.round(PZ))
    compare(fuzzy.MAX_AND_product_fuzzy(PZ, PU, lb), ref.max_fuzzy(PZ, PU, lb), 'fuzzy product')
    # crisp probabilities
    compare(fuzzy.MAX_AND_product_fuzzy((Z + 1) / 2, (U + 1) / 2, lb), ref.max_product(Z, U, lb),
            'fuzzy product of crisp factors')
    forward = getattr(sampler, 'maxmachine_forward_pass', None)
    if forward is not None and np.all(lb > 0):
        z, u, a = ((Z + 1) / 2).astype(int), ((U + 1) / 2).astype(float), lb.copy()
        compare(forward(u, z, a), ref.max_product(Z, U, lb), 'forward pass on 0/1 factors')
        if not np.array_equal(a, lb):
            raise Violation('the forward pass altered the reliabilities')
    info.nontrivial = bool(np.any(np.diff(lb[:-1]) > 0))


@st.composite
def infer_case(draw):
    return {'X': draw(gen.data([draw(st.integers(2, 8)), draw(st.integers(2, 6))])),
            'L': draw(st.integers(1, 4)), 'n': draw(st.sampled_from([0, 1, 2, 3, 4, 5, 11, 30])), 'seed': draw(gen.seeds),
            'burn': draw(st.integers(0, 4)), 'fix': draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            'fixl': draw(st.sampled_from([False, False, True])), 'calls': draw(st.integers(1, 2))}


def infer(case, info):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model='MAX-AND')
    np.random.seed(case['seed'])
    rng = np.random.default_rng(case['seed'])
    for call in range(case['calls']):
        for i, f in enumerate(layer.factors):
            f.val = gen.seeded_signs([case['seed'], i, call], f().shape)
            f.fixed = bool(case['fix'] >> (i if call == 0 else 1 - i) & 1)
        layer.lbda.val = .02 + .96 * rng.random(case['L'] + 1)
        layer.lbda.fixed = case['fixl'] if call == 0 else not case['fixl']
        n = case['n']
        warm(m)
        m.infer(no_samples=n, burn_in_min=case['burn'], burn_in_max=case['burn'])
        cur = [f() for f in layer.factors]
        cols = [[f()] * n if f.fixed else list(f.trace) for f in layer.factors]
        moving = any(not f.fixed for f in layer.factors)
        recs = [(cols[0][t], cols[1][t]) for t in range(n)] if moving else []
        lrecs = None if layer.lbda.fixed or n == 0 else layer.lbda.trace.copy()
        outputs(layer, cur, layer.lbda().copy(), recs, lrecs, info, 'after inference, ')
    info.nontrivial = moving and n > 1


@st.composite
def wide_case(draw):
    return {'L': draw(st.sampled_from([30, 127, 130, 200])), 'seed': draw(gen.seeds),
            'density': draw(st.sampled_from([.02, .1, .5]))}


def wide(case, info):
    L = case['L']
    rng = np.random.default_rng(case['seed'])
    Z = gen.seeded_signs([case['seed'], 0], (4, L), case['density'])
    U = gen.seeded_signs([case['seed'], 1], (5, L), case['density'])
    lb = .02 + .96 * rng.random(L + 1)
    m = lom.Machine()
    layer = m.add_layer(latent_size=L, shape=(4, 5), model='MAX-AND')
    layer.z.val, layer.u.val, layer.lbda.val = gen.lay(Z), gen.lay(U), lb
    outputs(layer, [Z, U], lb, [], None, info, '%d dimensions, ' % L)


@st.composite
def many_case(draw):
    return {'n': draw(st.sampled_from([7, 8, 16, 50, 128, 130, 260])), 'shape': draw(gen.dims(2, 1, 4)),
            'L': draw(st.integers(1, 4)), 'seed': draw(gen.seeds), 'fixed': draw(st.sampled_from([0, 0, 1, 2])),
            'repeat': draw(st.booleans()), 'fixl': draw(st.sampled_from([False, False, True]))}


def many(case, info):
    """long records, in some of which the factors rarely change"""
    n, L, seed = case['n'], case['L'], case['seed']
    rng = np.random.default_rng(seed)
    traces = []
    for i, s in enumerate(case['shape']):
        t = (2 * (rng.random((n, s, L)) < rng.choice([.3, .5, .7])) - 1).astype(np.int8)
        if case['repeat']:
            for k in range(1, n):
                if rng.random() < .7:
                    t[k] = t[k - 1]
        traces.append(t)
    lb = .02 + .96 * rng.random((n, L + 1))
    given({'factors': [t[-1] for t in traces], 'lbda': lb[-1], 'n': n, 'traces': traces, 'ltrace': lb,
           'fixed': case['fixed'], 'fixl': case['fixl'],
           'X': gen.seeded_signs([seed, 5], case['shape'])}, info)
    info.nontrivial = True


SUBS = [
    Sub('many', many_case(), many, 240, 5000, what='up to 260 records'),
    Sub('given', case_st(), given, 3000, 80000, what='all techniques on given records'),
    Sub('functions', case_st(), scalar, 1500, 40000, what='product functions'),
    Sub('infer', infer_case(), infer, 800, 20000, what='after inference runs'),
    Sub('wide', wide_case(), wide, 60, 1000, what='up to 200 dimensions'),
]
