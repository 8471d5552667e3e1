"""C19 The q-threshold model is sampled, scored and reconstructed consistently"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, mach, ref
from harness.core import Sub, Violation
from harness.sample import Site, check_odds, const_random, fix_all, sweep, warm

RULE = ('random data with missing entries, factors, thresholds 1..5, lambda, priors, Poisson rates; '
        'non-trivial: some threshold above one matters (the prediction differs from the one with '
        'all thresholds one), or the data change the odds')


def poisson_weights(gamma):
    return np.array([math.log(gamma) * q - math.lgamma(q + 1) for q in range(1, 6)])


def machine(X, fs, q, lbda):
    m = lom.Machine()
    data = m.add_matrix(np.array(X, dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=fs[0].shape[1], child=data, model='qL-AND')
    for f, v in zip(layer.factors, fs):
        f.val = np.array(v, dtype=np.int8)
    layer.q.val[:] = np.asarray(q).reshape(1, -1)
    layer.lbda.val = lbda
    return m, layer, data


@st.composite
def thresholds(draw, D):
    hi = draw(st.sampled_from([1, 2, 2, 3, 5]))
    buf = draw(gen.raw)
    return np.array([1 + b % hi for b in (buf * (D // 32 + 1))[:D]], dtype=np.int8)


@st.composite
def state(draw, hi=7, Lmax=7):
    L = draw(st.integers(1, Lmax))
    shape = draw(gen.dims(2, 1, hi))
    mode = draw(st.sampled_from(['half', 'dense', 'dense', 'sparse']))
    return {'X': draw(gen.data(shape)), 'factors': [draw(gen.signs((n, L), (mode,))) for n in shape],
            'q': draw(thresholds(shape[1]))}


@st.composite
def odds_case(draw):
    c = draw(state())
    k = draw(st.integers(0, 1))
    c.update(k=k, row=draw(st.integers(0, c['X'].shape[k] - 1)),
             l=draw(st.integers(0, c['factors'][0].shape[1] - 1)), lbda=draw(gen.lbda),
             prior=draw(gen.prior), again=draw(st.booleans()))
    return c


def odds(case, info):
    k, idx, q = case['k'], (case['row'], case['l']), case['q']
    m, layer, data = machine(case['X'], case['factors'], q, .7 if case['again'] else case['lbda'])
    if case['again']:
        # a previous call; the user then sets the state
        m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
        for f, v in zip(layer.factors, case['factors']):
            f.val = v.copy()
        layer.q.val[:] = q.reshape(1, -1)
        layer.lbda.val = case['lbda']
    layer.factors[1 - k].bernoulli_prior = .9
    layer.factors[k].bernoulli_prior = case['prior']
    score = mach.child_score(case['X'], case['factors'], k, idx, None,
                             lambda fs: ref.q_product(fs[0], fs[1], q if fs[1].shape[0] == len(q)
                                                      else q[[idx[0]]]))
    want = case['lbda'] * score + mach.logit(case['prior'])
    info.nontrivial = bool(score * case['lbda']) and bool((q > 1).any()) or case['prior'] != .5
    info.label('axis%d' % k, 'score' if score else 'score0')
    site = Site(m, layer.factors[k], idx)
    info.label(check_odds(site, want, what='q-threshold model: '))


@st.composite
def mid_case(draw):
    k = draw(st.integers(0, 1))
    shape = [0, 0]
    shape[k], shape[1 - k] = draw(st.integers(1, 3)), draw(st.integers(50, 500))
    return {'shape': shape, 'k': k, 'L': draw(st.sampled_from([1, 4, 8, 12, 130])),
            'seed': draw(gen.seeds), 'row': draw(st.integers(0, shape[k] - 1)),
            'lpick': draw(st.integers(0, 200)), 'bias': draw(st.sampled_from([.5, .05, .95])),
            'missing': draw(st.sampled_from([0., .4])), 'lbda': draw(st.sampled_from([.01, .05, .3])),
            'prior': draw(gen.prior)}


def mid(case, info):
    rng = np.random.default_rng([case['seed'], 9])
    L, k = case['L'], case['k']
    d = math.sqrt(min(1, 2.5 / L)) * .95
    fs = [gen.seeded_signs([case['seed'], i], (n, L), d) for i, n in enumerate(case['shape'])]
    X = gen.seeded_data(case['seed'], case['shape'], case['bias'], case['missing'])
    q = rng.integers(1, 6, case['shape'][1]).astype(np.int8)
    m, layer, data = machine(X, fs, q, case['lbda'])
    layer.factors[k].bernoulli_prior = case['prior']
    idx = (case['row'], case['lpick'] % L)
    score = mach.child_score(X, fs, k, idx, None,
                             lambda f: ref.q_product(f[0], f[1], q if f[1].shape[0] == len(q) and k == 0
                                                     else q[[idx[0]]]))
    info.nontrivial = score != 0
    info.label('|score|>%d' % (127 if abs(score) > 127 else 0))
    site = Site(m, layer.factors[k], idx)
    check_odds(site, case['lbda'] * score + mach.logit(case['prior']),
               what='q-threshold model %s: ' % case['shape'])



@st.composite
def distance_case(draw):
    L = draw(st.sampled_from([2, 3, 5, 9, 17, 33, 65, 70, 129, 140, 257]))
    return {'L': L, 'k': draw(st.integers(0, 1)), 'l': draw(st.integers(0, L - 1)),
            'gaps': draw(st.lists(st.integers(1, L), max_size=4, unique=True)), 'seed': draw(gen.seeds),
            'own': draw(st.sampled_from([-1, 1])), 'bias': draw(st.sampled_from([1., 0., .5])),
            'lbda': draw(st.sampled_from([.01, .1, .3])), 'prior': draw(gen.prior)}


def distance(case, info):
    """few dimensions active per entry, at every distance from the updated one"""
    L, l, k = case['L'], case['l'], case['k']
    fs = gen.one_hit_factors('OR-AND', 2, L, l, k, case['gaps'])
    fs[k][0, l] = case['own']
    X = gen.seeded_data(case['seed'], [f.shape[0] for f in fs], case['bias'])
    q = np.random.default_rng([case['seed'], 9]).integers(1, 6, X.shape[1]).astype(np.int8)
    if case['seed'] % 2:
        q[:] = min(5, len(case['gaps']) + 2)
    m, layer, data = machine(X, fs, q, case['lbda'])
    layer.factors[k].bernoulli_prior = case['prior']
    score = mach.child_score(X, fs, k, (0, l), None,
                             lambda f: ref.q_product(f[0], f[1], q if f[1].shape[0] == len(q)
                                                     else q[[0]]))
    info.nontrivial = score != 0
    check_odds(Site(m, layer.factors[k], (0, l)), case['lbda'] * score + mach.logit(case['prior']),
               what='q-threshold model, few dimensions active per entry, L=%d: ' % L)


@st.composite
def qdraw_case(draw):
    L = draw(st.integers(1, 7))
    N = draw(st.integers(1, 8))
    G = draw(st.sampled_from([1, 2, 3]))
    mode = draw(st.sampled_from(['half', 'dense', 'dense', 'ones']))
    return {'Z': draw(gen.signs((N, L), (mode,))), 'u': [draw(gen.signs((L,), (mode,))) for _ in range(G)],
            'x': [draw(gen.data([N])) for _ in range(G)], 'gamma': draw(st.sampled_from([1, 1, .3, 2.5, 5., .02])),
            'lbda': draw(st.sampled_from([.1, .4, 1., 2., .1, .4, 1., 2., 12., 50., 800.])), 'mark': draw(st.sampled_from([0, 0, 1, 5])),
            'seed': draw(gen.seeds), 'sweeps': draw(st.sampled_from([1, 1, 2]))}


def qdraw(case, info):
    rng = np.random.default_rng(case['seed'])
    G, n = len(case['u']), 1500
    group = rng.permutation(np.repeat(np.arange(G), n))
    U = np.array(case['u'])[group]
    X = np.array(case['x'])[group].T
    q0 = rng.integers(1, 6, G * n)
    m, layer, data = machine(X, [case['Z'], U], q0, case['lbda'])
    layer.gamma = case['gamma']
    fix_all(m)
    q = layer.q
    q.fixed = False
    marked = np.zeros(G * n, dtype=bool)
    if case['mark']:
        marked = rng.random(G * n) < .1 * case['mark']
        q.fixed_entries = marked[None].astype(np.int8)
    warm(m, 100000)
    np.random.seed(case['seed'])
    sweep(m, case['sweeps'])
    out = np.asarray(q())
    if out.shape != (1, G * n):
        raise Violation('thresholds have shape %s' % (out.shape,))
    out = out[0].astype(int)
    if np.any(out[marked] != q0[marked]):
        raise Violation('a threshold that is marked fixed changed')
    if out.min() < 1 or out.max() > 5:
        raise Violation('a threshold became %d' % (out.min() if out.min() < 1 else out.max()))
    if not np.array_equal(layer.u(), U) or not np.array_equal(layer.z(), case['Z']):
        raise Violation('updating thresholds changed the factors')
    # the smallest and the largest value that the uniform source can return
    for r in (0., 1 - 2.**-53):
        with const_random(r):
            sweep(m)
        end = np.asarray(q())[0].astype(int)
        if end.min() < 1 or end.max() > 5:
            raise Violation('a threshold became %d when the uniform source returns %r' % (
                end.min() if end.min() < 1 else end.max(), r))
    ps = []
    for g in range(G):
        x = case['x'][g].astype(int)
        lw = poisson_weights(case['gamma'])
        for v in range(1, 6):
            pred = ref.q_product(case['Z'], case['u'][g][None], [v])[:, 0]
            lw[v - 1] += case['lbda'] * int(np.sum((x != 0) & (pred == x)))
        p = np.exp(lw - lw.max())
        p /= p.sum()
        ps.append(p)
        sel = (group == g) & ~marked
        T = int(sel.sum())
        c = np.bincount(out[sel], minlength=6)[1:]
        for v in range(5):
            if abs(c[v] - T * p[v]) > 6.5 * math.sqrt(T * p[v] * (1 - p[v])) + 8:
                raise Violation('threshold %d drawn in %d of %d columns, its conditional '
                                'probability is %.5f (rate %s, lambda %s)' % (
                                    v + 1, c[v], T, p[v], case['gamma'], case['lbda']))
    # columns are drawn independently
    sel = (group[1:] == group[:-1]) & ~marked[1:] & ~marked[:-1]
    E = sum(((out[1:] == out[:-1]) & sel & (group[1:] == g)).sum() for g in range(G))
    W = sum((sel & (group[1:] == g)).sum() * float(np.sum(ps[g]**2)) for g in range(G))
    if abs(E - W) > 6.5 * math.sqrt(max(1, W)) * 1.5 + 10:
        raise Violation('neighbouring columns draw the same threshold %d times, expected %.1f' % (E, W))
    info.nontrivial = any(p.max() < .98 for p in ps)
    info.label('G=%d' % G, 'gamma=%s' % case['gamma'])


@st.composite
def output_case(draw):
    c = draw(state(7, 8))
    c.update(lbda=draw(gen.lbda), prior=draw(st.one_of(
        st.tuples(st.sampled_from([1, 1, .5, 3]), st.sampled_from([1, 1, .5, 3])),
        st.sampled_from([(1e6, 1), (1, 1e6), (1e-3, 1e-3), (300, 40)]))),
             n=draw(st.integers(0, 3)), seed=draw(gen.seeds),
             technique=draw(st.sampled_from([None, 'point_estimate', 'factor_map'])),
             raw=draw(st.booleans()), fix=draw(st.integers(0, 7)))
    return c


def output(case, info):
    fs, q, X = case['factors'], case['q'], case['X']
    m, layer, data = machine(X, fs, q, case['lbda'])
    layer.lbda.beta_prior = case['prior']
    warm(m)
    np.random.seed(case['seed'])
    if case['n']:
        for i, mat in enumerate(list(layer.factors) + [layer.q]):
            mat.fixed = bool(case['fix'] >> i & 1)
        m.infer(no_samples=case['n'], burn_in_min=0, burn_in_max=0)
        for i, (mat, v) in enumerate(zip(list(layer.factors) + [layer.q], fs + [q.reshape(1, -1)])):
            if case['fix'] >> i & 1 and not np.array_equal(mat(), v):
                raise Violation('a fixed matrix changed')
        for t in range(case['n']):
            rec = [f() if f.fixed else f.trace[t] for f in layer.factors]
            qt = (layer.q() if layer.q.fixed else layer.q.trace[t])[0]
            if qt.min() < 1 or qt.max() > 5 or any(not np.all(np.abs(r) == 1) for r in rec):
                raise Violation('record %d contains inadmissible values' % t)
            want, P, n = ref.smoothed_lbda(ref.q_product(rec[0], rec[1], qt), X, *case['prior'])
            got = float(layer.lbda.trace[t])
            if not abs(got - want) <= 1e-5 * (1 + abs(want)):
                raise Violation('record %d: lambda is %.8g, %d of %d correct predictions with beta '
                                'prior %s give %.8g' % (t, got, P, n, case['prior'], want))
        last = float(layer.lbda())
        if not abs(last - want) <= 1e-9 * (1 + abs(want)):
            raise Violation('lambda is %.12g instead of %.12g' % (last, want))
    fs, q = [f().copy() for f in layer.factors], layer.q()[0].copy()
    want = (ref.q_product(fs[0], fs[1], q) + 1) / 2
    kw = {} if case['technique'] is None else {'technique': case['technique']}
    if case['raw']:
        kw['map_to_probabilities'] = False
    got = np.asarray(layer.output(**kw), dtype=float)
    if case['raw']:
        got = (got + 1) / 2
    if got.shape != want.shape:
        raise Violation('reconstruction of shape %s' % (got.shape,))
    if not np.array_equal(got, want):
        i = tuple(np.argwhere(got != want)[0])
        raise Violation('reconstruction at %s is %.6g, %d dimensions are active, threshold %d' % (
            i, got[i], int(np.sum((fs[0][i[0]] == 1) & (fs[1][i[1]] == 1))), q[i[1]]))
    if not np.array_equal(data(), X):
        raise Violation('the data changed')
    info.nontrivial = bool(np.any(want != (ref.q_product(fs[0], fs[1], np.ones(len(q))) + 1) / 2))
    info.label('n=%d' % case['n'])


@st.composite
def joint_case(draw):
    L = draw(st.sampled_from([1, 2, 2]))
    shape = draw(st.sampled_from([[2, 1], [1, 2], [2, 1]] if L == 2 else [[2, 2], [3, 1], [1, 2], [2, 1]]))
    return {'L': L, 'shape': shape, 'X': draw(gen.data(shape, ('none', 'some'))),
            'lbda': draw(st.sampled_from([.5, 1., 1.7])), 'prior': draw(st.sampled_from([.5, .5, .7])),
            'gamma': draw(st.sampled_from([1, 2.5])), 'seed': draw(gen.seeds)}


def joint(case, info):
    """factors and thresholds free: one sweep keeps the exact joint posterior"""
    (N, D), L, X = case['shape'], case['L'], case['X']
    T = (N + D) * L
    S = []
    lw = []
    pw = poisson_weights(case['gamma'])
    for b in itertools.product([-1, 1], repeat=T):
        b = np.array(b, dtype=np.int8)
        Zm, U = b[:N * L].reshape(N, L), b[N * L:].reshape(D, L)
        for q in itertools.product(range(1, 6), repeat=D):
            S.append((Zm, U, np.array(q, dtype=np.int8)))
            pred = ref.q_product(Zm, U, q)
            lw.append(case['lbda'] * np.sum((X != 0) & (pred == X)) + sum(pw[v - 1] for v in q)
                      + mach.logit(case['prior']) * np.sum(b == 1))
    lw = np.array(lw)
    p = np.exp(lw - lw.max())
    p /= p.sum()
    rng = np.random.default_rng(case['seed'])
    m, layer, data = machine(X, [S[0][0], S[0][1]], S[0][2], case['lbda'])
    fix_all(m)
    for f in list(layer.factors) + [layer.q]:
        f.fixed = False
    for f in layer.factors:
        f.bernoulli_prior = case['prior']
    layer.gamma = case['gamma']
    warm(m)
    n = 1200
    np.random.seed(case['seed'])
    outs = []
    for s in rng.choice(len(S), p=p, size=n):
        layer.z.val, layer.u.val, layer.q.val = S[s][0].copy(), S[s][1].copy(), S[s][2][None].copy()
        sweep(m)
        outs.append(np.concatenate([(layer.z() == 1).ravel(), (layer.u() == 1).ravel(), layer.q().ravel()]))
    outs = np.array(outs).astype(int)
    ref_states = np.array([np.concatenate([(s[0] == 1).ravel(), (s[1] == 1).ravel(), s[2]]) for s in S]).astype(int)
    for i, j in itertools.combinations(range(ref_states.shape[1]), 2):
        for a in range(6):
            for b in range(6):
                e = float(p[(ref_states[:, i] == a) & (ref_states[:, j] == b)].sum())
                c = int(np.sum((outs[:, i] == a) & (outs[:, j] == b)))
                if abs(c - n * e) > 6.5 * math.sqrt(n * e * (1 - e)) + 8:
                    raise Violation('after a sweep from the exact joint posterior, coordinates %d, %d '
                                    'are %d, %d in %d of %d runs, expected %.1f' % (i, j, a, b, c, n, n * e))
    info.nontrivial = p.max() < .98


SUBS = [
    Sub('odds', odds_case(), odds, 4000, 100000, what='flip probability ratio against posterior odds'),
    Sub('mid', mid_case(), mid, 240, 6000, what='up to 500 data entries, up to 130 dimensions'),
    Sub('distance', distance_case(), distance, 480, 9000,
        what='active dimensions at every distance'),
    Sub('thresholds', qdraw_case(), qdraw, 120, 3000, what='frequencies of drawn thresholds'),
    Sub('output', output_case(), output, 3000, 80000, what='reconstruction, lambda, records'),
    Sub('joint', joint_case(), joint, 32, 800, what='a sweep keeps the exact joint posterior'),
]
