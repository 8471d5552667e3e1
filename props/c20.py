"""C20 Models with unbounded latent size keep a consistent state"""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom, poisson

import lom
from harness import gen, mach, ref
from harness.core import Skip, Sub, Violation
from harness.sample import Site, check_odds, const_random, fix_all, measure

RULE = ('random data with missing entries, initial factors of any size, concentrations, lambdas, '
        'priors, several inference calls; every sweep is inspected (runs that stop there, under '
        'the same random source); non-trivial: the latent size changes during the run')


@st.composite
def run_case(draw):
    shape = draw(st.one_of(gen.dims(2, 1, 7), st.tuples(st.integers(5, 14), st.integers(3, 8))))
    L = draw(st.integers(1, 6))
    start = draw(st.sampled_from(['init', 'given', 'empty', 'twins']))
    return {'X': draw(gen.data(list(shape))), 'L': L, 'start': start, 'seed': draw(gen.seeds),
            'mode': draw(st.sampled_from(['half', 'sparse', 'dense'])),
            'alpha': draw(st.sampled_from([None, None, .1, 1, 3., 8, 30., 300.])),
            'lbda': draw(st.one_of(st.none(), gen.lbda_pos, st.sampled_from([40., 800.]))), 'fixl': draw(st.booleans()),
            'prior': draw(st.sampled_from([.5, .5, .2, .8, .95])), 'n': draw(st.integers(1, 6)),
            'burn': draw(st.integers(0, 3)), 'calls': draw(st.integers(1, 2)),
            'other': draw(st.sampled_from([None, None, 'OR-AND', 'qL-AND', 'MAX-AND', '3d'])),
            'resize': draw(st.sampled_from([0, 0, 0, 1, 4])),
            'layout': draw(st.sampled_from(['C', 'F']))}


def build(case):
    np.random.seed(case['seed'])
    m = lom.Machine()
    X = np.asfortranarray(case['X']) if case['layout'] == 'F' else case['X'].copy()
    data = m.add_matrix(X, fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model='OR-AND-IBP')
    for i, f in enumerate(layer.factors):
        if case['start'] == 'given':
            f.val = gen.seeded_signs([case['seed'], i], f().shape)
        elif case['start'] == 'empty':
            f.val[:] = -1
        elif case['start'] == 'twins':
            f.val[:] = f.val[:, :1]
    if case['alpha'] is not None:
        layer.alpha = case['alpha']
    if case['lbda'] is not None:
        layer.lbda.val = case['lbda']
    layer.lbda.fixed = case['fixl']
    layer.u.bernoulli_prior = case['prior']
    extra = None
    if case['other']:
        shape = (3, 2, 2) if case['other'] == '3d' else (3, 2)
        d2 = m.add_matrix(gen.seeded_data(case['seed'], shape), fixed=True)
        extra = m.add_layer(latent_size=2, child=d2,
                            model='OR-AND' if case['other'] == '3d' else case['other'])
    return m, layer, data, extra


def check_state(layer, X, what, moved=True):
    Z, U = layer.z(), layer.u()
    N, D = X.shape
    if Z.ndim != 2 or U.ndim != 2 or Z.shape[0] != N or U.shape[0] != D:
        raise Violation('%s: factors of shape %s, %s for data of shape %s' % (
            what, Z.shape, U.shape, X.shape))
    if Z.shape[1] != U.shape[1] or layer.size != Z.shape[1]:
        raise Violation('%s: factors with %d and %d dimensions' % (what, Z.shape[1], U.shape[1]))
    for name, f in (('first', Z), ('second', U)):
        if not np.all(np.abs(f) == 1):
            raise Violation('%s: %s factor has entries other than -1, 1' % (what, name))
        if f.dtype != np.int8:
            raise Violation('%s: %s factor became %s' % (what, name, f.dtype))
    if moved and not np.all((Z == 1).any(axis=0)):
        raise Violation('%s: dimension %d is not used by any row' % (
            what, int(np.argmin((Z == 1).any(axis=0)))))
    for f in layer.factors:
        if np.shape(f.fixed_entries) != f().shape:
            raise Violation('%s: marks of shape %s for a factor of shape %s' % (
                what, np.shape(f.fixed_entries), f().shape))
    if layer.model != 'OR-AND-IBP':
        raise Violation('%s: the model became %s' % (what, layer.model))


def play(case, calls, n_last):
    """calls complete inference calls, the last one with n_last samples"""
    m, layer, data, extra = build(case)
    for c in range(calls):
        last = c == calls - 1
        if c and case['resize']:
            L = layer.size + case['resize'] - 2
            if L > 0:
                for i, f in enumerate(layer.factors):
                    f.val = gen.seeded_signs([case['seed'], 7, i], (f().shape[0], L))
        m.infer(no_samples=n_last if last else case['n'], burn_in_min=case['burn'],
                burn_in_max=case['burn'])
    return m, layer, data, extra


def embed(v, width):
    out = np.full((v.shape[0], width), -1)
    out[:, :v.shape[1]] = v
    return out


def run(case, info):
    X = case['X']
    sizes = []
    m, layer, data, extra = play(case, case['calls'], case['n'])
    check_state(layer, X, 'after inference')
    if not np.array_equal(data(), X):
        raise Violation('inference changed the data')
    tz, tu = layer.z.trace, layer.u.trace
    for name, t, f in (('first', tz, layer.z), ('second', tu, layer.u)):
        if t.ndim != 3 or t.shape[0] != case['n'] or t.shape[1] != f().shape[0] or \
                t.shape[2] < f().shape[1]:
            raise Violation('records of the %s factor have shape %s' % (name, t.shape))
        if not np.all(np.abs(t) == 1):
            raise Violation('records of the %s factor have entries other than -1, 1' % name)
    if tz.shape[2] != tu.shape[2]:
        raise Violation('records of the factors have %d and %d dimensions' % (
            tz.shape[2], tu.shape[2]))
    for t in range(case['n']):
        m2, l2, d2, e2 = play(case, case['calls'], t + 1)
        check_state(l2, X, 'after sweep %d' % (t + 1))
        sizes.append(l2.size)
        for name, tr, f in (('first', tz, l2.z), ('second', tu, l2.u)):
            if f().shape[1] > tr.shape[2] or not np.array_equal(tr[t], embed(f(), tr.shape[2])):
                raise Violation('record %d of the %s factor is not the state after that sweep '
                                'padded with inactive dimensions (%d dimensions)' % (
                                    t, name, f().shape[1]))
        pred = ref.product([l2.z(), l2.u()], 'OR-AND') if l2.size else np.full(X.shape, -1)
        want, P, n = ref.smoothed_lbda(pred, X, 1, 1)
        if not case['fixl']:
            if not abs(float(l2.lbda()) - want) <= 1e-9 * (1 + want) or \
                    not abs(float(layer.lbda.trace[t]) - want) <= 1e-5 * (1 + want):
                raise Violation('after sweep %d lambda is %.10g (recorded %.6g), %d of %d correct '
                                'predictions give %.10g' % (t + 1, l2.lbda(), layer.lbda.trace[t],
                                                            P, n, want))
        if extra is not None:
            for f, g in zip(extra.factors, e2.factors):
                if not np.array_equal(f.trace[t], g()):
                    raise Violation('record %d of another layer in the machine is not the state '
                                    'after that sweep' % t)
    # reconstruction
    def prod(z, u):
        return ref.product([z, u], 'OR-AND') if z.shape[1] else np.full(X.shape, -1)
    mc = np.mean([prod(a, b) for a, b in zip(tz, tu)], axis=0)
    th = [np.where(t.astype(int).sum(axis=0) > 0, 1, -1) for t in (tz, tu)]
    mean = [(1 + t.astype(float).mean(axis=0)) / 2 for t in (tz, tu)]
    wants = [('mc', (1 + mc) / 2), ('factor_map', (1 + prod(*th)) / 2),
             ('point_estimate', (1 + prod(layer.z(), layer.u())) / 2),
             ('factor_mean', ref.fuzzy_product(mean, 'OR-AND'))]
    for tech, want in wants:
        got = np.asarray(layer.output(technique=tech), dtype=float)
        if got.shape != X.shape or not np.all(np.abs(got - want) <= 2e-6):
            raise Violation('reconstruction (%s) differs from the OR-AND product of the records '
                            'by %s' % (tech, np.abs(got - want).max() if got.shape == X.shape
                                       else got.shape))
        check_state(layer, X, 'after a reconstruction')
    info.nontrivial = len(set(sizes)) > 1
    info.label('grew>10' if max(sizes) > case['L'] + 10 else 'size', 'alpha=%s' % case['alpha'],
               'empty' if min(sizes) == 0 else 'non-empty', case['start'])


@st.composite
def long_case(draw):
    shape = [draw(st.integers(5, 40)), draw(st.integers(5, 25))]
    return {'shape': shape, 'seed': draw(gen.seeds), 'L': draw(st.integers(1, 12)),
            'alpha': draw(st.sampled_from([None, .5, 3, 40])), 'rank': draw(st.integers(1, 4)),
            'noise': draw(st.sampled_from([0., .1, .5])), 'missing': draw(st.sampled_from([0., .3, .95])),
            'n': draw(st.integers(5, 25))}


def long(case, info):
    """structured data, default burn-in rules"""
    rng = np.random.default_rng([case['seed'], 4])
    fs = [gen.seeded_signs([case['seed'], i], (n, case['rank']), .4) for i, n in enumerate(case['shape'])]
    X = ref.product(fs, 'OR-AND')
    X = np.where(rng.random(X.shape) < case['noise'], -X, X)
    X[rng.random(X.shape) < case['missing']] = 0
    np.random.seed(case['seed'])
    m = lom.Machine()
    data = m.add_matrix(X.astype(np.int8), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model='OR-AND-IBP')
    if case['alpha'] is not None:
        layer.alpha = case['alpha']
    m.infer(no_samples=case['n'], convergence_window=5, burn_in_min=5, burn_in_max=30)
    check_state(layer, X, 'after inference')
    for t in (layer.z.trace, layer.u.trace):
        if t.shape[0] != case['n'] or not np.all(np.abs(t) == 1):
            raise Violation('records are inconsistent')
    for f, t in ((layer.z, layer.z.trace), (layer.u, layer.u.trace)):
        if not np.array_equal(t[-1], embed(f(), t.shape[2])):
            raise Violation('the last record is not the final state')
    for t in range(case['n']):
        act = (layer.z.trace[t] == 1).any(axis=0)
        if np.any((layer.u.trace[t] == 1).any(axis=0) & ~act):
            raise Violation('record %d: a dimension of the second factor has no users' % t)
        k = int(act.sum())
        if not np.all(act[:k]):
            raise Violation('record %d: dimensions are not contiguous' % t)
    mc = np.mean([ref.product([a, b], 'OR-AND') for a, b in zip(layer.z.trace, layer.u.trace)], axis=0)
    if not np.allclose(layer.output(technique='mc'), (1 + mc) / 2, atol=1e-6):
        raise Violation('reconstruction differs from the OR-AND product of the records')
    info.nontrivial = layer.size != case['L']
    info.label('L=%d' % min(layer.size, 20))


@st.composite
def odds_case(draw):
    L = draw(st.integers(1, 5))
    shape = draw(gen.dims(2, 1, 7))
    fs = draw(gen.factors(shape, L, 'OR-AND'))
    return {'X': draw(gen.data(shape)), 'factors': fs, 'row': draw(st.integers(0, shape[1] - 1)),
            'l': draw(st.integers(0, L - 1)), 'lbda': draw(gen.lbda), 'prior': draw(gen.prior),
            'first': draw(st.integers(0, 2))}


def odds(case, info):
    """second factor: the posterior odds of the OR-AND model"""
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=max(1, case['factors'][0].shape[1] - case['first']), child=data,
                        model='OR-AND-IBP')
    if case['first']:
        m.infer(no_samples=case['first'], burn_in_min=0, burn_in_max=0)
    for f, v in zip(layer.factors, case['factors']):
        f.val = v.copy()
        f.fixed_entries = np.zeros(v.shape, dtype=np.int8)
    layer.lbda.val = case['lbda']
    layer.u.bernoulli_prior = case['prior']
    idx = (case['row'], case['l'])
    score = mach.child_score(case['X'], case['factors'], 1, idx, 'OR-AND')
    site = Site(m, layer.u, idx)
    info.label(check_odds(site, case['lbda'] * score + mach.logit(case['prior']),
                          what='IBP model, second factor: '))
    info.nontrivial = score * case['lbda'] != 0


@st.composite
def usage_case(draw):
    N, L = draw(st.integers(2, 5)), draw(st.integers(1, 3))
    D = draw(st.integers(1, 4))
    U = draw(gen.signs((D, L)))
    Z = draw(gen.signs((N, L)))
    X = draw(gen.data((N, D)))
    return {'X': X, 'Z': Z, 'U': U, 'users': draw(st.lists(st.integers(1, N - 1), min_size=L, max_size=L)),
            'lbda': draw(st.one_of(gen.lbda_pos, st.sampled_from([0., .3, 1.]))),
            'seed': draw(gen.seeds)}


def usage(case, info):
    """
    the first row is updated entry by entry given the other rows: with new dimensions
    practically ruled out, the number of its ones is compared with its exact distribution
    """
    X, Z, U = case['X'], case['Z'].copy(), case['U']
    N, L = Z.shape
    for l, n in enumerate(case['users']):
        Z[n, l] = 1        # every dimension is used by some other row
    m = lom.Machine()
    data = m.add_matrix(X.copy(), fixed=True)
    layer = m.add_layer(latent_size=L, child=data, model='OR-AND-IBP')
    layer.alpha = 1e-150
    layer.lbda.fixed = True
    share = (Z[1:] == 1).sum(axis=0) / N
    p = {tuple(Z[0]): 1.}
    for l in range(L):
        q = {}
        for row, w in p.items():
            z = Z.copy()
            z[0] = row
            score = mach.child_score(X, [z, U], 0, (0, l), 'OR-AND')
            one = 1 / (1 + np.exp(-case['lbda'] * score) * (1 - share[l]) / share[l])
            for v, pv in ((1, one), (-1, 1 - one)):
                r = row[:l] + (v,) + row[l + 1:]
                q[r] = q.get(r, 0.) + w * pv
        p = q
    want = np.zeros(L + 1)
    for row, w in p.items():
        want[sum(v == 1 for v in row)] += w
    counts, runs = np.zeros(L + 1), 0
    np.random.seed(case['seed'])
    for total in (250, 4000):
        while runs < total:
            layer.z.val, layer.u.val = Z.copy(), U.copy()
            layer.z.fixed_entries = np.zeros(Z.shape, dtype=np.int8)
            layer.u.fixed_entries = np.ones(U.shape, dtype=np.int8)
            layer.lbda.val = case['lbda']
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
            k = int((layer.z()[0] == 1).sum())
            if k > L:
                raise Violation('new dimensions in spite of a concentration of 1e-150')
            counts[k] += 1
            runs += 1
        # a suspicious result is confirmed with more runs
        if np.all([binom_tail(int(c), runs, w) > 1e-4 for c, w in zip(counts, want)]):
            break
    else:
        bad = [(k, int(c), runs * w) for k, (c, w) in enumerate(zip(counts, want))
               if binom_tail(int(c), runs, w) < 1e-10]
        if bad:
            raise Violation('first factor: in %d updates of a row %d entries were one %d times, '
                            'expected %.1f' % ((runs,) + bad[0]))
    info.nontrivial = bool(case['lbda'] and X[0].any())
    info.label('L=%d' % L)


@st.composite
def usage_many_case(draw):
    N = draw(st.sampled_from([20, 100, 127, 128, 129, 130, 131, 200, 256, 257, 258, 300]))
    return {'N': N, 'D': draw(st.integers(1, 3)), 'users': draw(st.one_of(
        st.integers(1, N - 1), st.sampled_from([N - 1, N - 2, min(N - 1, 128), N // 2]))),
        'other': draw(st.booleans()), 'lbda': draw(st.sampled_from([0., .3, 1., 2.])),
        'seed': draw(gen.seeds), 'layout': draw(st.sampled_from(['C', 'F']))}


class FirstRow:
    """first entry of the first factor; what happens to later rows does not matter"""
    index = (0, 0)

    def __init__(self, m, layer, Z, U, lbda):
        self.m, self.layer, self.Z, self.U, self.lbda, self.mat = m, layer, Z, U, lbda, layer.z

    def update(self, s):
        layer = self.layer
        Z = self.Z.copy()
        Z[0, 0] = s
        layer.z.val, layer.u.val = Z, self.U.copy()
        layer.z.fixed_entries = np.zeros(Z.shape, dtype=np.int8)
        layer.u.fixed_entries = np.ones(self.U.shape, dtype=np.int8)
        layer.lbda.val = self.lbda
        self.m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
        # all other rows take to the dimension, it keeps its place
        if layer.z().shape[1] == 0:
            raise Skip('the dimension was removed by later rows')
        return int(layer.z()[0, 0])

    def flips(self, s, r):
        with const_random(r, 1e-13) as c:
            out = self.update(s) != s
        self.calls = c.calls
        return out


def usage_many(case, info):
    """many rows use a dimension: their exact share counts"""
    N, D = case['N'], case['D']
    rng = np.random.default_rng(case['seed'])
    X = (2 * rng.integers(0, 2, (N, D)) - 1).astype(np.int8)
    L = 2 if case['other'] else 1
    Z = np.full((N, L), -1, dtype=np.int8)
    Z[1 + rng.permutation(N - 1)[:case['users']], 0] = 1
    U = (2 * rng.integers(0, 2, (D, L)) - 1).astype(np.int8)
    if L == 2:
        Z[:, 1] = 2 * rng.integers(0, 2, N) - 1
        Z[1:4, 1] = 1
    m = lom.Machine()
    m_data = m.add_matrix(X.copy(order=case['layout']), fixed=True)
    layer = m.add_layer(latent_size=L, child=m_data, model='OR-AND-IBP')
    layer.alpha = 1e-150
    layer.lbda.fixed = layer.u.fixed = True
    share = case['users'] / N
    score = mach.child_score(X, [Z, U], 0, (0, 0), 'OR-AND')
    want = case['lbda'] * score + np.log(share) - np.log1p(-share)
    site = FirstRow(m, layer, Z, U, case['lbda'])
    p, eps = 1 / (1 + np.exp(-want)), 1e-6
    gibbs = all(site.flips(s, r) == ((1 if r < p else -1) != s)
                for s in (-1, 1) for r in (p * (1 - eps), p * (1 + eps)) if 0 < r < 1)
    if not gibbs:
        q = {s: measure(site, s) for s in (-1, 1)}
        if None in q.values():
            raise Skip('random source not under control')
        if min(q.values()) <= 0 or abs(np.log(q[-1] / q[1]) - want) > 1e-4:
            raise Violation('first factor, dimension that %d of %d rows use: flip probabilities %.6g '
                            '(-1 to 1) and %.6g (1 to -1), posterior log odds %.6g' % (
                                case['users'], N, q[-1], q[1], want))
    info.nontrivial = True
    info.label('%d rows' % N)


def binom_tail(c, n, p):
    """two-sided tail probability (with room for rounding errors of p near 0 and 1)"""
    p = min(max(p, 1e-9), 1 - 1e-9)
    return min(1., 2 * min(binom.cdf(c, n, p), binom.sf(c - 1, n, p)))


@st.composite
def births_case(draw):
    N, D, L = draw(st.sampled_from([1, 2, 2, 3])), draw(st.integers(1, 6)), draw(st.integers(1, 3))
    return {'X': draw(gen.data((N, D), ('none', 'none', 'some'))), 'Z': draw(gen.signs((N, L))),
            'U': draw(gen.signs((D, L), ('half', 'dense'))), 'alpha': draw(st.sampled_from([1., 2., 5.])),
            'lbda': draw(st.sampled_from([0., .3, 1., 2.5, .3, 1., 2.5, 20., 45., 800.])),
            'prior': draw(st.sampled_from([.5, .5, .3, .8])), 'seed': draw(gen.seeds)}


@st.composite
def births_wide_case(draw):
    """hundreds of columns that a new dimension may explain, at weights where it is undecided"""
    D, L = draw(st.sampled_from([130, 200, 260, 300, 400, 520, 700])), draw(st.integers(1, 2))
    r = np.random.RandomState(draw(gen.seeds))
    ones = draw(st.sampled_from([.5, .7, .95, 1.]))
    return {'X': np.where(r.rand(1, D) < ones, 1, -1).astype(np.int8), 'Z': draw(gen.signs((1, L))),
            'U': np.where(r.rand(D, L) < draw(st.sampled_from([.01, .1, .5])), 1, -1).astype(np.int8),
            'alpha': draw(st.sampled_from([1., 2.])), 'lbda': draw(st.sampled_from([.002, .005, .01, .02])),
            'prior': draw(st.sampled_from([.5, .3, .8])), 'seed': draw(gen.seeds)}


def mixed(x, off):
    """log((1 - off) sigmoid(x) + off sigmoid(-x)), of any x"""
    with np.errstate(divide='ignore'):
        return np.logaddexp(np.log1p(-off) + np.minimum(x, 0) - np.log1p(np.exp(-abs(x))),
                            np.log(off) + np.minimum(-x, 0) - np.log1p(np.exp(-abs(x))))


def births(case, info):
    """
    number of dimensions that the last row introduces, and the entries of a single new column,
    against their expectations given the rest of the state
    """
    X, N, D = case['X'], *case['X'].shape
    m = lom.Machine()
    data = m.add_matrix(X.copy(), fixed=True)
    layer = m.add_layer(latent_size=case['Z'].shape[1], child=data, model='OR-AND-IBP')
    layer.alpha, lam, q = case['alpha'], case['lbda'], case['prior']
    layer.lbda.fixed = True
    layer.u.bernoulli_prior = q
    layer.u.sampling_fct = lambda mat: None      # only the first factor is updated
    rate = case['alpha'] / N
    runs = 0
    obs, exp, var = np.zeros(3), np.zeros((2, 3)), np.zeros((2, 3))
    uobs = uexp = uvar = 0.
    np.random.seed(case['seed'])
    for total, z in ((500, 3.), (6000, 6.5)):
        while runs < total:
            runs += 1
            layer.z.val, layer.u.val = case['Z'].copy(), case['U'].copy()
            for f in layer.factors:
                f.fixed_entries = np.zeros(f().shape, dtype=np.int8)
            layer.lbda.val = lam
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
            Z, U = layer.z(), layer.u()
            kept = (Z[:-1] == 1).any(axis=0)
            new = int(np.sum(~kept & (Z[-1] == 1)))
            if new > 2 or np.any(~kept & (Z[-1] != 1)):
                raise Violation('%d new dimensions, %d unused ones' % (new, np.sum(~kept & (Z[-1] != 1))))
            free = ~(U[:, kept] == 1)[:, Z[-1, kept] == 1].any(axis=1)    # not explained yet
            k = np.arange(3)
            off = (1 - q) ** k                    # probability that k new columns are off
            lik = mixed(lam, off) * np.sum(X[-1, free] == 1) + \
                mixed(-lam, off) * np.sum(X[-1, free] == -1)
            obs[new] += 1
            for i, n0 in enumerate((0, int(kept.sum()))):      # new dimensions, or all of them
                w = lik + poisson.logpmf(k + n0, rate)
                w = np.exp(w - w.max())
                w /= w.sum()
                exp[i] += w
                var[i] += w * (1 - w)
            if new == 1 and q == .5:
                c = int(np.argmax(~kept))
                pu = ref.sigmoid(np.where(free, lam * X[-1], 0.))
                # agreement with the data where the column matters
                t = np.where(X[-1] == -1, -1., 1.)
                uobs += np.sum(t * (U[:, c] == 1))
                uexp += np.sum(t * pu)
                uvar += np.sum(pu * (1 - pu))
            if new == 2 and q == .5:
                # one after the other: the second one is irrelevant where the first one explains
                pu = ref.sigmoid(np.where(free, lam * X[-1], 0.))
                p2 = 1 - (1 - pu) ** 2
                t = np.where(X[-1] == -1, -1., 1.)
                uobs += np.sum(t * (U[:, ~kept] == 1).any(axis=1))
                uexp += np.sum(t * p2)
                uvar += np.sum(p2 * (1 - p2))
        bad = np.all([np.any(np.abs(obs - e) > z * np.sqrt(v) + 4) for e, v in zip(exp, var)])
        ubad = abs(uobs - uexp) > z * np.sqrt(uvar) + 4
        if not bad and not ubad:
            break
    else:
        if bad:
            raise Violation('IBP model, %d rows: 0, 1, 2 new dimensions in %s of %d updates of the '
                            'last row, expected %s (or %s)' % (
                                N, obs.astype(int).tolist(), runs, exp[0].round(1).tolist(),
                                exp[1].round(1).tolist()))
        raise Violation('IBP model: entries of new columns agree with the data %.0f times more often '
                        'than not, expected %.1f' % (uobs, uexp))
    info.nontrivial = bool(lam and X[-1].any())
    info.label('N=%d' % N, 'born' if obs[1:].sum() else 'none born')


SUBS = [
    Sub('births', births_case(), births, 160, 2400, what='new dimensions of a row, new columns'),
    Sub('births_wide', births_wide_case(), births, 24, 320, what='the same, up to 700 columns'),
    Sub('usage', usage_case(), usage, 240, 3000, what='first factor: distribution of a row update'),
    Sub('usage_many', usage_many_case(), usage_many, 160, 2000, what='first factor, up to 300 rows'),
    Sub('run', run_case(), run, 1200, 30000, what='every sweep and record, reconstruction'),
    Sub('long', long_case(), long, 40, 1000, what='structured data, default burn-in'),
    Sub('odds', odds_case(), odds, 1200, 30000, what='second factor: posterior odds'),
]
