"""C13 Max model updates target the exact full conditional"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import Site, check_odds, fix_all, sweep, warm
from props.c12 import lbdas

RULE = ('random data with missing entries, factors, reliabilities in any order (ties, background '
        'above some dimensions), either factor, any entry; non-trivial: the data change the '
        'posterior odds of the entry and the reliabilities are not already in decreasing order')


def score(X, factors, k, idx, lb):
    """log likelihood ratio of the entry at 1 against -1, and the sum of absolute terms"""
    row, l = idx
    x = np.take(np.asarray(X), [row], axis=k).ravel()
    P = []
    for s in (1, -1):
        r = factors[k][[row]].copy()
        r[0, l] = s
        fs = [r, factors[1 - k]] if k == 0 else [factors[1 - k], r]
        P.append(ref.max_product(fs[0], fs[1], lb).ravel())
    t = np.where(x == 1, np.log(P[0]) - np.log(P[1]),
                 np.where(x == -1, np.log1p(-P[0]) - np.log1p(-P[1]), 0.))
    return float(t.sum()), float(np.abs(t).sum())


def machine(case):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=case['factors'][0].shape[1], child=data, model='MAX-AND')
    for f, v in zip(layer.factors, case['factors']):
        f.val = v.copy()
    layer.lbda.val = case['lbda'].copy()
    return m, layer, data


@st.composite
def odds_case(draw):
    L = draw(st.integers(1, 6))
    shape = draw(gen.dims(2, 1, 8))
    k = draw(st.integers(0, 1))
    mode = draw(st.sampled_from(['half', 'sparse', 'dense']))
    return {'X': draw(gen.data(shape)), 'factors': [draw(gen.signs((n, L), (mode,))) for n in shape],
            'lbda': draw(lbdas(L)), 'k': k, 'row': draw(st.integers(0, shape[k] - 1)),
            'l': draw(st.integers(0, L - 1)), 'pre': draw(st.sampled_from([0, 0, 1, 2, 3])),
            'prelb': draw(lbdas(L))}


def site_check(case, m, layer, info, what):
    k, idx = case['k'], (case['row'], case['l'])
    want, size = score(case['X'], case['factors'], k, idx, case['lbda'])
    info.nontrivial = want != 0 and bool(np.any(np.diff(case['lbda'][:-1]) > 0))
    info.label('axis%d' % k, 'logit0' if want == 0 else 'logit')
    s = Site(m, layer.factors[k], idx)
    # ratios of reliabilities are held in single precision
    eps = 2e-5 + 4e-6 * size
    info.label(check_odds(s, want, eps, what))


def odds(case, info):
    m, layer, data = machine(case)
    pre = case['pre']
    if pre:
        # a run with other reliabilities first; the user then sets everything
        if pre == 1:
            layer.lbda.val = case['prelb'].copy()
            layer.lbda.fixed = True
        elif pre == 2:
            layer.lbda.fixed = False
        else:
            layer.lbda.val = case['prelb'].copy()
            for f in layer.factors:
                f.fixed = True
        m.infer(no_samples=2, burn_in_min=1, burn_in_max=1)
        for f, v in zip(layer.factors, case['factors']):
            f.val = v.copy()
        if pre == 2:
            layer.lbda.val[:] = case['lbda']
        else:
            layer.lbda.val = case['lbda'].copy()
        info.label('after a run')
    site_check(case, m, layer, info, 'max model: ')


@st.composite
def mid_case(draw):
    k = draw(st.integers(0, 1))
    shape = [0, 0]
    shape[k], shape[1 - k] = draw(st.integers(1, 3)), draw(st.integers(20, 400))
    return {'shape': shape, 'k': k, 'seed': draw(gen.seeds),
            'L': draw(st.sampled_from([1, 2, 5, 10, 130, 140])),
            'row': draw(st.integers(0, shape[k] - 1)), 'lpick': draw(st.integers(0, 200)),
            'density': draw(st.sampled_from([.3, .05, .8])), 'bias': draw(st.sampled_from([.5, .1, .9])),
            'missing': draw(st.sampled_from([0., .3, .9])), 'spread': draw(st.sampled_from([1., .1, .01])),
            'background': draw(st.booleans())}


def mid(case, info):
    rng = np.random.default_rng([case['seed'], 5])
    L = case['L']
    d = min(case['density'], 3. / L) if L > 20 else case['density']
    fs = [gen.seeded_signs([case['seed'], i], (n, L), d) for i, n in enumerate(case['shape'])]
    X = gen.seeded_data(case['seed'], case['shape'], case['bias'], case['missing'])
    lb = .5 + case['spread'] * .96 * (rng.random(L + 1) - .5)
    if case['background']:
        lb[-1] = lb.min() * .9
    l = case['lpick'] % L
    if L > 20:
        # the entry matters
        fs[1 - case['k']][:, l] = np.where(rng.random(case['shape'][1 - case['k']]) < .7, 1, -1)
    c = dict(case, X=X, factors=fs, lbda=lb, l=l)
    m, layer, data = machine(c)
    info.label('L=%d' % L)
    site_check(c, m, layer, info, 'max model %s L=%d: ' % (case['shape'], L))


@st.composite
def rows_case(draw):
    L = draw(st.integers(1, 4))
    D = draw(st.integers(1, 5))
    return {'other': draw(gen.signs((D, L))), 'x': draw(gen.data([D])), 'lbda': draw(lbdas(L)),
            'k': draw(st.integers(0, 1)), 'mark': draw(gen.bits((L,), ('zeros', 'zeros', 'sparse'))),
            'seed': draw(gen.seeds), 'sweeps': draw(st.sampled_from([1, 2]))}


def rows(case, info):
    """rows drawn from the exact posterior keep that distribution over a sweep"""
    rng = np.random.default_rng(case['seed'])
    L, k, n = case['other'].shape[1], case['k'], 1500
    lb = np.clip(case['lbda'], .02, .98)
    states = np.array(list(itertools.product([-1, 1], repeat=L)), dtype=np.int8)
    P = ref.max_product(states, case['other'], lb)
    x = case['x'][None]
    lw = np.where(x == 1, np.log(P), np.where(x == -1, np.log1p(-P), 0.)).sum(axis=1)
    v = rng.integers(0, 2, L) * 2 - 1
    ok = np.all((states == v) | (case['mark'] == 0), axis=1)
    p = np.where(ok, np.exp(lw - lw.max()), 0.)
    p /= p.sum()
    Z = states[rng.choice(len(states), p=p, size=n)]
    X = np.repeat(x, n, axis=0).astype(np.int8)
    m = lom.Machine()
    data = m.add_matrix(X if k == 0 else X.T.copy(), fixed=True)
    layer = m.add_layer(latent_size=L, child=data, model='MAX-AND')
    layer.factors[k].val = Z.copy()
    layer.factors[1 - k].val = case['other'].copy()
    layer.lbda.val = lb.copy()
    fix_all(m)
    mat = layer.factors[k]
    mat.fixed = False
    mat.fixed_entries = np.repeat(case['mark'][None], n, axis=0).astype(np.int8)
    warm(m, 20000)
    np.random.seed(case['seed'])
    sweep(m, case['sweeps'])
    out = mat()
    if np.any((out != Z) & (mat.fixed_entries == 1)):
        raise Violation('an entry that is marked fixed changed during a sweep')
    num = (out == 1) @ 2**np.arange(L - 1, -1, -1)
    c = np.bincount(num, minlength=2**L)
    info.nontrivial = p.max() < .98
    info.label('L=%d' % L, 'axis%d' % k)
    for s in range(2**L):
        if abs(c[s] - n * p[s]) > 6.5 * math.sqrt(n * p[s] * (1 - p[s])) + 8:
            raise Violation('max model axis %d: %d of %d rows in state %s after a sweep from the '
                            'exact posterior, expected %.1f' % (k, c[s], n, states[s].tolist(),
                                                               n * p[s]))


@st.composite
def run_case(draw):
    return {'X': draw(gen.data([draw(st.integers(2, 8)), draw(st.integers(2, 8))])),
            'L': draw(st.integers(1, 5)), 'seed': draw(gen.seeds), 'n': draw(st.integers(1, 6)),
            'k': draw(st.integers(0, 1)), 'pick': draw(st.tuples(st.integers(0, 7), st.integers(0, 4)))}


def run(case, info):
    """the state after a run with free reliabilities: the next update uses these"""
    np.random.seed(case['seed'])
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model='MAX-AND')
    warm(m)
    m.infer(no_samples=case['n'], burn_in_min=2, burn_in_max=2)
    k = case['k']
    c = dict(case, factors=[f().copy() for f in layer.factors], lbda=layer.lbda().copy(),
             row=case['pick'][0] % case['X'].shape[k], l=case['pick'][1] % case['L'])
    site_check(c, m, layer, info, 'max model after a run: ')


@st.composite
def distance_case(draw):
    L = draw(st.sampled_from([2, 3, 5, 9, 17, 33, 65, 70, 129, 140, 257]))
    return {'L': L, 'k': draw(st.integers(0, 1)), 'l': draw(st.integers(0, L - 1)),
            'gaps': draw(st.lists(st.integers(1, L), max_size=2)), 'seed': draw(gen.seeds),
            'own': draw(st.sampled_from([-1, 1])), 'bias': draw(st.sampled_from([1., 0., .5])),
            'order': draw(st.sampled_from(['random', 'up', 'down', 'equal', 'two']))}


def distance(case, info):
    """every data column has its own other active dimension, anywhere in the order"""
    L, l, k = case['L'], case['l'], case['k']
    fs = gen.one_hit_factors('OR-AND', 2, L, l, k, case['gaps'])
    fs[k][0, l] = case['own']
    lb = {'random': np.random.default_rng(case['seed']).permutation(np.linspace(.02, .97, L + 1)),
          'up': np.linspace(.02, .97, L + 1), 'down': np.linspace(.97, .02, L + 1),
          'equal': np.full(L + 1, .4), 'two': np.where(np.arange(L + 1) % 2, .7, .3)}[case['order']].copy()
    lb[-1] = .01 if case['seed'] % 2 else lb[-1]
    c = dict(case, factors=fs, row=0, lbda=np.round(lb, 4),
             X=gen.seeded_data(case['seed'], [f.shape[0] for f in fs], case['bias']))
    m, layer, data = machine(c)
    site_check(c, m, layer, info, 'max model, one other dimension active per entry, L=%d: ' % L)


SUBS = [
    Sub('distance', distance_case(), distance, 480, 9000,
        what='explaining dimension at every distance and rank'),
    Sub('odds', odds_case(), odds, 6000, 150000,
        what='flip probability ratio against the likelihood ratio by definition'),
    Sub('mid', mid_case(), mid, 320, 8000, what='up to 400 data entries, up to 140 dimensions'),
    Sub('rows', rows_case(), rows, 160, 4000, what='a sweep keeps the exact posterior of rows'),
    Sub('run', run_case(), run, 1200, 30000, what='updates after runs with free reliabilities'),
]
