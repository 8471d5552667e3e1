"""C07 Lambda is set to the smoothed fraction of correct predictions"""
import math

import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import warm

RULE = ('random model, sizes, factors, data with missing entries (random or the product itself '
        'with a few flips), beta prior, stacking; non-trivial: at least one observed entry and '
        'the estimate is strictly positive')

beta = st.one_of(st.just((1, 1)), st.tuples(st.floats(.01, 30.), st.floats(.01, 30.)),
                 st.sampled_from([(2, 1), (.5, .5), (100, 3), (1, 1000), (1e-3, 1e-3), (7, 7), (1e6, 1)]))


@st.composite
def layer_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 5))
    shape = draw(gen.dims(K, 1, 8 if K == 2 else 4))
    model = draw(st.sampled_from(gen.IMPL))
    fs = draw(gen.factors(shape, L, model))
    kind = draw(st.sampled_from(['random', 'noisy', 'noisy', 'exact', 'inverted']))
    X = draw(gen.data(shape))
    return {'model': model, 'factors': fs, 'X': X, 'kind': kind,
            'flips': draw(gen.bits(shape, ('sparse',))), 'betas': draw(
                st.lists(beta, min_size=1, max_size=3)), 'lbda': draw(gen.lbda),
            'name_inverts': draw(st.booleans())}


def expect(layer, X, fs, ab, what):
    pred = ref.product(fs, layer.model)
    want, P, n = ref.smoothed_lbda(pred, X, *ab)
    got = layer.lbda()
    if np.ndim(got) != 0 or not np.isfinite(got) or got < 0:
        raise Violation('%s: lambda became %r' % (what, got))
    if not abs(got - want) <= 1e-9 * max(1., want) + 1e-9:
        raise Violation('%s: lambda is %.12g with %d of %d correct and prior %s, expected %.12g'
                        % (what, got, P, n, ab, want))
    return want, n


def layer(case, info):
    X = case['X'].copy()
    pred = ref.product(case['factors'], case['model'])
    if case['kind'] in ('noisy', 'exact', 'inverted'):
        X = pred * np.abs(X)
        if case['kind'] == 'noisy':
            X = X * (1 - 2 * case['flips'])
        elif case['kind'] == 'inverted':
            X = -X
    X = X.astype(np.int8)
    m = lom.Machine()
    data = m.add_matrix(X.copy(), fixed=True)
    L = m.add_layer(latent_size=case['factors'][0].shape[1], child=data, model=case['model'])
    for f, v in zip(L.factors, case['factors']):
        f.val = v.copy()
        f.fixed = True
    L.lbda.val = case['lbda']
    if not case['betas'] or tuple(L.lbda.beta_prior) != (1, 1):
        raise Violation('the default beta prior is %r' % (L.lbda.beta_prior,))
    warm(m)
    m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
    want, n = expect(L, X, case['factors'], (1, 1), case['model'])
    for ab in case['betas']:
        L.lbda.beta_prior = ab
        m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
        want, n = expect(L, X, case['factors'], ab, case['model'])
    info.nontrivial = n > 0 and want > 0
    info.label(case['kind'], 'K=%d' % X.ndim, 'clipped' if want == 0 else 'positive')


@st.composite
def stacked_case(draw):
    shape = draw(gen.dims(2, 1, 6))
    L1, L2 = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    axis = draw(st.integers(0, 1))
    m1, m2 = draw(st.sampled_from(gen.IMPL)), draw(st.sampled_from(gen.IMPL))
    return {'X': draw(gen.data(shape)), 'axis': axis, 'm1': m1, 'm2': m2, 'L2': L2,
            'f1': draw(gen.factors(shape, L1, m1)),
            'f2': draw(gen.factors([shape[axis], L1], L2, m2)),
            'two': draw(st.booleans()), 'ab1': draw(beta), 'ab2': draw(beta),
            'fix': draw(st.sampled_from([None, None, 0, 1]))}


def stacked(case, info):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    a = m.add_layer(latent_size=case['f1'][0].shape[1], child=data, model=case['m1'])
    kid = a.factors[case['axis']]
    layers = [a]
    for _ in range(2 if case['two'] else 1):
        layers.append(m.add_layer(latent_size=case['L2'], child=kid, model=case['m2']))
    for l in layers:
        for f, v in zip(l.factors, case['f1'] if l is a else case['f2']):
            f.val = v.copy()
            f.fixed = True
        l.lbda.beta_prior = case['ab1'] if l is a else case['ab2']
        l.lbda.val = .4
    if case['fix'] is not None:
        layers[case['fix']].lbda.fixed = True
    warm(m)
    m.infer(no_samples=2, burn_in_min=0, burn_in_max=0)
    w = 0
    for i, l in enumerate(layers):
        if case['fix'] == i:
            if l.lbda() != .4:
                raise Violation('a fixed lambda was updated')
            continue
        if l is a:
            expect(l, case['X'], case['f1'], case['ab1'], 'lower layer')
        else:
            w, _ = expect(l, case['f1'][case['axis']], case['f2'], case['ab2'], 'upper layer')
    info.nontrivial = w > 0


@st.composite
def large_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    shape = [draw(st.integers(150, 400)), draw(st.integers(100, 300))] if K == 2 else \
        [draw(st.integers(20, 45)) for _ in range(3)]
    return {'model': draw(st.sampled_from(gen.IMPL)), 'shape': shape,
            'L': draw(st.integers(1, 4)), 'seed': draw(gen.seeds),
            'flip': draw(st.sampled_from([0., .05, .3])),
            'missing': draw(st.sampled_from([0., .2, .95])), 'ab': draw(beta)}


def large(case, info):
    f = ref.tuned_density(case['model'], len(case['shape']), case['L'])
    fs = [gen.seeded_signs([case['seed'], i], (n, case['L']), f)
          for i, n in enumerate(case['shape'])]
    mask = gen.seeded_data(case['seed'], case['shape'], 1 - case['flip'], case['missing'])
    X = (ref.product(fs, case['model']) * mask).astype(np.int8)
    m = lom.Machine()
    data = m.add_matrix(X, fixed=True)
    l = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    for x, v in zip(l.factors, fs):
        x.val = v
        x.fixed = True
    l.lbda.beta_prior = case['ab']
    warm(m, 20000)
    m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
    expect(l, X, fs, case['ab'], '%s %s' % (case['model'], case['shape']))


@st.composite
def run_case(draw):
    """factors move: the estimate after every sweep belongs to the factors after that sweep"""
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 3))
    shape = draw(gen.dims(K, 1, 6 if K == 2 else 4))
    model = draw(st.sampled_from(gen.IMPL))
    return {'model': model, 'L': L, 'X': draw(gen.data(shape)), 'ab': draw(beta),
            'seed': draw(gen.seeds), 'samples': draw(st.integers(1, 4)),
            'burn': draw(st.integers(0, 5))}


def run(case, info):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    l = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    l.lbda.beta_prior = case['ab']
    warm(m)
    np.random.seed(case['seed'])
    m.infer(no_samples=case['samples'], burn_in_min=case['burn'], burn_in_max=case['burn'])
    expect(l, case['X'], [f() for f in l.factors], case['ab'], 'end of a run')
    for t in range(case['samples']):
        fs = [f.trace[t] for f in l.factors]
        want, P, n = ref.smoothed_lbda(ref.product(fs, case['model']), case['X'], *case['ab'])
        if not abs(l.lbda.trace[t] - want) <= 1e-5 * max(1, want):
            raise Violation('record %d: lambda %.7g, but %d of %d are correct (prior %s)' % (
                t, l.lbda.trace[t], P, n, case['ab']))


@st.composite
def counted_case(draw):
    c = draw(gen.counted(gen.IMPL))
    c['shape'] = draw(gen.dims(c['K'], 1, 8 if c['K'] == 2 else 4))
    c['flips'] = draw(gen.bits(c['shape'], ('sparse',)))
    c['X'] = draw(gen.data(c['shape'], ('none', 'some')))
    c['ab'] = draw(beta)
    return c


@gen.every_count
def counted(case, info):
    fs = gen.counted_factors(case['model'], case['K'], case['L'], case['count'], case['seed'],
                             case['shape'])
    X = (ref.product(fs, case['model']) * np.abs(case['X']) * (1 - 2 * case['flips'])).astype(np.int8)
    m = lom.Machine()
    data = m.add_matrix(X, fixed=True)
    l = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    for x, v in zip(l.factors, fs):
        x.val = v
        x.fixed = True
    l.lbda.beta_prior = case['ab']
    warm(m)
    m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
    want, n = expect(l, X, fs, case['ab'], '%s, %d of %d active' % (
        case['model'], case['count'], case['L']))
    info.nontrivial = want > 0


SUBS = [
    Sub('counted', counted_case(), counted, 800, 20000, what='latent sizes up to 513'),
    Sub('layer', layer_case(), layer, 5000, 100000,
        what='all factors fixed, sequence of beta priors, 2D and 3D'),
    Sub('stacked', stacked_case(), stacked, 1600, 40000, what='layers on factors of other layers'),
    Sub('large', large_case(), large, 64, 1200, what='up to 120000 data entries'),
    Sub('run', run_case(), run, 1200, 30000, what='moving factors, every record'),
]
