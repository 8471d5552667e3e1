"""C11 Every reconstruction technique equals its definition"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import warm

RULE = ('random model, 2D or 3D, factor records (given, or from an inference run), fixed factors '
        'and lambdas, techniques and options in random order; non-trivial: at least two distinct '
        'records or a probability strictly between 0 and 1')
TECH = ['point_estimate', 'factor_map', 'factor_mean', 'factor_mean_old', 'mc']


@st.composite
def requests(draw):
    return [{'technique': draw(st.sampled_from(TECH)), 'noisy': draw(st.sampled_from([False, False, True])),
             'lazy': draw(st.sampled_from([False, False, False, True])),
             'map': draw(st.sampled_from([True, True, False]))}
            for _ in range(draw(st.integers(2, 6)))]


@st.composite
def given_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 4))
    shape = draw(gen.dims(K, 1, 5 if K == 2 else 3))
    n = draw(st.integers(0, 6))
    model = draw(st.sampled_from(gen.IMPL))
    mode = draw(st.sampled_from(['half', 'sparse', 'dense', ref.tuned_density(model, K, L)]))
    traces = [draw(gen.signs((max(n, 1), s, L), (mode,))) for s in shape]
    return {'model': model, 'factors': draw(gen.factors(shape, L, model)), 'n': n,
            'traces': traces, 'fixed': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7])),
            'fixl': draw(st.sampled_from([False, False, True])),
            'lbda': draw(gen.lbda), 'lt': [draw(gen.lbda) for _ in range(6)],
            'requests': draw(requests()), 'X': draw(gen.data(shape)),
            'alter': draw(st.one_of(st.just(0), gen.seeds))}


def expected(technique, cur, recs, model):
    """cur: current factors; recs: list over time of lists of factors (empty: no records)"""
    K = len(cur)
    if recs:
        means = [np.mean([np.asarray(r[i], dtype=float) for r in recs], axis=0) for i in range(K)]
        sums = [np.sum([np.asarray(r[i], dtype=int) for r in recs], axis=0) for i in range(K)]
    else:
        means = [np.asarray(c, dtype=float) for c in cur]
        sums = cur
    if technique == 'point_estimate':
        return (ref.product(cur, model) + 1) / 2
    if technique == 'factor_map':
        return (ref.product([np.where(s > 0, 1, -1) for s in sums], model) + 1) / 2
    if technique in ('factor_mean', 'factor_mean_old'):
        return ref.fuzzy_product([(x + 1) / 2 for x in means], model)
    ps = [(ref.product(r, model) + 1) / 2 for r in (recs or [cur])]
    return np.mean(ps, axis=0)


def compare(got, want, what, tol=1e-9):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation('%s: entry %s is %.10g, by definition %.10g' % (what, i, got[i], want[i]))


def run_requests(layer, reqs, cur, recs, mean_lbda, info, what, last=None):
    for r in reqs:
        name = '%s %s%s%s%s' % (what, r['technique'], ' noisy' if r['noisy'] else '',
                                ' lazy' if r['lazy'] else '', '' if r['map'] else ' unmapped')
        if r['lazy']:
            got = layer.output(technique=r['technique'], noisy_emission=r['noisy'], lazy=True)
        else:
            got = layer.output(technique=r['technique'], noisy_emission=r['noisy'],
                               map_to_probabilities=r['map'])
        if r['lazy'] and last is not None:
            compare(got, last, name, 1e-6)
            continue
        p = expected(r['technique'], cur, recs, layer.model)
        if r['noisy']:
            s = float(ref.sigmoid(mean_lbda))
            p = p * s + (1 - p) * (1 - s)
        if np.any((p > 1e-9) & (p < 1 - 1e-9)):
            info.label('interior')
        if r['map'] or r['lazy']:
            compare(got, p, name, 1e-6 if r['noisy'] else 1e-9)
            g = np.asarray(got, dtype=float)
            if g.min() < -1e-12 or g.max() > 1 + 1e-12:
                raise Violation('%s: not a probability' % name)
        else:
            compare(got, 2 * p - 1, name, 1e-6 if r['noisy'] else 1e-9)
        last = p
    return last


def given(case, info):
    model, n = case['model'], case['n']
    K = len(case['factors'])
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=case['factors'][0].shape[1], child=data, model=model)
    cols = []
    any_trace = False
    for i, f in enumerate(layer.factors):
        f.val = gen.lay(case['factors'][i], i)
        if case['fixed'] >> i & 1 or n == 0:
            f.fixed = bool(case['fixed'] >> i & 1)
            cols.append([case['factors'][i]] * max(n, 1))
        else:
            f.trace = case['traces'][i][:n].copy()
            any_trace = True
            cols.append(list(case['traces'][i][:n]))
    layer.lbda.val = case['lbda']
    mean_lbda = case['lbda']
    if n and not case['fixl']:
        layer.lbda.trace = np.array(case['lt'][:n], dtype=np.float32)
        mean_lbda = float(np.mean(layer.lbda.trace.astype(float)))
    recs = [[c[t] for c in cols] for t in range(n)] if any_trace else []
    before = [f().copy() for f in layer.factors]
    run_requests(layer, case['requests'], case['factors'], recs, mean_lbda, info,
                 '%s %dD' % (model, K))
    if recs and case['alter']:
        # the records are altered: what is computed next goes by the new ones
        rng = np.random.default_rng(case['alter'])
        for f in layer.factors:
            if not f.fixed:
                f.trace[...] = np.where(rng.random(f.trace.shape) < .5, -f.trace, f.trace)
        recs = [[f.trace[t] if not f.fixed else f() for f in layer.factors] for t in range(n)]
        run_requests(layer, [dict(r, lazy=False) for r in case['requests']], case['factors'], recs,
                     mean_lbda, info, '%s %dD altered records' % (model, K))
    for f, b in zip(layer.factors, before):
        if not np.array_equal(f(), b):
            raise Violation('a reconstruction changed a factor')
    if layer.model != model or layer.lbda() != case['lbda'] or not np.array_equal(data(), case['X']):
        raise Violation('a reconstruction changed the layer')
    info.nontrivial = n > 1 and any_trace
    info.label('K=%d' % K, 'n=%s' % ('0' if n == 0 else '1' if n == 1 else '2+'))


@st.composite
def many_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    return {'model': draw(st.sampled_from(gen.IMPL)), 'K': K, 'L': draw(st.integers(1, 3)),
            'shape': draw(gen.dims(K, 1, 3)), 'seed': draw(gen.seeds),
            'n': draw(st.sampled_from([100, 127, 128, 129, 200, 255, 256, 257, 300, 1100])),
            'density': draw(st.sampled_from([.5, .1, .9])), 'still': draw(st.floats(0, 1)),
            'lbda': draw(gen.lbda), 'requests': draw(requests())}


def many(case, info):
    """many records; a share of the entries is the same in nearly all of them"""
    rng = np.random.default_rng(case['seed'])
    n, m = case['n'], lom.Machine()
    data = m.add_matrix(np.ones(case['shape'], dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    for f in layer.factors:
        t = gen.seeded_signs(int(rng.integers(2**32)), (n,) + f().shape, case['density'])
        same = rng.random(f().shape) < case['still']
        t[:, same] = t[0, same]
        f.trace = t
        f.val = gen.lay(t[-1])
    layer.lbda.val = case['lbda']
    layer.lbda.trace = np.round(rng.random(n) * 3, 3).astype(np.float32)
    recs = [[f.trace[t] for f in layer.factors] for t in range(n)]
    run_requests(layer, case['requests'], [f() for f in layer.factors], recs,
                 float(np.mean(layer.lbda.trace.astype(float))), info,
                 '%s %dD, %d records' % (case['model'], case['K'], n))
    info.nontrivial = True


@st.composite
def infer_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 3))
    shape = draw(gen.dims(K, 1, 6 if K == 2 else 4))
    calls = [{'n': draw(st.integers(0, 5)), 'fix': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7])),
              'fixl': draw(st.sampled_from([False, False, True])),
              'seed': draw(gen.seeds), 'requests': draw(requests()),
              'lbda': draw(gen.lbda), 'prior': draw(st.sampled_from([.5, .1, .9]))}
             for _ in range(draw(st.integers(1, 2)))]
    return {'model': draw(st.sampled_from(gen.IMPL)), 'L': L, 'X': draw(gen.data(shape)),
            'calls': calls, 'stack': draw(st.booleans()), 'set': draw(st.booleans())}


def infer(case, info):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    if case['stack'] and data().ndim == 2:
        m.add_layer(latent_size=2, child=layer.z, model='OR-AND')
    last = None
    for c in case['calls']:
        for i, f in enumerate(layer.factors):
            f.fixed = bool(c['fix'] >> i & 1)
            f.bernoulli_prior = c['prior']
        layer.lbda.fixed = c['fixl']
        layer.lbda.val = c['lbda']
        np.random.seed(c['seed'])
        n = c['n']           # without samples, the current state counts
        warm(m)
        m.infer(no_samples=n, burn_in_min=2, burn_in_max=2)
        cols = [[f()] * n if f.fixed else list(f.trace) for f in layer.factors]
        moving = any(not f.fixed for f in layer.factors)
        recs = [[col[t] for col in cols] for t in range(n)] if moving else []
        ml = c['lbda'] if layer.lbda.fixed else \
            float(np.mean(layer.lbda.trace.astype(float)) if n else layer.lbda())
        if case['set']:
            # the current state is no longer the last record
            for f in layer.factors:
                if not f.fixed:
                    f.val = gen.seeded_signs(c['seed'], f().shape)
        last = run_requests(layer, c['requests'], [f() for f in layer.factors], recs, ml, info,
                            'after inference, %s' % case['model'], last)
    info.nontrivial = moving and n > 1


@st.composite
def counted_case(draw):
    c = draw(gen.counted(gen.IMPL))
    c['n'] = draw(st.integers(1, 3))
    c['requests'] = draw(requests())
    c['lbda'] = draw(gen.lbda)
    return c


def counted(case, info):
    """many latent dimensions, records with an exact number of active ones"""
    K, n = case['K'], case['n']
    recs = [gen.counted_factors(case['model'], K, case['L'], case['count'], case['seed'] + t * (
        case['seed'] % 2), flips=2 + t) for t in range(n)]
    m = lom.Machine()
    data = m.add_matrix(np.ones([2] * K, dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model=case['model'])
    for i, f in enumerate(layer.factors):
        f.val = gen.lay(recs[-1][i], i)
        f.trace = np.array([r[i] for r in recs], dtype=np.int8)
    layer.lbda.val = case['lbda']
    layer.lbda.fixed = True
    run_requests(layer, case['requests'], recs[-1], recs, case['lbda'], info,
                 '%s %dD L=%d' % (case['model'], K, case['L']))


SUBS = [
    Sub('many', many_case(), many, 240, 4000, what='100 to 300 records'),
    Sub('counted', counted_case(), counted, 400, 12000, what='latent sizes up to 513'),
    Sub('given', given_case(), given, 3000, 80000, what='techniques and options on given records'),
    Sub('infer', infer_case(), infer, 1200, 30000,
        what='after inference runs, with fixed factors and lambdas and repeated calls'),
]
