"""C02 Fuzzy products are exact probabilities under independent factors"""
import numpy as np
from hypothesis import strategies as st

import lom.auxiliary_functions as aux
import lom._numba.lom_outputs_fuzzy as fuzzy_outputs
import lom._numba.lambda_updates_numba as lun
from harness import gen, ref
from harness.core import Sub, Violation

RULE = ('random model, sizes and factor probabilities (including exact zeros and ones); '
        'non-trivial: some expected probability lies strictly between 0 and 1, or the case is a '
        '0/1 case with at least two latent dimensions')
TOL = 1e-9


@st.composite
def prob_array(draw, shape):
    n = int(np.prod(shape))
    rng = np.random.default_rng(np.frombuffer(draw(gen.raw), dtype=np.uint32))
    kind = draw(st.sampled_from(['uniform', 'low', 'high', 'coarse', 'extreme', 'crisp']))
    x = rng.random(n)
    if kind == 'low':
        x = x * .2
    elif kind == 'high':
        x = 1 - x * .2
    elif kind == 'coarse':
        x = np.round(4 * x) / 4
    elif kind == 'extreme':
        x = np.where(x < .3, 0., np.where(x > .7, 1., x))
    elif kind == 'crisp':
        x = (x > .5).astype(float)
    return x.reshape(shape)


@st.composite
def case_st(draw, models, Ks, hi):
    K = draw(st.sampled_from(Ks))
    L = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 12]))
    shape = draw(gen.dims(K, 1, hi if K < 4 else 2))
    return {'model': draw(st.sampled_from(models)), 'vary': draw(gen.seeds),
            'factors': [draw(prob_array((n, L))) for n in shape]}


def compare(got, want, what):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= TOL)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation('%s: entry %s is %.12g, exact probability is %.12g' % (
            what, i, got[i], want[i]))


def note(info, want, fs):
    inner = np.any((want > 1e-12) & (want < 1 - 1e-12))
    info.nontrivial = bool(inner) or fs[0].shape[1] > 1
    info.label('K=%d' % len(fs), 'interior' if inner else 'crisp')


def fast(case, info):
    fs, model = case['factors'], case['model']
    crisp = all(np.isin(f, [0, 1]).all() for f in fs)
    fs = gen.vary(fs, case['vary'], ['float64', 'int64', 'int8'] if crisp else
                  ['float64', 'float64', 'float32'])
    before = [f.copy() for f in fs]
    want = ref.fuzzy_product([f.astype(float) for f in fs], model)
    note(info, want, fs)
    compare(aux.lom_generate_data_fast(fs, model, fuzzy=True), want,
            'fuzzy %s product of %d factors' % (model, len(fs)))
    for a, b in zip(before, fs):
        if not np.array_equal(a, b):
            raise Violation('the fuzzy product modified its factors')


def scalar(case, info):
    fs, model = case['factors'], case['model']
    want = ref.fuzzy_product(fs, model)
    note(info, want, fs)
    fcts = []
    getter = getattr(lun, 'get_scalar_output_function_%dd' % len(fs), None)
    if getter is not None:
        fcts.append(getter(model, fuzzy=True))
    direct = getattr(fuzzy_outputs, '%s_product_fuzzy%s' % (
        model.replace('-', '_'), '_3d' if len(fs) == 3 else ''), None)
    if direct is not None:
        fcts.append(direct)
    for fct in fcts:
        got = np.zeros(want.shape)
        for idx in np.ndindex(want.shape):
            got[idx] = fct(*[f[i] for f, i in zip(fs, idx)])
        compare(got, want, 'per-entry fuzzy function of %s' % model)


def general(case, info):
    fs, model = case['factors'], case['model']
    want = ref.fuzzy_product(fs, model)
    note(info, want, fs)
    given = gen.vary([2 * f - 1 for f in fs], case['vary'], ['float64'])
    keep = [f.copy() for f in given]
    got = aux.lom_generate_data_fuzzy(given, model)
    if any(not np.array_equal(a, b) for a, b in zip(given, keep)):
        raise Violation('the general fuzzy product modified its factors')
    compare(.5 * (1 + np.asarray(got)), want, 'general fuzzy %s product' % model)
    got = aux.lom_generate_data_fast(fs, model, fuzzy=True)
    compare(got, want, 'fuzzy %s product of %d factors (dispatch)' % (model, len(fs)))


def crisp(case, info):
    """on 0/1 factors the fuzzy and the crisp product coincide, as returned by the code"""
    model = case['model']
    fs = [(f > .5).astype(float) for f in case['factors']]
    a = aux.lom_generate_data_fast(fs, model, fuzzy=True)
    b = aux.lom_generate_data_fast([(2 * f - 1).astype(np.int8) for f in fs], model)
    info.nontrivial = fs[0].shape[1] > 1
    compare(a, .5 * (1 + np.asarray(b, dtype=float)), 'fuzzy against crisp %s' % model)


def brute(case, info):
    """the reference itself: sum over all crisp factors (guards the oracle)"""
    fs, model = case['factors'], case['model']
    fs = [f[:2, :2] for f in fs]
    sizes = [f.size for f in fs]
    n = sum(sizes)
    if n > 10:
        fs = [f[:1] for f in fs]
        n = sum(f.size for f in fs)
    p = np.concatenate([f.ravel() for f in fs])
    out = 0
    for b in range(2**n):
        x = np.array([(b >> i) & 1 for i in range(n)])
        w = np.prod(np.where(x == 1, p, 1 - p))
        crisp, k = [], 0
        for f in fs:
            crisp.append(2 * x[k:k + f.size].reshape(f.shape) - 1)
            k += f.size
        out = out + w * (ref.product(crisp, model) == 1)
    compare(aux.lom_generate_data_fast(fs, model, fuzzy=True), out,
            'fuzzy %s product against enumeration' % model)


@st.composite
def large_case(draw):
    c = draw(gen.counted(gen.IMPL if draw(st.integers(0, 2)) else gen.ALL36))
    c['eps'] = draw(st.sampled_from([0., 0., 1e-3, .05, .5]))
    return c


def large(case, info):
    """many latent dimensions; factors near 0/1 with an exact number of active dimensions"""
    fs = gen.counted_factors(case['model'], case['K'], case['L'], case['count'], case['seed'])
    rng = np.random.default_rng(case['seed'])
    ps = []
    for f in fs:
        u = rng.random(f.shape) * case['eps'] * (rng.random(f.shape) < 3. / f.shape[1])
        ps.append(np.where(f == 1, 1 - u, u))
    want = ref.fuzzy_product(ps, case['model'])
    note(info, want, ps)
    compare(aux.lom_generate_data_fast(ps, case['model'], fuzzy=True), want,
            'fuzzy %s, %d factors, L=%d, %d active' % (
                case['model'], case['K'], case['L'], case['count']))
    if case['eps'] == 0:
        b = aux.lom_generate_data_fast(fs, case['model'])
        compare(want, .5 * (1 + np.asarray(b, dtype=float)), 'fuzzy against crisp %s' % case['model'])


@st.composite
def position_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.sampled_from([2, 3, 5, 9, 17, 33, 65, 70, 129, 140]))
    return {'model': draw(st.sampled_from(gen.IMPL if draw(st.integers(0, 2)) else gen.ALL36)), 'K': K,
            'L': L, 'l': draw(st.integers(0, L - 1)), 'k': draw(st.integers(0, K - 1)),
            'gaps': draw(st.lists(st.integers(1, L), max_size=2)),
            'own': draw(st.sampled_from([0., 1., .5, .3])), 'other': draw(st.sampled_from([1., .9, .6]))}


def position(case, info):
    """one or few dimensions that may be active, at every position"""
    fs = gen.one_hit_factors(case['model'], case['K'], case['L'], case['l'], case['k'], case['gaps'])
    ps = [(1. + f) / 2 for f in fs]
    ps[case['k']][0, case['l']] = case['own']
    nxt = ps[(case['k'] + 1) % case['K']]
    i = np.arange(case['L'])
    nxt[i, i] = np.where(nxt[i, i] == 1, case['other'], 1 - case['other'])
    want = ref.fuzzy_product(ps, case['model'])
    note(info, want, ps)
    compare(aux.lom_generate_data_fast(ps, case['model'], fuzzy=True), want,
            'fuzzy %s, %d factors, L=%d, few dimensions active' % (case['model'], case['K'], case['L']))


SUBS = [
    Sub('position', position_case(), position, 400, 8000, what='active dimension at every position'),
    Sub('large', large_case(), large, 800, 20000, what='latent sizes up to 513'),
    Sub('fast', case_st(gen.IMPL, [2, 3], 5), fast, 9000, 200000,
        what='fuzzy product of implemented models, 2D and 3D, against the exact distribution'),
    Sub('scalar', case_st(gen.IMPL, [2, 3], 3), scalar, 2400, 80000,
        what='per-entry fuzzy functions'),
    Sub('general', case_st(gen.ALL36, [2, 2, 3, 4], 3), general, 1600, 50000,
        what='general fuzzy generator, 36 models, 2-4 factors, and its dispatch'),
    Sub('crisp', case_st(gen.ALL36, [2, 3], 4), crisp, 1600, 20000,
        what='fuzzy equals crisp on 0/1 factors'),
    Sub('brute', case_st(gen.ALL36, [2, 3], 2), brute, 480, 8000,
        what='full enumeration of all crisp factors on tiny cases'),
]
