"""C01 Logical products equal the truth table of the requested model"""
import numpy as np
from hypothesis import strategies as st

import lom.auxiliary_functions as aux
import lom._numba.lom_outputs as lom_outputs
import lom._numba.lambda_updates_numba as lun
from harness import gen, ref
from harness.core import Sub, Violation, Skip

RULE = ('random model name, number of factors, sizes and factor bits (uniform, sparse and dense '
        'densities; latent sizes around 128/256 for the counting models); non-trivial: the '
        'reference product contains both ones and minus-ones, or at least two latent dimensions '
        'are involved')


def compare(got, want, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    if not np.array_equal(got, want):
        i = tuple(np.argwhere(got != want)[0])
        raise Violation('%s: entry %s is %s, truth table says %s' % (what, i, got[i], want[i]))


def note(info, want, L, K):
    info.nontrivial = len(np.unique(want)) > 1 or L > 1
    info.label('K=%d' % K, 'L=%s' % (L if L < 5 else '5+'),
               'both' if len(np.unique(want)) > 1 else 'constant')


@st.composite
def general_case(draw):
    K = draw(st.sampled_from([2, 2, 3, 3, 4, 5]))
    L = draw(st.integers(1, 7))
    shape = draw(gen.dims(K, 1, 4 if K < 4 else 2))
    model = draw(st.sampled_from(gen.ALL36))
    return {'model': model, 'factors': draw(gen.factors(shape, L, model)),
            'vary': draw(gen.seeds),
            'dtype': draw(st.sampled_from(['int8', 'int8', 'int64', 'float64']))}


def cast(fs, dtype):
    return [f.astype(dtype) for f in fs]


def general(case, info):
    fs, model = case['factors'], case['model']
    want = ref.product(fs, model)
    note(info, want, fs[0].shape[1], len(fs))
    types = [case['dtype'], case['dtype'], 'int8', 'int64', 'float32']
    given = gen.vary(fs, case['vary'], types)
    got = aux.lom_generate_data(given, model)
    compare(got, want, 'lom_generate_data %s' % model)
    got = aux.lom_generate_data_fast(given, model)
    compare(got, want, 'lom_generate_data_fast %s' % model)
    if any(not np.array_equal(a, b) for a, b in zip(given, fs)):
        raise Violation('generating data modified the factors')


@st.composite
def fast_case(draw):
    K = draw(st.sampled_from([2, 3]))
    L = draw(st.integers(1, 9))
    shape = draw(gen.dims(K, 1, 7 if K == 2 else 4))
    model = draw(st.sampled_from(gen.IMPL))
    return {'model': model, 'factors': draw(gen.factors(shape, L, model)),
            'vary': draw(gen.seeds),
            'dtype': draw(st.sampled_from(['int8', 'int8', 'int64']))}


def fast(case, info):
    fs, model = case['factors'], case['model']
    want = ref.product(fs, model)
    note(info, want, fs[0].shape[1], len(fs))
    given = gen.vary(fs, case['vary'], [case['dtype'], 'int8', 'int64', 'float64'])
    compare(aux.lom_generate_data_fast(given, model), want, 'lom_generate_data_fast %s' % model)
    if any(not np.array_equal(a, b) for a, b in zip(given, fs)):
        raise Violation('generating data modified the factors')
    # per-entry functions
    getter = getattr(lun, 'get_scalar_output_function_%dd' % len(fs), None)
    names = [getter(model)] if getter else []
    direct = getattr(lom_outputs, model.replace('-', '_') + '_product' +
                     ('_3d' if len(fs) == 3 else ''), None)
    if direct is not None:
        names.append(direct)
    for fct in names:
        got = np.zeros(want.shape, dtype=int)
        for idx in np.ndindex(want.shape):
            got[idx] = fct(*[f[i] for f, i in zip(fs, idx)])
        compare(got, want, 'per-entry function of %s' % model)
    if model == 'OR-AND' and len(fs) == 2:
        f1 = getattr(lom_outputs, 'OR_AND_single_n', None)
        if f1 is not None:
            got = np.array([f1(fs[0][n], fs[1]) for n in range(want.shape[0])])
            compare(got, want, 'OR-AND prediction of one row')


@st.composite
def large_latent_case(draw):
    c = draw(gen.counted(gen.IMPL if draw(st.booleans()) else gen.ALL36))
    c['dtype'] = draw(st.sampled_from(['int8', 'int8', 'int64']))
    return c


@gen.every_count
def large_latent(case, info):
    """few entries, many latent dimensions: exact numbers of active dimensions"""
    K, L = case['K'], case['L']
    fs = gen.counted_factors(case['model'], K, L, case['count'], case['seed'])
    want = ref.product(fs, case['model'])
    note(info, want, L, K)
    info.label('count%s' % (case['count'] if case['count'] in (0, 1, 2, L) else
                            '<128' if case['count'] < 128 else '>=128'))
    what = '%s L=%d, %d active' % (case['model'], L, case['count'])
    compare(aux.lom_generate_data(cast(fs, case['dtype']), case['model']), want,
            'lom_generate_data %s' % what)
    compare(aux.lom_generate_data_fast(cast(fs, case['dtype']), case['model']), want,
            'lom_generate_data_fast %s' % what)



@st.composite
def position_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.sampled_from([2, 3, 5, 9, 17, 33, 65, 70, 129, 140, 257]))
    return {'model': draw(st.sampled_from(gen.IMPL if draw(st.booleans()) else gen.ALL36)), 'K': K,
            'L': L, 'l': draw(st.integers(0, L - 1)), 'k': draw(st.integers(0, K - 1)),
            'gaps': draw(st.lists(st.integers(1, L), max_size=2)), 'own': draw(st.sampled_from([-1, 1]))}


def position(case, info):
    """one or few active dimensions, at every position"""
    fs = gen.one_hit_factors(case['model'], case['K'], case['L'], case['l'], case['k'], case['gaps'])
    fs[case['k']][0, case['l']] = case['own']
    want = ref.product(fs, case['model'])
    note(info, want, case['L'], case['K'])
    what = '%s L=%d, few active' % (case['model'], case['L'])
    compare(aux.lom_generate_data(fs, case['model']), want, 'lom_generate_data %s' % what)
    compare(aux.lom_generate_data_fast(fs, case['model']), want, 'lom_generate_data_fast %s' % what)


@st.composite
def large_rows_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    if K == 2:
        shape = [draw(st.integers(1, 140)), draw(st.integers(1, 140))]
    else:
        shape = [draw(st.integers(1, 20)) for _ in range(3)]
    return {'model': draw(st.sampled_from(gen.IMPL)), 'shape': shape,
            'L': draw(st.integers(1, 5)), 'seed': draw(gen.seeds),
            'density': draw(st.sampled_from([.2, .5, .8]))}


def large_rows(case, info):
    fs = [gen.seeded_signs([case['seed'], k], (n, case['L']), case['density'])
          for k, n in enumerate(case['shape'])]
    want = ref.product(fs, case['model'])
    note(info, want, case['L'], len(fs))
    compare(aux.lom_generate_data_fast(fs, case['model']), want,
            'lom_generate_data_fast %s %s' % (case['model'], case['shape']))


@st.composite
def tensor_case(draw):
    L = draw(st.integers(1, 6))
    shape = draw(gen.dims(3, 1, 5))
    return {'factors': [draw(gen.bits((n, L))) for n in shape],
            'dtype': draw(st.sampled_from(['bool', 'int8', 'int64']))}


def tensor(case, info):
    fs = case['factors']
    want = ref.product([2 * f - 1 for f in fs], 'OR-AND') == 1
    note(info, want, fs[0].shape[1], 3)
    got = aux.boolean_tensor_product(*[f.astype(case['dtype']) for f in fs])
    compare(np.asarray(got).astype(int), want.astype(int), 'Boolean tensor product')


@st.composite
def tensor_wide_case(draw):
    L = draw(st.sampled_from([8, 9, 16, 33, 63, 64, 65, 70, 100, 129, 140]))
    return {'L': L, 'l': draw(st.integers(0, L - 1)), 'k': draw(st.integers(0, 2)),
            'own': draw(st.sampled_from([-1, 1])), 'count': draw(st.integers(0, L)),
            'seed': draw(gen.seeds), 'dtype': draw(st.sampled_from(['bool', 'int8', 'int64']))}


def tensor_wide(case, info):
    """many latent dimensions, of which few or any number are active"""
    L = case['L']
    hit = gen.one_hit_factors('OR-AND', 3, L, case['l'], case['k'], [])
    hit[case['k']][0, case['l']] = case['own']
    for fs in (hit, gen.counted_factors('OR-AND', 3, L, case['count'], case['seed'])):
        want = ref.product(fs, 'OR-AND') == 1
        got = aux.boolean_tensor_product(*[(f == 1).astype(case['dtype']) for f in fs])
        compare(np.asarray(got).astype(int), want.astype(int), 'Boolean tensor product, L=%d' % L)
    info.label('L>=64' if L >= 64 else 'L<64')


@st.composite
def arity_case(draw):
    K = draw(st.integers(4, 8))
    L = draw(st.one_of(st.integers(1, 8), st.integers(1, 70)))
    axes = [2 if draw(st.integers(0, 2)) == 0 else 1 for _ in range(K)]
    return {'model': draw(st.sampled_from(gen.ALL36)), 'K': K, 'L': L, 'shape': axes,
            'count': draw(st.one_of(st.integers(0, min(2, L)), st.integers(max(0, L - 2), L),
                                    st.integers(0, L))), 'seed': draw(gen.seeds)}


def arity(case, info):
    """four and more factors"""
    fs = gen.counted_factors(case['model'], case['K'], case['L'], case['count'], case['seed'],
                             shape=case['shape'])
    want = ref.product(fs, case['model'])
    note(info, want, case['L'], case['K'])
    what = '%s, %d factors, L=%d' % (case['model'], case['K'], case['L'])
    compare(aux.lom_generate_data(fs, case['model']), want, 'lom_generate_data %s' % what)
    compare(aux.lom_generate_data_fast(fs, case['model']), want, 'lom_generate_data_fast %s' % what)


@st.composite
def orm_case(draw):
    L = draw(st.integers(1, 5))
    return {'N': draw(st.integers(8 if L > 2 else 5, 30)), 'L': L,
            'D': draw(st.integers(8 if L > 2 else 5, 30)), 'seed': draw(gen.seeds)}


@st.composite
def orm_wide_case(draw):
    return {'N': draw(st.integers(60, 90)), 'L': draw(st.sampled_from([540, 300, 620])),
            'D': draw(st.integers(60, 90)), 'seed': draw(gen.seeds)}


def orm(case, info):
    np.random.seed(case['seed'] % 2**32)
    U, Z, X = aux.generate_orm_product(N=case['N'], D=case['D'], L=case['L'])
    if U.shape != (case['D'], case['L']) or Z.shape != (case['N'], case['L']):
        raise Violation('random Boolean product: factors of shape %s, %s' % (U.shape, Z.shape))
    if not (set(np.unique(U)) | set(np.unique(Z))) <= {-1, 1}:
        raise Violation('random Boolean product: factors are not in -1/1')
    compare(X, ref.product([Z, U], 'OR-AND'), 'random Boolean product')


@st.composite
def expand_case(draw):
    return {'z': draw(gen.signs((draw(st.integers(1, 12)),))),
            'u': draw(gen.signs((draw(st.integers(1, 12)),)))}


def expand(case, info):
    f = getattr(lom_outputs, 'OR_AND_product_expand', None)
    if f is None:
        raise Skip()
    want = ref.product([case['z'][:, None], case['u'][:, None]], 'OR-AND')
    compare(2 * (np.asarray(f(case['z'], case['u'])) == 1) - 1, want, 'outer product of two columns')


SUBS = [
    Sub('general', general_case(), general, 6000, 120000,
        what='general generator and its fast dispatch, 36 models, 2-5 factors'),
    Sub('fast', fast_case(), fast, 6000, 200000,
        what='fast generator and per-entry functions, implemented models, 2D and 3D'),
    Sub('large_latent', large_latent_case(), large_latent, 1000, 60000,
        what='latent sizes up to 513, counts around 127/255'),
    Sub('position', position_case(), position, 400, 12000, what='active dimension at every position'),
    Sub('large_rows', large_rows_case(), large_rows, 200, 3000, what='up to 140 rows/columns'),
    Sub('arity', arity_case(), arity, 800, 20000, what='four to eight factors, up to 70 dimensions'),
    Sub('tensor_wide', tensor_wide_case(), tensor_wide, 160, 4000,
        what='Boolean tensor product, up to 140 dimensions'),
    Sub('tensor', tensor_case(), tensor, 600, 20000, what='Boolean tensor product'),
    Sub('orm', orm_case(), orm, 300, 8000, what='random Boolean product generator'),
    Sub('orm_wide', orm_wide_case(), orm, 8, 64, shards=8, what='the same with hundreds of dimensions'),
    Sub('expand', expand_case(), expand, 200, 8000, what='outer product helper'),
]
