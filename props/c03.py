"""C03 Any requested model becomes an equivalent supported model"""
import bdb

import numpy as np
from hypothesis import strategies as st

import lom
import lom.auxiliary_functions as aux
from harness import gen, ref
from harness.core import Sub, Violation

RULE = ('random model name (all 36, or an unknown one), 2-4 axes, sizes, data with missing '
        'entries, factors; non-trivial: the model is not one of the 8 implemented names, or the '
        'case is a rejection case')
EXTRA = ['MAX-AND', 'qL-AND', 'OR-AND-IBP']


@st.composite
def equiv_case(draw):
    K = draw(st.sampled_from([2, 2, 3, 3, 4]))
    L = draw(st.integers(1, 5))
    shape = draw(gen.dims(K, 1, 5 if K == 2 else 3))
    model = draw(st.sampled_from(gen.ALL36))
    return {'model': model, 'factors': draw(gen.factors(shape, L, model)),
            'X': draw(gen.data(shape)),
            'dtype': draw(st.sampled_from(['int8', 'int8', 'int64', 'float64'])),
            'fixed': draw(st.booleans()),
            'how': draw(st.sampled_from(['child', 'child', 'shape', 'nolayer', 'readonly']))}


def equiv(case, info):
    fs, model = case['factors'], case['model']
    L = fs[0].shape[1]
    info.nontrivial = model not in gen.IMPL
    info.label(case['how'], 'K=%d' % len(fs))
    mine = gen.lay(case['X'].astype(case['dtype']), len(fs) * L)
    keep = mine.copy()
    if case['how'] == 'readonly':
        mine.setflags(write=False)
    m = lom.Machine()
    if case['how'] == 'shape':
        layer = m.add_layer(latent_size=L, shape=case['X'].shape, model=model)
        if layer.child().shape != case['X'].shape:
            raise Violation('layer from a shape: child has shape %s' % (layer.child().shape,))
        if not set(np.unique(layer.child())) <= {-1, 1}:
            raise Violation('layer from a shape: child is not in -1/1')
    else:
        child = m.add_matrix(mine, fixed=case['fixed'])
        layer = m.add_layer(latent_size=L, child=child, model=model)
        if layer.child is not child:
            raise Violation('the child of the layer is another matrix')
        want = -keep if layer.invert_data else keep
        if not np.array_equal(child(), want):
            raise Violation('data matrix is %s the data although invert_data is %s' % (
                'not' if not layer.invert_data else 'not the negative of', layer.invert_data))
    if not np.array_equal(mine, keep):
        raise Violation('adding a %s layer changed the array of the caller' % model)
    if layer.model not in gen.IMPL:
        raise Violation('%s became %s, which is not supported' % (model, layer.model))
    s = -1 if layer.invert_factors else 1
    got = ref.product([s * f for f in fs], layer.model)
    want = ref.product(fs, model) * (-1 if layer.invert_data else 1)
    if not np.array_equal(got, want):
        raise Violation('%s became %s (data inverted: %s, factors inverted: %s): not equivalent'
                        % (model, layer.model, layer.invert_data, layer.invert_factors))
    # the same through the code's own generator
    a = aux.lom_generate_data([s * f for f in fs], layer.model)
    b = aux.lom_generate_data(fs, model) * (-1 if layer.invert_data else 1)
    if not np.array_equal(a, b):
        raise Violation('%s became %s: generated data are not equivalent' % (model, layer.model))
    if [f().shape for f in layer.factors] != [(n, L) for n in case['X'].shape]:
        raise Violation('factors of the layer have shapes %s' % [f().shape for f in layer.factors])


@st.composite
def seq_case(draw):
    """several layers with different models in one machine, and shared arrays"""
    shape = draw(gen.dims(2, 1, 4))
    return {'X': draw(gen.data(shape)), 'shared': draw(st.booleans()),
            'models': draw(st.lists(st.sampled_from(gen.ALL36), min_size=2, max_size=4))}


def seq(case, info):
    X = case['X'].copy()
    m = lom.Machine()
    layers = []
    for mod in case['models']:
        child = m.add_matrix(X if case['shared'] else X.copy(), fixed=True)
        layers.append((m.add_layer(latent_size=2, child=child, model=mod), mod))
    flags = [l.invert_data for l, _ in layers]
    info.nontrivial = any(flags) and not all(flags)
    if not np.array_equal(X, case['X']):
        raise Violation('the array of the caller changed')
    for l, mod in layers:
        want = -case['X'] if l.invert_data else case['X']
        if not np.array_equal(l.child(), want):
            raise Violation('%s layer among %s: data matrix has the wrong sign' % (
                mod, case['models']))
    # the translation of a model doesn't depend on what was requested before
    for l, mod in layers:
        m2 = lom.Machine()
        l2 = m2.add_layer(latent_size=2, child=m2.add_matrix(X.copy()), model=mod)
        if (l2.model, l2.invert_data, l2.invert_factors) != (
                l.model, l.invert_data, l.invert_factors):
            raise Violation('%s is translated differently in different machines' % mod)


@st.composite
def grow_case(draw):
    shape = draw(gen.dims(draw(st.sampled_from([2, 2, 3])), 1, 4))
    steps = [{'child': draw(st.integers(0, 20)), 'model': draw(st.sampled_from(gen.ALL36)),
              'L': draw(st.integers(1, 3)), 'wrap': draw(st.sampled_from(['C', 'F', 'view']))}
             for _ in range(draw(st.integers(1, 4)))]
    return {'X': draw(gen.data(shape)), 'fixed': draw(st.booleans()), 'steps': steps,
            'seed': draw(gen.seeds)}


def grow(case, info):
    """layers stacked on data and on factors: each addition negates its child or nothing"""
    np.random.seed(case['seed'])
    m = lom.Machine()
    m.add_matrix(case['X'].copy(), fixed=case['fixed'])
    inverted = set()
    for k, s in enumerate(case['steps']):
        mats = m.members
        child = mats[s['child'] % len(mats)]
        if id(child) in inverted:
            continue      # one data inverting layer per matrix
        if k and s['wrap'] != 'C':
            v = child()
            child.val = np.asfortranarray(v) if s['wrap'] == 'F' else np.tile(v, (2,) * v.ndim)[
                tuple(slice(0, n) for n in v.shape)]
        before = [(x, x().copy(), x.fixed) for x in mats]
        layer = m.add_layer(latent_size=s['L'], child=child, model=s['model'])
        if layer.invert_data:
            inverted.add(id(child))
            info.nontrivial = info.nontrivial or k > 0
        info.label('data' if child.layer is None else 'factor')
        for x, v, fixed in before:
            want = -v if x is child and layer.invert_data else v
            if not np.array_equal(x(), want):
                raise Violation('adding a %s layer (step %d): %s matrix should be %s' % (
                    s['model'], k, 'its child' if x is child else 'another',
                    'negated' if x is child and layer.invert_data else 'as before'))
            if x.fixed != fixed:
                raise Violation('adding a %s layer changed a fixed flag' % s['model'])
        fs = [gen.seeded_signs([case['seed'], k, i], (n, s['L'])) for i, n in enumerate(child().shape)]
        got = ref.product([-f if layer.invert_factors else f for f in fs], layer.model)
        want = ref.product(fs, s['model']) * (-1 if layer.invert_data else 1)
        if not np.array_equal(got, want):
            raise Violation('%s became %s: not equivalent' % (s['model'], layer.model))


names = st.one_of(
    st.sampled_from(['', '-', 'OR', 'AND', 'OR-', '-AND', 'or-and', 'OR_AND', 'OR-AND-', 'AND-OR-XOR',
                     'XNOR-AND', 'OR-XNOR', 'MAX-OR', 'qL-OR', 'OR-ALL', 'OR-AND-NAND', 'IBP',
                     'MAX', 'OR AND', 'NXOR-', 'NOR-', 'BALANCED', 'BALANCED-OR', 'AND-MAX']),
    st.builds(lambda a, b, sep: a + sep + b,
              st.sampled_from(gen.OPS + ['MAX', 'ALL', 'qL', 'XNOR', '']),
              st.sampled_from(gen.OPS + ['MAX', 'ALL', 'XNOR', '']),
              st.sampled_from(['-', '-', '_', '', '--', ' '])),
    st.text(alphabet='ANDORX-N ', max_size=9)).filter(
        lambda n: n not in gen.ALL36 and n not in EXTRA)


@st.composite
def unknown_case(draw):
    shape = draw(gen.dims(draw(st.sampled_from([2, 3])), 1, 4))
    return {'name': draw(names), 'X': draw(gen.data(shape)),
            'layers': draw(st.integers(0, 2)), 'how': draw(st.sampled_from(['child', 'shape']))}


def unknown(case, info):
    info.label(case['how'])
    m = lom.Machine()
    child = m.add_matrix(case['X'].copy(), fixed=True)
    for i in range(case['layers']):
        m.add_layer(latent_size=2, child=child, model='OR-AND')
    before = (list(m.layers), list(m.matrices), list(child.parents), child.val, child.val.copy())
    try:
        if case['how'] == 'child':
            m.add_layer(latent_size=2, child=child, model=case['name'])
        else:
            m.add_layer(latent_size=2, shape=case['X'].shape, model=case['name'])
    except bdb.BdbQuit:
        raise Violation('unknown model %r starts the debugger' % case['name'])
    except Exception:
        pass
    else:
        raise Violation('unknown model %r was accepted' % case['name'])
    if len(m.layers) != len(before[0]) or any(a is not b for a, b in zip(m.layers, before[0])):
        raise Violation('rejecting %r changed the layers' % case['name'])
    if len(m.matrices) != len(before[1]):
        raise Violation('rejecting %r changed the matrices' % case['name'])
    if len(child.parents) != len(before[2]):
        raise Violation('rejecting %r changed the parents of the data' % case['name'])
    if not np.array_equal(child.val, before[4]):
        raise Violation('rejecting %r changed the data' % case['name'])


@st.composite
def table_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    model = draw(st.sampled_from(gen.ALL36))
    return {'model': model, 'factors': draw(gen.factors(draw(gen.dims(K, 1, 5)), draw(st.integers(1, 5)), model)),
            'i': draw(st.integers(0, 7)),
            'pairs': [(draw(st.sampled_from(gen.ALL36)), draw(st.sampled_from(gen.ALL36)))
                      for _ in range(draw(st.integers(0, 3)))]}


def tables(case, info):
    """the tables of equivalent models, negated models and of models by class"""
    model, fs = case['model'], case['factors']
    want = ref.product(fs, model)
    eq = aux.replace_equivalent_model(model)
    if eq not in gen.ALL36 or not np.array_equal(ref.product(fs, eq), want):
        raise Violation('%s is replaced by %s: not equivalent' % (model, eq))
    if aux.replace_equivalent_model(eq) != eq:
        raise Violation('%s is replaced by %s, that one by %s' % (
            model, eq, aux.replace_equivalent_model(eq)))
    got = aux.replace_equivalent_model(model, equivalent_pairs=list(case['pairs']))
    options = [a for a, b in case['pairs'] if b == model]
    if got not in (options or [model]):
        raise Violation('%s is replaced by %s with the given pairs %s' % (model, got, case['pairs']))
    group, inv = aux.get_lom_class(model)
    outer, inner = group.split('-')
    if len(inv) != 3 or not np.array_equal(by_class(fs, outer, inner, inv), want):
        raise Violation('%s is not the %s class with inversions %s' % (model, group, inv))
    if set(aux.implemented_loms()) != set(gen.IMPL) or len(aux.implemented_loms()) != len(gen.IMPL):
        raise Violation('implemented models are listed as %s' % aux.implemented_loms())
    for mode in ('implemented', 'canonical'):
        clans, fam = aux.canonical_loms('clans', mode), aux.canonical_loms('families', mode)
        if len(clans) != 8 or len(set(fam)) != 16 or fam[:8] != clans:
            raise Violation('%s: clans %s, families %s' % (mode, clans, fam))
        a, b = fam[case['i']], fam[case['i'] + 8]
        if not np.array_equal(ref.product(fs, a), -ref.product(fs, b)):
            raise Violation('%s and %s belong to one clan but are not complementary' % (a, b))
    if set(aux.canonical_loms()) != set(gen.IMPL):
        raise Violation('the canonical models are listed as %s' % aux.canonical_loms())
    info.nontrivial = bool(len(np.unique(want)) > 1)
    info.label('replaced' if eq != model else 'kept')


def by_class(fs, outer, inner, inv):
    """operators of a class with the requested inversions of result, hidden layer, factors"""
    K, L = len(fs), fs[0].shape[1]
    c = 0
    for i, f in enumerate(fs):
        sh = [1] * K + [L]
        sh[i] = f.shape[0]
        c = c + ((np.asarray(f) == 1) != inv[2]).astype(int).reshape(sh)
    hidden = ref.op_from_count(inner, c, K) != inv[1]
    return np.where(ref.op_from_count(outer, hidden.sum(axis=-1), L) != inv[0], 1, -1)


SUBS = [
    Sub('tables', table_case(), tables, 1600, 30000, what='tables of equivalent and related models'),
    Sub('equivalence', equiv_case(), equiv, 3000, 60000,
        what='36 names: product identity with inversion flags, data negation, caller array'),
    Sub('sequence', seq_case(), seq, 800, 16000, what='several layers, shared arrays'),
    Sub('grow', grow_case(), grow, 1200, 20000, what='layers stacked on data and factors'),
    Sub('unknown', unknown_case(), unknown, 1200, 20000, what='unknown names are rejected'),
]
