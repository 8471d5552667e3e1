"""C24 Machines are assembled with consistent shapes and relations"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen
from harness.core import Sub, Violation

RULE = ('random assembly histories (data of 2-4 axes and several dtypes, layers on data, on '
        'shapes, on factors of other layers, several machines); non-trivial: at least two layers '
        'or more than two axes')


@st.composite
def assembly_case(draw):
    ops = []
    # few different models, few different children: repetitions
    palette = gen.IMPL + ['NOR-OR', 'AND-AND', 'OR-AND', 'MAX-AND', 'qL-AND', 'OR-AND-IBP']
    some = draw(st.integers(0, 4))
    if some == 4:
        palette = ['NOR-OR', 'AND-AND', 'AND-OR', 'NAND-AND', 'OR-AND']
    if some < 2:
        palette = [draw(st.sampled_from(palette)) for _ in range(some + 1)]
    top = draw(st.sampled_from([0, 1, 50, 50]))
    # histories of all kinds, or many layers on few children
    kinds = draw(st.sampled_from([['data', 'layer', 'layer', 'stack', 'stack',
                                   'share', 'shape', 'random', 'invalid']] * 2 + [['layer', 'layer', 'stack']]))
    for _ in range(draw(st.integers(1, 6 if len(kinds) > 3 else 8))):
        ops.append({'op': draw(st.sampled_from(kinds)),
                    'axes': draw(st.sampled_from([2, 2, 2, 3, 3, 4])),
                    'dims': draw(gen.dims(4, 1, 5)),
                    # one long axis
                    'long': draw(st.sampled_from([0] * 12 + [70, 130, 270, 600])), 'L': draw(st.integers(1, 5)),
                    'pick': draw(st.integers(0, top)), 'seed': draw(gen.seeds),
                    'model': draw(st.sampled_from(palette)),
                    'dtype': draw(st.sampled_from(['int8', 'int8', 'int64', 'int32', 'float64', 'int16', 'float32',
                                                'uint8', 'bool'])),
                    'order': draw(st.sampled_from(['C', 'C', 'F', 'view', 'reversed'])),
                    'fixed': draw(st.booleans())})
    return {'ops': ops}


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def once(lst, x):
    return sum(1 for y in lst if y is x) == 1


def layout(a, order):
    """the same array, arranged differently in memory"""
    if order == 'F':
        return np.asfortranarray(a)
    if order == 'view':
        big = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        v = big[tuple(slice(n % 2, None, 2) for n in a.shape)]
        v[...] = a
        return v
    if order == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    return a


def check(m, layers, datas):
    if not same(m.layers, [l['layer'] for l in layers]):
        raise Violation('the machine lists other layers than were added')
    for d in datas:
        v = d['mat']()
        if v.dtype != np.int8:
            raise Violation('data are stored as %s' % v.dtype)
        want = d['X'] * d['sign']
        if not np.array_equal(v, want):
            raise Violation('data differ from the given values')
        if not once(m.members, d['mat']):
            raise Violation('a data matrix is listed %d times' % sum(
                1 for y in m.members if y is d['mat']))
        if d['mat'].fixed != d['fixed']:
            raise Violation('the fixed flag of a matrix is %r' % d['mat'].fixed)
        if d['mat'].layer is not None:
            raise Violation('a data matrix belongs to a layer as a factor')
    seen = []
    for e in layers:
        l = e['layer']
        shape = e['shape']
        K = len(shape)
        if len(l.factors) != K or len(list(l)) != K or l.dimensionality != K:
            raise Violation('layer on %d axes has %d factors, dimensionality %d' % (
                K, len(l.factors), l.dimensionality))
        if l.size != e['L'] or l.L != e['L']:
            raise Violation('layer of latent size %d says %s' % (e['L'], l.size))
        if l.child is not e['child'] and e['child'] is not None:
            raise Violation('child of a layer is another matrix')
        if tuple(l.child().shape) != tuple(shape):
            raise Violation('child has shape %s, asked for %s' % (l.child().shape, shape))
        if not once(l.child.parents, l):
            raise Violation('the layer is listed %d times among the parents of its child' %
                            sum(1 for y in l.child.parents if y is l))
        for i, f in enumerate(l.factors):
            if f.child_axis != i:
                raise Violation('factor %d has child axis %r' % (i, f.child_axis))
            if f().shape != (shape[i], e['L']):
                raise Violation('factor %d has shape %s instead of %s' % (
                    i, f().shape, (shape[i], e['L'])))
            if f().dtype != np.int8 or not set(np.unique(f())) <= {-1, 1}:
                raise Violation('factor %d is not initialised with -1/1' % i)
            if f.layer is not l or f.model != l.model:
                raise Violation('factor %d does not refer to its layer' % i)
            if not same(f.siblings, [g for g in l.factors if g is not f]):
                raise Violation('siblings of factor %d are wrong' % i)
            if f.fixed_entries.shape != f().shape or np.any(f.fixed_entries):
                raise Violation('factor %d starts with fixed entries' % i)
            if f.fixed is not False:
                raise Violation('factor %d starts fixed' % i)
            if not once(m.members, f):
                raise Violation('a factor is listed %d times' % sum(
                    1 for y in m.members if y is f))
            if any(f is g for g in seen):
                raise Violation('two layers share a factor')
            for g in seen:
                if g() is f() or np.shares_memory(g(), f()):
                    raise Violation('two factors share memory')
            seen.append(f)
        for name, i in (('z', 0), ('u', 1), ('v', 2)):
            if i < K and getattr(l, name) is not l.factors[i]:
                raise Violation('layer.%s is not factor %d' % (name, i))
        if l.lbda.layer is not l or not once(m.lbdas, l.lbda):
            raise Violation('lambda is not listed once, or refers to another layer')
        if l.machine is not m:
            raise Violation('layer refers to another machine')
        if l.model == 'MAX-AND':
            if np.shape(l.lbda()) != (e['L'] + 1,):
                raise Violation('max model reliabilities have shape %s' % (np.shape(l.lbda()),))
        elif np.ndim(l.lbda()) != 0:
            raise Violation('lambda is not a scalar')
        if l.model == 'qL-AND':
            if l.q().shape != (1, shape[1]) or not once(m.members, l.q):
                raise Violation('thresholds have shape %s, or are not listed once' % (l.q().shape,))
            if not ((l.q() >= 1) & (l.q() <= 5)).all():
                raise Violation('thresholds start outside 1..5')
    if len(m.lbdas) != len(layers):
        raise Violation('%d lambdas for %d layers' % (len(m.lbdas), len(layers)))
    n = len(seen) + len(datas) + sum(1 for e in layers if e['layer'].model == 'qL-AND')
    ids = [id(x) for x in m.members]
    if len(set(ids)) != len(ids):
        raise Violation('the machine lists a matrix twice')
    extra = [x for x in m.members if not any(x is y for y in seen)
             and not any(x is d['mat'] for d in datas)
             and not any(x is getattr(e['layer'], 'q', None) for e in layers)
             and not any(x is e['layer'].child for e in layers)]
    if extra or len(ids) < n:
        raise Violation('the machine lists %d matrices, %d were made' % (len(ids), n))
    for x in m.members:
        want = [e['layer'] for e in layers if e['layer'].child is x]
        if not same(x.parents, want):
            raise Violation('parents of a matrix: %d listed, %d layers have it as a child' % (
                len(x.parents), len(want)))


def assembly(case, info):
    m = lom.Machine()
    other = lom.Machine()
    oc = other.add_matrix(np.ones((2, 3), dtype=np.int8))
    ol = other.add_layer(latent_size=2, child=oc)
    layers, datas = [], []
    for o in case['ops']:
        shape = list(o['dims'][:o['axes']])
        if o['long']:
            shape[o['pick'] % len(shape)] = o['long'] + o['L']
        shape = tuple(shape)
        mod = o['model']
        op = o['op']
        if op == 'share' and datas:
            # two matrices given one and the same array
            d = datas[o['pick'] % len(datas)]
            keep = d['mat']().copy()
            mat = m.add_matrix(d['mat'](), fixed=o['fixed'])
            datas.append({'mat': mat, 'X': keep, 'sign': 1, 'fixed': o['fixed']})
        elif op in ('data', 'random', 'share') or op == 'layer' and not datas or \
                op == 'stack' and not layers:
            op2 = 'data' if op != 'random' else op
            if op2 == 'data':
                X = gen.seeded_data(o['seed'], shape, .5, .2)
                if o['dtype'] in ('uint8', 'bool'):
                    X = (X > 0).astype(np.int8)
                given = layout(X.astype(o['dtype']), o['order'])
                mat = m.add_matrix(given, fixed=o['fixed'])
            else:
                mat = m.add_matrix(shape=shape, fixed=o['fixed'])
                X = mat().copy()
                if X.shape != shape or not set(np.unique(X)) <= {-1, 1}:
                    raise Violation('random matrix: shape %s, values %s' % (
                        X.shape, np.unique(X)))
            datas.append({'mat': mat, 'X': X.astype(np.int8), 'sign': 1, 'fixed': o['fixed']})
        elif op == 'invalid':
            before = list(m.layers)
            try:
                m.add_layer(latent_size=o['L'], model='OR-AND')
            except Exception:
                pass
            else:
                raise Violation('a layer with neither data nor shape was accepted')
            if not same(m.layers, before):
                raise Violation('a rejected layer was added')
        else:
            child = None
            sgn = None
            if op == 'layer':
                d = datas[o['pick'] % len(datas)]
                child, sgn = d['mat'], d
                shape = child().shape
            elif op == 'stack':
                fs = [f for e in layers for f in e['layer'].factors]
                child = fs[o['pick'] % len(fs)]
                shape = child().shape
            if mod in ('MAX-AND', 'qL-AND', 'OR-AND-IBP') and len(shape) != 2:
                mod = 'OR-AND'
            keep = child().copy() if child is not None else None
            if child is None:
                l = m.add_layer(latent_size=o['L'], shape=shape, model=mod)
            else:
                l = m.add_layer(latent_size=o['L'], child=child, model=mod)
                if not np.array_equal(child(), -keep if l.invert_data else keep):
                    raise Violation('adding a layer changed its child')
                if sgn is not None and l.invert_data:
                    sgn['sign'] *= -1
            layers.append({'layer': l, 'shape': shape, 'L': o['L'], 'child': child})
        check(m, layers, datas)
    if not same(other.layers, [ol]) or not same(other.matrices, [oc]) or len(other.members) != 3:
        raise Violation('another machine was changed')
    info.nontrivial = len(layers) > 1 or any(len(e['shape']) > 2 for e in layers)
    info.label('layers=%d' % len(layers))


@st.composite
def init_case(draw):
    return {'shape': draw(st.sampled_from([None, None, (60, 50, 70)])) or
            (draw(st.integers(300, 800)), draw(st.integers(300, 800))),
            'L': draw(st.integers(3, 20)), 'seed': draw(gen.seeds)}


def init(case, info):
    """initial factors are random bits: balanced, and not the same in both factors or columns"""
    np.random.seed(case['seed'])
    m = lom.Machine()
    l = m.add_layer(latent_size=case['L'], shape=case['shape'])

    def unlike(a, b, what):
        # the products of independent random signs are random signs
        if abs(np.sum(a.astype(int) * b)) > 7 * np.sqrt(a.size) + 1:
            raise Violation('%s agree in %d of %d entries' % (what, np.sum(a == b), a.size))

    for i, f in enumerate(l.factors):
        v = f()
        for gap in range(1, case['L']):
            unlike(v[:, gap:], v[:, :-gap], 'initial factor columns %d apart' % gap)
        for gap in list(range(1, 12)) + [16, 32, 64, 128, 256]:
            if gap < len(v) - 20:
                unlike(v[gap:], v[:-gap], 'initial factor rows %d apart' % gap)
        for g in l.factors[:i]:
            n = min(len(v), len(g()))
            unlike(v[:n], g()[:n], 'two initial factors')
            unlike(v[-n:], -g()[-n:], 'the ends of two initial factors, inverted,')
    for f in l.factors:
        for c in range(case['L']):
            x = f()[:, c]
            if abs(x.sum()) > 6.5 * np.sqrt(len(x)):
                raise Violation('initial factor column sums to %d over %d entries' % (
                    x.sum(), len(x)))


SUBS = [
    Sub('assembly', assembly_case(), assembly, 2400, 60000,
        what='structural invariants after every step of an assembly history'),
    Sub('init', init_case(), init, 60, 600, what='random initial factors are balanced'),
]
