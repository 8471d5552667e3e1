"""C08 Whatever the user fixed never changes during inference"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen
from harness.core import Sub, Violation
from harness.sample import warm

RULE = ('random machine (logical 2D/3D, max, q-threshold, stacked layers), random fixed matrices, '
        'fixed entries, fixed lambdas, history of inference calls with and without annealing and '
        'burn-in, flags toggled in between; non-trivial: something free moved while something else '
        'was fixed')


@st.composite
def hist_case(draw):
    kind = draw(st.sampled_from(['2d', '2d', '3d', 'max', 'q', 'stack', 'stack2', 'free_data',
                                 'stack3d', 'mixed']))
    K = 3 if kind in ('3d', 'stack3d') else 2
    shape = draw(gen.dims(K, 1, 6 if K == 2 else 4))
    L = draw(st.integers(1, 4))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        calls.append({'samples': draw(st.sampled_from([0, 1, 2, 3, 4] * 4 + [40])), 'burn': draw(st.integers(0, 6)),
                      'extra': draw(st.sampled_from([0, 0, 8])),
                      'window': draw(st.sampled_from([2, 3])),
                      'anneal': draw(st.sampled_from([False, False, True])),
                      'fixl': draw(st.sampled_from([0, 0, 3])),
                      'mats': draw(st.integers(0, 1023)), 'lbdas': draw(st.integers(0, 7)),
                      'marks': draw(st.sampled_from(['none', 'some', 'some', 'all', 'row'])),
                      'values': draw(st.booleans()), 'seed': draw(gen.seeds)})
    X = draw(gen.data(shape)) if kind != 'free_data' else draw(gen.signs(shape))
    blank = draw(st.sampled_from([None, None] + list(range(K))))
    if blank is not None and kind != 'free_data':      # nothing is observed in some slices
        X = X.copy()
        np.moveaxis(X, blank, 0)[::2] = 0
    return {'kind': kind, 'X': X, 'L': L, 'axis': draw(st.integers(0, 1)),
            'models': [draw(st.sampled_from(gen.IMPL)) for _ in range(3)], 'calls': calls,
            'data_kind': draw(st.sampled_from(['int8', 'int8', 'int64'])),
            'flag': draw(st.sampled_from(['bool', 'bool', 'int', 'numpy'])),
            'priors': draw(st.lists(gen.prior, min_size=3, max_size=3))}


def build(case):
    m = lom.Machine()
    mine = case['X'].astype(case['data_kind'])
    data = m.add_matrix(mine, fixed=case['kind'] != 'free_data')
    kind = case['kind']
    model = {'max': 'MAX-AND', 'q': 'qL-AND'}.get(kind, case['models'][0])
    l1 = m.add_layer(latent_size=case['L'], child=data, model=model)
    if kind in ('stack', 'stack2', 'stack3d'):
        l2 = m.add_layer(latent_size=2, child=l1.factors[case['axis']], model=case['models'][1])
        if kind == 'stack2':
            m.add_layer(latent_size=2, child=l2.factors[case['axis']], model=case['models'][2])
    if kind == 'mixed':
        for j, other in enumerate(['MAX-AND', 'qL-AND', case['models'][1]]):
            d = m.add_matrix(gen.seeded_data(case['calls'][0]['seed'], (3, 4), .5, .2), fixed=True)
            m.add_layer(latent_size=2, child=d, model=other)
    if kind == 'free_data' and case['axis']:
        m.add_layer(latent_size=2, child=data, model=case['models'][1])
    return m, data, mine


FLAGS = {'bool': bool, 'int': int, 'numpy': np.bool_}


def history(case, info):
    flag = FLAGS[case.get('flag', 'bool')]
    m, data, mine = build(case)
    keep = mine.copy()
    moved = fixed_any = False
    for c in case['calls']:
        rng = np.random.default_rng(c['seed'])
        for i, mat in enumerate(m.members):
            if mat is data or (mat.layer is None and mat.parents):
                mat.fixed = flag(case['kind'] != 'free_data' or c['mats'] >> i & 1)
            else:
                mat.fixed = flag(c['mats'] >> i & 1)
            v = mat()
            if c['marks'] == 'none':
                mk = np.zeros(v.shape)
            elif c['marks'] == 'some':
                mk = rng.random(v.shape) < .4
            elif c['marks'] == 'all':
                mk = np.ones(v.shape)
            else:
                mk = np.zeros(v.shape)
                mk[0] = 1
            mat.fixed_entries = np.array(mk, dtype=np.int8)
            mat.bernoulli_prior = case['priors'][i % 3]
            if c['values'] and mat is not data:
                if mat.layer is not None and mat is getattr(mat.layer, 'q', None):
                    mat.val = rng.integers(1, 6, v.shape).astype(np.int8)
                else:
                    mat.val = gen.seeded_signs(c['seed'], v.shape)
        for i, lb in enumerate(m.lbdas):
            lb.fixed = flag(c['lbdas'] >> i & 1)
            if lb.layer.model == 'MAX-AND':
                lb.val = np.round(.05 + .9 * rng.random(lb.layer.size + 1), 3)
            else:
                lb.val = float(np.round(rng.random() * 3 + .1, 3))
        m.anneal = c['anneal']
        warm(m, data=False)
        before = [x().copy() for x in m.members]
        marks = [x.fixed_entries.copy() for x in m.members]
        lb0 = [np.array(x.val, copy=True) for x in m.lbdas]
        lobj = [x.val for x in m.lbdas]
        np.random.seed(c['seed'])
        m.infer(no_samples=c['samples'], burn_in_min=c['burn'], burn_in_max=c['burn'] + c['extra'],
                convergence_window=c['window'],
                fix_lbda_iters=0 if c['anneal'] else min(c['fixl'], c['burn']))
        where = '%s, %s' % (case['kind'], 'anneal' if c['anneal'] else 'no annealing')
        for i, (mat, b, mk) in enumerate(zip(m.members, before, marks)):
            name = 'matrix %d' % i if mat.layer is not None else 'the data'
            if mat.fixed and not np.array_equal(mat(), b):
                raise Violation('%s: %s was declared fixed and changed' % (where, name))
            d = mat() != b
            moved = moved or d.any()
            fixed_any = fixed_any or bool(mat.fixed and mat is not data) or (mk.any() and not mat.fixed)
            if d[mk == 1].any():
                raise Violation('%s: %s: entry %s is marked fixed and changed' % (
                    where, name, np.argwhere(d & (mk == 1))[0].tolist()))
            if not np.array_equal(mat.fixed_entries, mk):
                raise Violation('%s: the marks of %s changed' % (where, name))
            if not mat.fixed:
                tr = mat.trace
                if len(tr) != c['samples']:
                    raise Violation('%s: %d records instead of %d' % (where, len(tr), c['samples']))
                for t in range(len(tr)):
                    if np.any((tr[t] != b) & (mk == 1)):
                        raise Violation('%s: %s: a fixed entry differs in record %d' % (
                            where, name, t))
            elif not np.array_equal(mat.mean(), b):
                raise Violation('%s: the mean of fixed %s is not its value' % (where, name))
        for i, (lb, v) in enumerate(zip(m.lbdas, lb0)):
            if lb.fixed:
                fixed_any = True
                if not np.array_equal(lb.val, v):
                    raise Violation('%s: lambda %d was fixed at %s and is now %s' % (
                        where, i, v, lb.val))
                if not np.array_equal(lb.mean(), v):
                    raise Violation('%s: mean of fixed lambda %d is %s, not %s' % (
                        where, i, lb.mean(), v))
        if not np.array_equal(mine, keep) and case['kind'] != 'free_data':
            raise Violation('%s: the array supplied by the caller was modified' % where)
    info.nontrivial = bool(moved and fixed_any)
    info.label(case['kind'])


@st.composite
def invert_case(draw):
    shape = draw(gen.dims(draw(st.sampled_from([2, 3])), 1, 4))
    return {'X': draw(gen.data(shape)), 'model': draw(st.sampled_from(gen.ALL36)),
            'seed': draw(gen.seeds), 'anneal': draw(st.booleans()), 'n': draw(st.integers(0, 3)),
            'ro': draw(st.booleans())}


def invert(case, info):
    """data of any of the 36 models; the caller's array may even be read-only"""
    mine = case['X'].copy()
    if case['ro']:
        mine.setflags(write=False)
    m = lom.Machine()
    data = m.add_matrix(mine, fixed=True)
    layer = m.add_layer(latent_size=2, child=data, model=case['model'])
    stored = data().copy()
    m.anneal = case['anneal']
    layer.lbda.val = 1.
    np.random.seed(case['seed'])
    m.infer(no_samples=case['n'], burn_in_min=4, burn_in_max=12, convergence_window=3)
    if not np.array_equal(mine, case['X']):
        raise Violation('inference on a %s layer modified the array of the caller' % case['model'])
    if not np.array_equal(data(), stored):
        raise Violation('inference on a %s layer modified the data' % case['model'])


SUBS = [
    Sub('history', hist_case(), history, 2400, 60000,
        what='histories of inference calls over logical, max, q-threshold and stacked machines'),
    Sub('invert', invert_case(), invert, 800, 16000, what='caller array, 36 models'),
]
