"""C10 Recorded samples are faithful snapshots of the chain"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import warm

RULE = ('random machine (logical 2D/3D, stacked, max, q-threshold, several layers of different kinds), burn-in and number of samples; '
        'the state after each sampling sweep is known from runs that stop there (same random '
        'numbers); non-trivial: at least two records and the chain moved during sampling')


@st.composite
def run_case(draw):
    kind = draw(st.sampled_from(['2d', '2d', '2d', '3d', 'stack', 'twop', 'stack3d', 'max', 'q',
                                 'data', 'mixed', 'mixed']))
    K = 3 if kind in ('3d', 'stack3d') else 2
    shape = draw(gen.dims(K, 1, 6 if K == 2 else 4))
    return {'kind': kind, 'X': draw(gen.data(shape)) if kind != 'data' else draw(gen.signs(shape)),
            'L': draw(st.integers(1, 4)), 'axis': draw(st.integers(0, 1)),
            'models': [draw(st.sampled_from(gen.IMPL)) for _ in range(3)],
            'burn': draw(st.integers(0, 4)), 'samples': draw(st.integers(1, 6)),
            'again': draw(st.sampled_from([0, 1, 2, 3, 4, 5, 0, 0])), 'fix': draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            'fixl': draw(st.sampled_from([0, 0, 0, 1])), 'seed': draw(gen.seeds),
            'lbda': draw(st.sampled_from([0., .05, .3, 1.])), 'more': draw(st.integers(1, 15))}


def build(case):
    """machine with a state that is a function of the case"""
    m = lom.Machine()
    kind = case['kind']
    data = m.add_matrix(case['X'].copy(), fixed=kind != 'data')
    model = {'max': 'MAX-AND', 'q': 'qL-AND'}.get(kind, case['models'][0])
    l1 = m.add_layer(latent_size=case['L'], child=data, model=model)
    if kind in ('stack', 'twop', 'stack3d'):
        m.add_layer(latent_size=2, child=l1.factors[case['axis']], model=case['models'][1])
        if kind == 'twop':
            m.add_layer(latent_size=2, child=l1.factors[case['axis']], model=case['models'][2])
    if kind == 'mixed':      # further layers of other kinds, on data of their own
        for j, other in enumerate(['MAX-AND', 'qL-AND', 'OR-AND-IBP', case['models'][1]]):
            if case['more'] >> j & 1:
                d = m.add_matrix(gen.seeded_data(case['seed'] + j, (3, 4), .5, .2), fixed=True)
                o = m.add_layer(latent_size=2, child=d, model=other)
                if other == 'OR-AND-IBP':
                    o.alpha = 3.
    i = 0
    for l in m.layers:
        for f in l.factors:
            f.val = gen.seeded_signs([case['seed'], i], f().shape)
            f.fixed = bool(case['fix'] >> i & 1) and l.model != 'OR-AND-IBP'
            i += 1
        if l.model != 'MAX-AND':
            l.lbda.val = max(case['lbda'], .3) if l.model == 'OR-AND-IBP' else case['lbda']
        l.lbda.fixed = bool(case['fixl'])
        if l.model == 'qL-AND':
            l.q.val = (1 + np.abs(gen.seeded_data(case['seed'], l.q().shape, .5, .5))).astype(np.int8)
    return m, data


def go(m, seed, n, burn):
    warm(m)
    np.random.seed(seed % 2**32)
    m.infer(no_samples=n, burn_in_min=burn, burn_in_max=burn, print_step=3)


def state(m):
    return [np.array(x(), copy=True) for x in m.members], \
        [np.array(x(), copy=True, dtype=float) for x in m.lbdas]


def check_records(m, n, states, where):
    for i, x in enumerate(m.members):
        if x.fixed:
            if not np.array_equal(x.mean(), x()):
                raise Violation('%s: mean of fixed matrix %d is not its value' % (where, i))
            continue
        tr = x.trace
        if x.model == 'OR-AND-IBP':
            # with room for further dimensions, inactive if unused
            if len(tr) != n or tr.shape[2] < x().shape[1] or not np.all(tr[-1, :, x().shape[1]:] == -1):
                raise Violation('%s: unbounded matrix %d has records of shape %s for %d samples of %s'
                                % (where, i, tr.shape, n, x().shape))
            if not set(np.unique(tr)) <= {-1, 1} or not np.array_equal(tr[-1, :, :x().shape[1]], x()):
                raise Violation('%s: last record of unbounded matrix %d is not its value' % (where, i))
            for t in range(n if states is not None else 0):
                v = states[t][0][i]
                if not np.array_equal(tr[t, :, :v.shape[1]], v) or np.any(tr[t, :, v.shape[1]:] != -1):
                    raise Violation('%s: record %d of unbounded matrix %d is not its value at the end '
                                    'of sweep %d' % (where, t, i, t + 1))
            continue
        if tr.shape != (n,) + x().shape:
            raise Violation('%s: matrix %d has records of shape %s for %d samples of %s' % (
                where, i, tr.shape, n, x().shape))
        isq = x.layer is not None and x is getattr(x.layer, 'q', None)
        if not isq and not set(np.unique(tr)) <= {-1, 1}:
            raise Violation('%s: records of matrix %d contain %s' % (where, i, np.unique(tr)))
        if isq and not set(np.unique(tr)) <= set(range(1, 6)):
            raise Violation('%s: records of the thresholds contain %s' % (where, np.unique(tr)))
        if not np.array_equal(tr[-1], x()):
            raise Violation('%s: last record of matrix %d is not its value' % (where, i))
        if np.shares_memory(tr, x()):
            raise Violation('%s: records of matrix %d share memory with its value' % (where, i))
        if not np.allclose(x.mean(), tr.astype(float).sum(axis=0) / n, atol=1e-12):
            raise Violation('%s: mean of matrix %d is not the average record' % (where, i))
        if states is not None:
            for t in range(n):
                if not np.array_equal(tr[t], states[t][0][i]):
                    raise Violation('%s: record %d of matrix %d is not its value at the end of '
                                    'sweep %d' % (where, t, i, t + 1))
    for i, x in enumerate(m.lbdas):
        if x.fixed:
            if not np.array_equal(x.mean(), x()):
                raise Violation('%s: mean of fixed lambda %d is not its value' % (where, i))
            continue
        tr = x.trace
        if len(tr) != n or tr.shape[1:] != np.shape(x()):
            raise Violation('%s: lambda %d has records of shape %s for %d samples' % (
                where, i, tr.shape, n))
        if not np.allclose(tr[-1], x(), atol=1e-5):
            raise Violation('%s: last record of lambda %d is not its value' % (where, i))
        if not np.allclose(x.mean(), tr.astype(float).sum(axis=0) / n, atol=1e-5):
            raise Violation('%s: mean of lambda %d is not the average record' % (where, i))
        if isinstance(x(), np.ndarray) and np.shares_memory(tr, x()):
            raise Violation('%s: records of lambda %d share memory with its value' % (where, i))
        if states is not None:
            for t in range(n):
                if not np.allclose(tr[t], states[t][1][i], atol=1e-5):
                    raise Violation('%s: record %d of lambda %d is %s, it was %s at the end of '
                                    'sweep %d' % (where, t, i, tr[t], states[t][1][i], t + 1))


def implied(m, n, where):
    for l in m.layers:
        if l.lbda.fixed or l.model in ('MAX-AND', 'qL-AND', 'OR-AND-IBP'):
            continue
        for t in range(n):
            X = l.child.trace[t] if not l.child.fixed else l.child()
            fs = [f.trace[t] if not f.fixed else f() for f in l.factors]
            want, P, N = ref.smoothed_lbda(ref.product(fs, l.model), X, 1, 1)
            if abs(l.lbda.trace[t] - want) > 1e-5 * max(1, want):
                raise Violation('%s: record %d of lambda is %.7g, the factor records imply %.7g' % (
                    where, t, l.lbda.trace[t], want))


def run(case, info):
    n = case['samples']
    states = []
    for t in range(1, n + 1):
        m, _ = build(case)
        go(m, case['seed'], t, case['burn'])
        states.append(state(m))
    m, data = build(case)
    first = [x().copy() for x in m.members]
    for x, v in zip(m.members, first):          # before any inference
        if not np.array_equal(x.mean(), v):
            raise Violation('mean before inference is not the current value')
    go(m, case['seed'], n, case['burn'])
    check_records(m, n, states, case['kind'])
    implied(m, n, case['kind'])
    free = [x for x in m.members if not x.fixed]
    info.nontrivial = n > 1 and any(len(np.unique(x.trace, axis=0)) > 1 for x in free)
    info.label(case['kind'])
    free = [x for x in free if x.model != 'OR-AND-IBP']
    # records survive changes of the state
    keep = [x.trace.copy() for x in free]
    vals = [x() for x in free]
    for x in free:
        x.val[...] = -x.val
    for x, k in zip(free, keep):
        if not np.array_equal(x.trace, k):
            raise Violation('changing the state changed a record')
    # a further call replaces the records, but leaves those that the user took away
    held = [(x, x.trace, x.trace.copy()) for x in list(m.members) + list(m.lbdas) if not x.fixed]
    again = case['again'] or n
    go(m, case['seed'] + 1, again, 0)
    check_records(m, again, None, case['kind'] + ', second call')
    implied(m, again, case['kind'] + ', second call')
    for x, tr, k in held:
        if not np.array_equal(tr, k):
            raise Violation('%s: a second call overwrote records that were taken away before' %
                            case['kind'])
    # MAP values
    for x in free:
        if x.layer is not None and x is getattr(x.layer, 'q', None):
            continue
        tr = x.trace.copy()
        x.set_to_map()
        want = np.where(tr.astype(int).sum(axis=0) > 0, 1, -1)
        if not np.array_equal(x(), want):
            raise Violation('set_to_map: %s instead of the sign of the mean' % (
                x()[x() != want][:3],))
        if x().dtype != np.int8:
            raise Violation('set_to_map turned the matrix into %s' % x().dtype)
        if not np.array_equal(x.trace, tr):
            raise Violation('set_to_map changed the records')


def empty(case, info):
    """a call that records nothing: burn-in only"""
    m, data = build(case)
    what = case['kind'] + ', no samples'
    if case['again'] > 1:
        go(m, case['seed'], case['again'], 0)
    go(m, case['seed'] + 1, 0, case['burn'])
    for j, members in enumerate((m.members, m.lbdas)):
        for i, x in enumerate(members):
            if len(getattr(x, 'trace', ())):
                raise Violation('%s: %s %d holds %d records' % (what, 'matrix lambda'.split()[j], i, len(x.trace)))
            if not np.array_equal(x.mean(), x()):
                raise Violation('%s: the mean of %s %d is not its value' % (what, 'matrix lambda'.split()[j], i))
    for i, x in enumerate(m.members):
        if x.layer is not None and x is getattr(x.layer, 'q', None):
            continue
        v = x().copy()
        if np.any(v == 0):
            continue            # missing data
        x.set_to_map()
        if not np.array_equal(x(), v):
            raise Violation('%s: set_to_map changed matrix %d' % (what, i))
    info.nontrivial = case['burn'] > 0
    info.label(case['kind'])


@st.composite
def long_case(draw):
    c = draw(run_case())
    c['X'] = c['X'][tuple(slice(0, 2) for _ in c['X'].shape)]
    c['L'] = min(c['L'], 2)
    c['samples'] = draw(st.sampled_from([130, 257, 260, 300, 520]))
    c['stops'] = draw(st.lists(st.integers(1, 600), min_size=2, max_size=2))
    return c


def long(case, info):
    """hundreds of records"""
    n = case['samples']
    m, data = build(case)
    go(m, case['seed'], n, case['burn'])
    what = case['kind'] + ', %d records' % n
    check_records(m, n, None, what)
    implied(m, n, what)
    for t in case['stops']:
        t = 1 + t % n
        s, _ = build(case)
        go(s, case['seed'], t, case['burn'])
        for i, (a, b) in enumerate(zip(m.members, s.members)):
            if a.model == 'OR-AND-IBP' and np.all(a.trace[t - 1][:, b().shape[1]:] == -1) and \
                    np.array_equal(a.trace[t - 1][:, :b().shape[1]], b()):
                continue
            if not a.fixed and not np.array_equal(a.trace[t - 1], b()):
                raise Violation('%s: record %d of matrix %d is not its value at the end of that '
                                'sweep' % (what, t - 1, i))
        for i, (a, b) in enumerate(zip(m.lbdas, s.lbdas)):
            if not a.fixed and not np.allclose(a.trace[t - 1], b(), atol=1e-5):
                raise Violation('%s: record %d of lambda %d is not its value at the end of that '
                                'sweep' % (what, t - 1, i))
    info.nontrivial = any(len(np.unique(x.trace, axis=0)) > 1 for x in m.members if not x.fixed)
    info.label(case['kind'])


@st.composite
def map_case(draw):
    shape = draw(gen.dims(2, 1, 5))
    if draw(st.integers(0, 3)) == 0:
        # many records, nearly balanced
        n = draw(st.sampled_from([100, 127, 200, 257, 301, 999, 2001, 20001]))
        rng = np.random.default_rng(draw(gen.seeds))
        ones = np.clip(n // 2 + rng.integers(-2, 3, shape), 0, n)
        trace = np.where(np.arange(n)[:, None, None] < ones, 1, -1).astype(np.int8)
        return {'trace': rng.permuted(trace, axis=0), 'shape': shape}
    n = draw(st.integers(1, 8))
    return {'trace': draw(gen.signs([n] + shape)), 'shape': shape}


def mapped(case, info):
    """mean and MAP of given records, ties included"""
    m = lom.Machine()
    l = m.add_layer(latent_size=case['shape'][1], shape=(case['shape'][0], 2))
    x = l.z
    x.trace = case['trace'].copy()
    s = case['trace'].astype(int).sum(axis=0)
    if not np.allclose(x.mean(), s / len(case['trace']), atol=1e-12):
        raise Violation('mean is not the average over the records')
    x.set_to_map()
    if not np.array_equal(x(), np.where(s > 0, 1, -1)):
        raise Violation('MAP of %s is %s' % (s.tolist(), x().tolist()))
    info.nontrivial = bool((s == 0).any())


SUBS = [
    Sub('run', run_case(), run, 2400, 60000, what='every record against a run that stops there'),
    Sub('empty', run_case(), empty, 400, 6000, what='calls without any recorded sample'),
    Sub('long', long_case(), long, 80, 1600, what='hundreds of records'),
    Sub('map', map_case(), mapped, 600, 12000, what='mean and MAP of given records'),
]
