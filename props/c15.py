"""C15 Clean-up removes exactly the redundant latent dimensions"""
import numpy as np
from hypothesis import strategies as st

import lom
import lom.auxiliary_functions as aux
from harness import gen
from harness.core import Sub, Violation

RULE = ('random factors with inactive and duplicate columns planted next to each other and apart; '
        'non-trivial: at least one dimension is redundant (direct calls), the run converges after '
        'removing or deactivating at least one dimension (runs)')


def inactive(fs, l):
    return any(bool(np.all(f[:, l] == -1)) for f in fs)


def same(fs, a, b):
    return any(bool(np.array_equal(f[:, a], f[:, b])) for f in fs)


def kept_dimensions(fs):
    kept = []
    for l in range(fs[0].shape[1]):
        if not inactive(fs, l) and not any(same(fs, k, l) for k in kept):
            kept.append(l)
    return kept


@st.composite
def redundant_factors(draw, K, L, lo=1, hi=5):
    """factors whose columns are drawn from a small pool for some factors"""
    fs = []
    for _ in range(K):
        n = draw(st.integers(lo, hi))
        f = draw(gen.signs((n, L), ('half', 'half', 'dense')))
        kind = draw(st.sampled_from(['free', 'free', 'pool', 'edit']))
        picks = [draw(st.integers(0, 9)) for _ in range(L)]
        if kind == 'pool':
            f = np.stack([f[:, i % min(L, 3)] for i in picks], axis=1)
        elif kind == 'edit':
            f = f.copy()
            for l, i in enumerate(picks):
                if i < 3:
                    f[:, l] = -1
                elif i < 5 and l:
                    f[:, l] = f[:, l - 1]
                elif i == 5:
                    f[:, l] = f[:, 0]
        fs.append(f.astype(np.int8))
    return fs


@st.composite
def direct_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 7))
    fs = draw(redundant_factors(K, L, *draw(st.sampled_from([(1, 5), (4, 9), (6, 12)]))))
    model = draw(st.sampled_from(gen.IMPL + (['MAX-AND'] * 5 if K == 2 else [])))
    return {'factors': fs, 'model': model, 'mode': draw(st.sampled_from(['clean', 'clean', 'reset', 'both'])),
            'marks': [draw(gen.bits(f.shape)) for f in fs],
            'lbda': np.linspace(.9, .1, L + 1)[np.argsort(draw(st.permutations(range(L + 1))))],
            'other': draw(st.booleans())}


def direct(case, info):
    fs = case['factors']
    L = fs[0].shape[1]
    m = lom.Machine()
    layer = m.add_layer(latent_size=L, shape=tuple(f.shape[0] for f in fs), model=case['model'])
    if case['other']:
        other = m.add_layer(latent_size=2, shape=(2, 2), model='OR-AND')
        ov = [f().copy() for f in other.factors]
    for f, v, mark in zip(layer.factors, fs, case['marks']):
        f.val = gen.lay(v)
        f.fixed_entries = gen.lay(mark, 1)
    maxm = layer.model == 'MAX-AND'
    if maxm:
        layer.lbda.val = np.array(case['lbda'])
    lb = np.array(layer.lbda(), copy=True)
    child = layer.child() if layer.child is not None else None
    kept = kept_dimensions(fs)
    clean = case['mode'] == 'clean'
    ret = aux.clean_up_codes(layer, reset=not clean, clean=case['mode'] != 'reset')
    if clean:
        want_ret = len(kept) < L
        want = [f[:, kept] for f in fs]
        want_marks = [x[:, kept] for x in case['marks']]
        want_lb = lb[kept + [L]] if maxm else lb
    else:
        want = []
        for f in fs:
            v = np.full(f.shape, -1, dtype=np.int8)
            v[:, kept] = f[:, kept]
            want.append(v)
        want_ret = any(not np.array_equal(a, b) for a, b in zip(want, fs))
        want_marks, want_lb = case['marks'], lb
    for i, (f, v, mark) in enumerate(zip(layer.factors, want, want_marks)):
        if not np.array_equal(f(), v):
            raise Violation('%s factor %d after clean-up (%s): kept dimensions should be %s, got '
                            'shape %s of %s: %s' % (layer.model, i, case['mode'], kept, f().shape,
                                                    fs[i].shape, f().tolist()))
        if f().dtype != np.int8:
            raise Violation('clean-up changed the type of a factor to %s' % f().dtype)
        if not np.array_equal(f.fixed_entries, mark):
            raise Violation('factor %d: fixed entry marks did not move along (%s)' % (i, case['mode']))
    if not np.array_equal(layer.lbda(), want_lb):
        raise Violation('clean-up (%s): reliabilities/lambda became %s instead of %s' % (
            case['mode'], np.asarray(layer.lbda()).tolist(), np.asarray(want_lb).tolist()))
    if layer.size != (len(kept) if clean else L):
        raise Violation('layer size %d after clean-up' % layer.size)
    if bool(ret) != want_ret:
        raise Violation('clean-up (%s) returned %s although %s dimensions were redundant' % (
            case['mode'], ret, L - len(kept)))
    if case['other'] and any(not np.array_equal(f(), v) for f, v in zip(other.factors, ov)):
        raise Violation('clean-up of one layer changed another')
    # nothing more to do
    before = [f().copy() for f in layer.factors]
    if aux.clean_up_codes(layer, reset=not clean, clean=True):
        raise Violation('a second clean-up (%s) found something to do' % case['mode'])
    if any(not np.array_equal(f(), v) for f, v in zip(layer.factors, before)):
        raise Violation('a second clean-up changed the factors')
    info.nontrivial = len(kept) < L
    info.label(case['mode'], 'kept %d' % len(kept), 'max' if maxm else 'logical')


@st.composite
def large_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.sampled_from([2, 3, 4, 20, 70, 140]))
    return {'K': K, 'L': L, 'shape': draw(st.lists(st.sampled_from([2, 127, 128, 129, 256, 257, 300, 513, 40]),
                                                   min_size=K, max_size=K)),
            'model': draw(st.sampled_from(gen.IMPL + (['MAX-AND'] * 2 if K == 2 else []))),
            'mode': draw(st.sampled_from(['clean', 'clean', 'reset', 'both'])),
            'density': draw(st.sampled_from([.5, .02, .98])), 'seed': draw(gen.seeds),
            'plan': draw(st.lists(st.tuples(
                st.sampled_from(['off', 'off but one', 'on', 'same', 'same but one', 'opposite']),
                st.integers(0, 2), st.integers(0, 10**6), st.integers(0, 10**6), st.integers(0, 10**6)),
                max_size=6)), 'lseed': draw(gen.seeds)}


def large(case, info):
    """long columns and many dimensions; near misses of redundancy"""
    L = case['L']
    fs = [gen.seeded_signs([case['seed'], i], (n, L), case['density'])
          for i, n in enumerate(case['shape'])]
    for f in fs:      # otherwise active
        f[0, :], f[-1, :] = 1, np.where(np.arange(L) % 2, 1, -1)
    for what, k, a, b, n in case['plan']:
        f = fs[k % len(fs)]
        a, b, n = a % L, b % L, n % len(f)
        if what.startswith('off'):
            f[:, a] = -1
        elif what == 'on':
            f[:, a] = 1
        elif what == 'opposite':
            f[:, a] = -f[:, b]
        else:
            f[:, a] = f[:, b]
        if what.endswith('but one'):
            f[n, a] *= -1
    rng = np.random.default_rng(case['lseed'])
    direct({'factors': fs, 'model': case['model'], 'mode': case['mode'],
            'marks': [(rng.random(f.shape) < .3).astype(np.int8) for f in fs],
            'lbda': np.linspace(.9, .1, L + 1)[rng.permutation(L + 1)], 'other': False}, info)


@st.composite
def run_case(draw):
    layers = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        K = draw(st.sampled_from([2, 2, 3]))
        L = draw(st.integers(1, 5))
        fs = draw(redundant_factors(K, L, draw(st.sampled_from([1, 3])), 8 if K == 2 else 4))
        layers.append({
            'factors': fs, 'X': draw(gen.data([f.shape[0] for f in fs])),
            'model': draw(st.sampled_from(gen.IMPL + (['MAX-AND'] * 5 if K == 2 else []))),
            'auto': draw(st.sampled_from(['clean', 'clean', 'reset', 'both', 'none'])),
            'fix': draw(st.sampled_from([0, 0, 0, 1, 2])), 'fixl': draw(st.sampled_from([False, False, True])),
            'marks': draw(st.sampled_from([0, 0, 1, 2]))})
    return {'layers': layers, 'seed': draw(gen.seeds), 'window': draw(st.integers(2, 5)),
            'eps': draw(st.sampled_from([1e6, 1e6, .1, .01])), 'min': draw(st.integers(0, 4)),
            'max': draw(st.sampled_from([0, 3, 30, 60, 60])), 'n': draw(st.sampled_from([0, 0, 0, 2, 3])),
            'again': draw(st.booleans()), 'anneal': draw(st.sampled_from([False, False, True]))}


def consistent(layer, spec, what):
    L = layer.size
    for i, f in enumerate(layer.factors):
        if f().shape != (spec['factors'][i].shape[0], L):
            raise Violation('%s: factor %d has shape %s, the layer size is %d' % (
                what, i, f().shape, L))
        if f.fixed_entries.shape != f().shape:
            raise Violation('%s: marks of shape %s for a factor of shape %s' % (
                what, f.fixed_entries.shape, f().shape))
        if not np.all(np.abs(f()) == 1):
            raise Violation('%s: factor entries left -1/1' % what)
    if layer.model == 'MAX-AND' and np.shape(layer.lbda()) != (L + 1,):
        raise Violation('%s: %s reliabilities for %d dimensions' % (what, np.shape(layer.lbda()), L))


def run(case, info):
    np.random.seed(case['seed'])
    m = lom.Machine()
    m.anneal = case['anneal'] and not any(s['model'] == 'MAX-AND' for s in case['layers'])
    layers = []
    for s in case['layers']:
        data = m.add_matrix(s['X'].copy(), fixed=True)
        layer = m.add_layer(latent_size=s['factors'][0].shape[1], child=data, model=s['model'])
        for i, (f, v) in enumerate(zip(layer.factors, s['factors'])):
            f.val = gen.lay(v, i)
            f.fixed = s['fix'] == i + 1
            if s['marks'] == i + 1:
                f.fixed_entries[:, -1] = 1
        layer.auto_clean = s['auto'] in ('clean', 'both')
        layer.auto_reset = s['auto'] in ('reset', 'both')
        layer.lbda.fixed = s['fixl']
        layers.append(layer)
    total = sum(l.size for l in layers)
    dead = 0
    for call in range(2 if case['again'] else 1):
        m.infer(no_samples=case['n'], convergence_window=case['window'],
                convergence_eps=case['eps'], burn_in_min=min(case['min'], case['max']),
                burn_in_max=case['max'])
        converged = m.burn_in_iters < case['max']
        info.label('converged' if converged else 'not converged')
        for layer, s in zip(layers, case['layers']):
            what = '%s auto %s' % (layer.model, s['auto'])
            consistent(layer, s, what)
            if s['auto'] == 'none' and layer.size != s['factors'][0].shape[1]:
                raise Violation('a layer without automatic clean-up lost dimensions')
            if s['auto'] in ('reset', 'both') and converged and \
                    call == 0 and layer.size != s['factors'][0].shape[1]:
                raise Violation('%s: dimensions were removed instead of reset' % what)
            fs = [f() for f in layer.factors]
            if case['n'] == 0 and converged and s['auto'] != 'none':
                kept = kept_dimensions(fs)
                rest = [l for l in range(layer.size) if l not in kept]
                if s['auto'] == 'clean' and rest:
                    raise Violation('%s: converged after %d sweeps with redundant dimensions %s' % (
                        what, m.burn_in_iters, rest))
                for l in rest:
                    if any(np.any(f[:, l] != -1) for f in fs):
                        raise Violation('%s: converged with redundant dimension %d still active' % (
                            what, l))
                dead += len(rest)
            for f in layer.factors:
                if not f.fixed and case['n']:
                    if f.trace.shape != (case['n'],) + f().shape or \
                            not np.array_equal(f.trace[-1], f()):
                        raise Violation('%s: records do not fit the cleaned factors' % what)
            if case['n'] and layer.size:
                layer.output(technique='factor_map')
    now = sum(l.size for l in layers)
    info.nontrivial = converged and (now < total or dead > 0)
    info.label('removed' if now < total else 'same size')
    if dead:
        info.label('deactivated')


@st.composite
def stacked_case(draw):
    """layers on top of the factors of the cleaned layer, and on top of these"""
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 6))
    base = draw(redundant_factors(K, L, 2, 6))
    ups = []
    for _ in range(draw(st.integers(1, 4))):
        ups.append({'on': draw(st.integers(0, 20)), 'model': draw(st.sampled_from(
            gen.IMPL + ['MAX-AND', 'qL-AND'])), 'L': draw(st.integers(1, 4)), 'seed': draw(gen.seeds),
            'auto': draw(st.booleans())})
    return {'base': base, 'model': draw(st.sampled_from(gen.IMPL + (['MAX-AND'] if K == 2 else []))),
            'ups': ups, 'mode': draw(st.sampled_from(['clean', 'clean', 'clean', 'reset'])),
            'run': draw(st.sampled_from(['', '', 'fixed', 'fixed', 'free'])), 'X': draw(gen.data([f.shape[0] for f in base])),
            'seed': draw(gen.seeds), 'n': draw(st.integers(0, 2))}


def state(layers):
    """values and marks of all matrices of the layers"""
    out = []
    for l in layers:
        out.append([(x().copy(), x.fixed_entries.copy())
                    for x in list(l.factors) + ([l.q] if l.model == 'qL-AND' else [])])
    return out


def stacked(case, info):
    np.random.seed(case['seed'])
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    run = case['run'] != ''
    L = case['base'][0].shape[1]
    layers = [m.add_layer(latent_size=L, child=data, model=case['model'] if not run else 'OR-AND')]
    where = [None]
    for u in case['ups']:
        mats = [f for l in layers for f in l.factors if len(f.parents) < (1 if run and l.dimensionality == 3 else 2)]
        child = mats[u['on'] % len(mats)]
        special = run or child.layer.model in ('MAX-AND', 'qL-AND')
        layers.append(m.add_layer(latent_size=u['L'], child=child, model='OR-AND' if (
            special and u['model'] in ('MAX-AND', 'qL-AND')) else u['model']))
        where.append(child)
    rng = np.random.default_rng(case['seed'])
    for l in layers:
        for f in l.factors:
            f.val = (2 * rng.integers(0, 2, f().shape) - 1).astype(np.int8)
            if not run:
                f.fixed_entries = rng.integers(0, 2, f().shape).astype(np.int8)
        if l.model == 'qL-AND':
            l.q.val = rng.integers(1, 6, l.q().shape).astype(np.int8)
            l.q.fixed_entries = rng.integers(0, 2, l.q().shape).astype(np.int8)
    for f, v in zip(layers[0].factors, case['base']):
        f.val = gen.lay(v)
    base = layers[0]
    if case['run'] == 'free':
        for l, u in zip(layers, [{'auto': True}] + case['ups']):
            l.auto_clean = u['auto'] and case['mode'] == 'clean'
            l.auto_reset = u['auto'] and case['mode'] != 'clean'
        m.infer(no_samples=case['n'], burn_in_min=0, burn_in_max=12, convergence_window=2,
                convergence_eps=1e6 if case['seed'] % 2 else .05)
        for i, l in enumerate(layers):
            if tuple(f().shape for f in l.factors) != tuple(
                    (n, l.size) for n in (data if i == 0 else where[i])().shape):
                raise Violation('layer %d has factors of shapes %s for a child of shape %s after inference'
                                % (i, [f().shape for f in l.factors], l.child().shape))
            if any(f.fixed_entries.shape != f().shape for f in l.factors):
                raise Violation('marks of layer %d do not fit after inference' % i)
        info.nontrivial = base.size < L and any(f.parents for f in base.factors)
        info.label('free', 'size %d' % base.size)
        return
    if run:
        # everything stacked is fixed: after the clean-up it must be what belongs to the kept dimensions
        for l in layers[1:]:
            for f in l.factors:
                f.fixed = True
            l.lbda.fixed = True
        for f in base.factors:
            f.fixed_entries = np.ones(f().shape, dtype=np.int8)
        base.lbda.fixed = True
        base.auto_clean = case['mode'] == 'clean'
        base.auto_reset = not base.auto_clean
    else:
        lb = [np.array(l.lbda(), copy=True) for l in layers]
    before = state(layers)
    kept = kept_dimensions([f() for f in base.factors])
    if run:
        m.infer(no_samples=case['n'], burn_in_min=0, burn_in_max=12, convergence_window=2)
    else:
        aux.clean_up_codes(base, reset=case['mode'] == 'reset', clean=True)
    after = state(layers)
    # what a matrix looks like if these rows and columns of it are left
    lost = {}

    def expect(mat, rows, cols):
        lost[id(mat)] = (rows, cols)
        for p in mat.parents:
            expect(p.factors[0], rows, None)
            expect(p.factors[1], cols, None)
            if p.model == 'qL-AND':
                expect(p.q, None, cols)
    for f in base.factors:
        expect(f, None, kept if case['mode'] == 'clean' else None)
    for i, l in enumerate(layers):
        mats = list(l.factors) + ([l.q] if l.model == 'qL-AND' else [])
        for k, (x, old, new) in enumerate(zip(mats, before[i], after[i])):
            rows, cols = lost[id(x)]
            for what, a, b in zip(('values', 'marks'), old, new):
                if case['mode'] == 'reset' and i == 0 and what == 'values':
                    continue
                w = a if rows is None else a[rows]
                w = w if cols is None else w[:, cols]
                if not np.array_equal(w, b):
                    raise Violation('%s of matrix %d of layer %d (%s) do not fit the dimensions %s of '
                                    'the cleaned layer that are left: %s instead of %s' % (
                                        what, k, i, l.model, kept, b.tolist(), w.tolist()))
        if i and tuple(f().shape[0] for f in l.factors) != where[i]().shape:
            raise Violation('layer %d does not fit its child after clean-up' % i)
        if not run and i and not np.array_equal(l.lbda(), lb[i]):
            raise Violation('the lambda of a layer on top changed')
    info.nontrivial = len(kept) < L and len(base.factors[0].parents + base.factors[1].parents) > 0
    info.label(case['mode'], case['run'] or 'direct', 'kept %d' % len(kept))


SUBS = [
    Sub('stacked', stacked_case(), stacked, 3000, 60000,
        what='layers stacked on the cleaned layer follow its dimensions'),
    Sub('direct', direct_case(), direct, 6000, 150000, what='direct clean-up calls, exact result'),
    Sub('large', large_case(), large, 480, 9000, what='hundreds of rows, up to 140 dimensions'),
    Sub('run', run_case(), run, 2400, 60000, what='automatic clean-up in inference'),
]
