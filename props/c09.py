"""C09 Burn-in and sampling follow the requested schedule"""
import contextlib

import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Skip, Sub, Violation
from harness.sample import warm

RULE = ('random machines with one to nine layers (logical and max models), random fixed flags and schedule parameters; '
        'sampling functions of free matrices and lambdas are replaced by recorders that follow a '
        'script, so that the order of updates and the convergence decision are known; non-trivial: '
        'at least three sweeps with at least one free lambda and one free matrix')


LENGTH = 420      # of the scripts


@contextlib.contextmanager
def garbage_empty():
    """np.empty returns garbage, so that reading unset entries shows"""
    real = np.empty

    def empty(*a, **k):
        out = real(*a, **k)
        if out.dtype.kind == 'f':
            out[...] = 4e4
        elif out.dtype.kind == 'i':
            out[...] = 77
        return out
    np.empty = empty
    try:
        yield
    finally:
        np.empty = real


@st.composite
def schedule_case(draw, anneal):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 5, 9]))
    bmin = draw(st.integers(0 if not anneal else 1, 14))
    # long windows need long burn-in periods
    long = n <= 2 and draw(st.sampled_from([False] * 7 + [True]))
    slow = n <= 2 and not long and draw(st.sampled_from([False] * 7 + [True]))
    if slow:
        bmin = draw(st.integers(30, 260))
    return {'layers': n, 'stack': draw(st.booleans()), 'anneal': anneal,
            'fixm': draw(st.sampled_from([0, 0, 0, 1, 2, 5, 6, 63, 2**18 - 1, 2**9])),
            'fixl': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7, 511])),
            'max': draw(st.sampled_from([0, 0, 1, 2, 511])),
            'only': draw(st.sampled_from([-1, -1, 0, 1, 2])),
            'bmin': bmin, 'bmax': bmin + draw(st.integers(-5, 45)) if slow else
            draw(st.integers(60, 240)) if long else draw(
                st.one_of(st.integers(0, 45), st.just(bmin), st.integers(30, 60))),
            'window': draw(st.integers(20, 120) if long else st.integers(2, 9)),
            'eps': draw(st.sampled_from([.001, .01, .03, .1, .3])),
            'samples': draw(st.integers(0, 7)) if not slow else draw(st.sampled_from([1, 8, 90, 130, 205])),
            'fix_lbda_iters': 0 if anneal else draw(
                st.integers(0, bmin) if slow else st.sampled_from([0, 0, 1, 3, 5, 20])),
            'print_step': draw(st.sampled_from([1, 2, 3, 10, 1000])),
            'noise': [draw(st.integers(0, 150 if long else 50)) for _ in range(n)],
            'script': [draw(st.sampled_from(['levels', 'levels', 'drift', 'small', 'const']))
                       for _ in range(n)],
            'seed': draw(gen.seeds), 'lbda0': [draw(st.floats(.2, 5.)) for _ in range(n)],
            'calls': draw(st.sampled_from([1, 1, 2]))}


def make_script(kind, noise, rng, n):
    if kind == 'levels':
        x = rng.choice([0., .5, 1., 2., 3.], size=n)
    elif kind == 'drift':
        x = .02 * np.arange(n) + 0.
    elif kind == 'small':
        x = 1 + rng.choice([0., .05, -.05], size=n)
    else:
        x = np.full(n, 1.5)
    x[noise:] = x[noise - 1] if noise else 1.
    return x


def converged(vals, w, eps):
    """vals: the last w values of every free lambda"""
    out = True
    for v in vals:
        v = np.asarray(v, dtype=float)
        for c in range(v.shape[1]):
            x = v[:, c]
            d = abs(float(ref.sigmoid(x[:w // 2].mean())) - float(ref.sigmoid(x[w // 2:].mean())))
            if abs(d - eps) < 1e-5:
                raise Skip()
            out = out and d < eps
    return out


def columns(kind, noise, rng, n, width, only):
    """scripts of all components; `only` one of them (counted from the last) moves"""
    out = np.stack([make_script(kind, noise, rng, n) for _ in range(width)], axis=1)
    if only >= 0:
        for c in range(width):
            if c != width - 1 - only % width:
                out[:, c] = 1.5
    return out


def schedule(case, info):
    m = lom.Machine()
    X = gen.seeded_signs(case['seed'], (3, 4))
    child = m.add_matrix(X, fixed=True)
    layers = []
    for i in range(case['layers']):
        layers.append(m.add_layer(latent_size=2, child=child,
                                  model='MAX-AND' if case['max'] >> i & 1 else 'OR-AND'))
        if case['stack']:
            child = layers[-1].factors[0]
        else:
            child = m.add_matrix(X.copy(), fixed=True)
    facs = [f for l in layers for f in l.factors]
    for i, f in enumerate(facs):
        f.fixed = bool(case['fixm'] >> i & 1)
    rng = np.random.default_rng(case['seed'])
    log = []
    scripts, counts = [], []
    for i, l in enumerate(layers):
        l.lbda.fixed = bool(case['fixl'] >> i & 1)
        l.lbda.val = start_value(case, l, i)
    free_m = [i for i, f in enumerate(facs) if not f.fixed]
    free_l = [i for i, l in enumerate(layers) if not l.lbda.fixed]
    index = {id(f): i for i, f in enumerate(facs)}
    lindex = {id(l.lbda): i for i, l in enumerate(layers)}

    def mat_spy(mat):
        log.append(('m', index[id(mat)], [l.lbda.val for l in layers]))

    def lbda_spy(lb):
        i = lindex[id(lb)]
        v = scripts[i][min(counts[i], len(scripts[i]) - 1)]
        lb.val = v.copy() if len(v) > 1 else float(v[0])
        counts[i] += 1
        log.append(('l', i))

    m.anneal = case['anneal']
    for call in range(case['calls']):
        del log[:]
        scripts[:] = [columns(k, n, rng, LENGTH, 3 if l.model == 'MAX-AND' else 1,
                              case['only'] if l.model == 'MAX-AND' else -1)
                      for k, n, l in zip(case['script'], case['noise'], layers)]
        counts[:] = [0] * len(layers)
        if call:
            for i, l in enumerate(layers):
                l.lbda.val = start_value(case, l, i)
        for f in facs:
            f.sampling_fct = mat_spy
        for l in layers:
            l.lbda.sampling_fct = lbda_spy
        with garbage_empty():
            m.infer(no_samples=case['samples'], convergence_window=case['window'],
                    convergence_eps=case['eps'], burn_in_min=case['bmin'],
                    burn_in_max=case['bmax'], print_step=case['print_step'],
                    fix_lbda_iters=case['fix_lbda_iters'])
        verify(case, info, log, free_m, free_l, scripts, layers, facs, m)


def start_value(case, l, i):
    v = case['lbda0'][i]
    return v * np.array([.3, 1., .7]) if l.model == 'MAX-AND' else v


def verify(case, info, log, free_m, free_l, scripts, layers, facs, m):
    if not free_m and not free_l:
        info.nontrivial = False
        return
    bmin, w = case['bmin'], case['window']
    # reference: which sweeps update lambdas, when burn-in ends
    calls = 0
    plan = []                                 # number of lambda updates expected per sweep
    for i in range(1, bmin + 1):
        upd = i > case['fix_lbda_iters'] and not case['anneal']
        plan.append(upd)
        calls += upd
    post = 0
    early = False
    while bmin + post < case['bmax']:
        plan.append(True)
        post += 1
        calls += 1
        if post % w == 0:
            vals = [[scripts[i][min(calls - w + j, LENGTH - 1)] for j in range(w)] for i in free_l]
            if converged(vals, w, case['eps']):
                early = bmin + post < case['bmax']
                break
    burn = len(plan)
    plan += [True] * case['samples']
    info.label('layers=%d' % len(layers), 'max' if any(
        layers[i].model == 'MAX-AND' for i in free_l) else 'lom')
    info.label('early' if early else 'max', 'anneal' if case['anneal'] else 'plain')
    info.nontrivial = len(plan) > 2 and bool(free_m) and bool(free_l)
    # walk through the log
    pos = 0
    what = 'burn_in_min=%d burn_in_max=%d window=%d samples=%d fix_lbda_iters=%d' % (
        bmin, case['bmax'], w, case['samples'], case['fix_lbda_iters'])
    total = len(free_m) * len(plan) + len(free_l) * sum(plan)
    for s, upd in enumerate(plan):
        phase = 'burn-in' if s < burn else 'sampling'
        ms = log[pos:pos + len(free_m)]
        pos += len(free_m)
        if sorted(e[1] for e in ms if e[0] == 'm') != free_m:
            raise Violation('%s: %s sweep %d of %d planned: updates are %s instead of every free '
                            'matrix once %s (%d events, %d expected)' % (
                                what, phase, s + 1, len(plan), [e[:2] for e in ms], free_m,
                                len(log), total))
        if case['anneal'] and ms and 1 <= s <= bmin:
            for i in free_l:
                want = start_value(case, layers[i], i) * s / bmin
                got = ms[0][2][i]
                if np.shape(got) != np.shape(want) or np.any(np.abs(got - want) > 1e-9 * 5):
                    raise Violation('annealing: lambda is %s after sweep %d of %d, a linear rise '
                                    'to %s gives %s' % (got, s, bmin, start_value(
                                        case, layers[i], i), want))
        if upd:
            ls = log[pos:pos + len(free_l)]
            pos += len(free_l)
            if sorted(e[1] for e in ls if e[0] == 'l') != free_l:
                raise Violation('%s: %s sweep %d: after the matrices %s were updated instead of '
                                'every free lambda once %s' % (what, phase, s + 1,
                                                               [e[:2] for e in ls], free_l))
    if pos != len(log):
        raise Violation('%s: %d sweeps were planned, but there are %d further updates: %s' % (
            what, len(plan), len(log) - pos, [e[:2] for e in log[pos:pos + 6]]))
    if getattr(m, 'burn_in_iters', None) != burn:
        raise Violation('%s: burn_in_iters is %r after %d burn-in sweeps' % (
            what, getattr(m, 'burn_in_iters', None), burn))
    for i, l in enumerate(layers):
        if i in free_l:
            if case['anneal'] and burn == bmin and not case['samples'] and \
                    np.any(np.abs(l.lbda.val - start_value(case, l, i)) > 1e-9):
                raise Violation('annealing ended at %r instead of %r' % (
                    l.lbda.val, start_value(case, l, i)))
            if len(l.lbda.trace) != case['samples']:
                raise Violation('%d records of lambda, %d samples' % (
                    len(l.lbda.trace), case['samples']))
            n = sum(plan[:burn])
            want = [scripts[i][min(n + t, LENGTH - 1)] for t in range(case['samples'])]
            want = np.reshape(want, (case['samples'], 3) if l.model == 'MAX-AND' else
                              (case['samples'],))
            if np.shape(l.lbda.trace) != want.shape or not np.allclose(
                    l.lbda.trace, want, atol=1e-6):
                raise Violation('records of lambda are %s instead of %s' % (
                    l.lbda.trace.tolist(), want.tolist()))
        elif not np.array_equal(l.lbda.val, start_value(case, l, i)):
            raise Violation('a fixed lambda changed')
    for i in free_m:
        if len(facs[i].trace) != case['samples']:
            raise Violation('%d records of a matrix, %d samples' % (
                len(facs[i].trace), case['samples']))


@st.composite
def order_case(draw):
    return {'seed': draw(gen.seeds), 'n': draw(st.integers(2, 3)),
            'sweeps': draw(st.integers(2, 8)), 'model': draw(st.sampled_from(gen.IMPL)),
            'X': draw(gen.data([4, 3])), 'fixl': draw(st.integers(0, 3)),
            'bmin': draw(st.integers(0, 6))}


def order(case, info):
    """
    real updates: a run with burn-in equals a run whose first sweeps are recorded (the burn-in
    sweeps and the sampling sweeps are the same moves)
    """
    outs = []
    for split in (True, False):
        np.random.seed(case['seed'] % 2**32)
        m = lom.Machine()
        data = m.add_matrix(case['X'].copy(), fixed=True)
        l = m.add_layer(latent_size=2, child=data, model=case['model'])
        l.lbda.val = 1.
        b = case['bmin'] if split else 0
        warm(m)
        m.infer(no_samples=case['sweeps'] + case['bmin'] - b, burn_in_min=b, burn_in_max=b)
        outs.append((l.z().copy(), l.u().copy(), float(l.lbda())))
        if not split:
            moved = len(np.unique(l.z.trace, axis=0)) > 1
    info.nontrivial = bool(moved) and case['bmin'] > 0
    a, b = outs
    if not (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and a[2] == b[2]):
        raise Violation('%d burn-in and %d sampling sweeps end in another state than %d sampling '
                        'sweeps with the same random numbers' % (
                            case['bmin'], case['sweeps'], case['bmin'] + case['sweeps']))


@st.composite
def anneal_case(draw):
    return {'seed': draw(gen.seeds), 'X': draw(gen.data([3, 4])),
            'bmin': draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 80))),
            'lbda': draw(st.floats(.01, 20.)), 'model': draw(st.sampled_from(gen.IMPL)),
            'layers': draw(st.integers(1, 2)), 'fix': draw(st.booleans()),
            'calls': draw(st.integers(1, 2))}


def anneal(case, info):
    """with real updates: burn_in_max = burn_in_min and no samples, lambda ends where it started"""
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    l = m.add_layer(latent_size=2, child=data, model=case['model'])
    layers = [l]
    if case['layers'] == 2:
        layers.append(m.add_layer(latent_size=2, child=l.z, model='XOR-AND'))
    layers[-1].lbda.fixed = case['fix']
    for i, x in enumerate(layers):
        x.lbda.val = case['lbda'] * (i + 1)
    m.anneal = True
    warm(m)
    np.random.seed(case['seed'] % 2**32)
    for _ in range(case['calls']):
        m.infer(no_samples=0, burn_in_min=case['bmin'], burn_in_max=case['bmin'])
    for i, x in enumerate(layers):
        want = case['lbda'] * (i + 1)
        if abs(x.lbda() - want) > 1e-9 * want:
            raise Violation('lambda is %r at the end of annealing, it was given as %r' % (
                x.lbda(), want))


SUBS = [
    Sub('schedule', schedule_case(False), schedule, 3200, 80000,
        what='event log of scripted runs against a reference schedule'),
    Sub('annealed', schedule_case(True), schedule, 1200, 30000, what='the same with annealing'),
    Sub('order', order_case(), order, 600, 12000, what='burn-in sweeps are the same moves'),
    Sub('anneal', anneal_case(), anneal, 400, 8000, what='annealing ends at the given value'),
]
