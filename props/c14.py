"""C14 Max model reliabilities are greedy smoothed hit rates"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, ref
from harness.core import Sub, Violation
from harness.sample import fix_all, sweep, warm

RULE = ('random data with missing entries and factors (empty, identical and overlapping '
        'dimensions); non-trivial: at least two dimensions share a covered observed entry, or the '
        'background is capped')


def compare(got, case, info, what, X=None, fs=None):
    X = case['X'] if X is None else X
    Z, U = case['factors'] if fs is None else fs
    want = ref.max_lbda(Z, U, X)
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: %s reliabilities for %d dimensions' % (what, got.shape, Z.shape[1]))
    bad = ~(np.abs(got - want) <= 1e-12)
    if bad.any():
        l = int(np.argmax(bad))
        raise Violation('%s: reliability %d of %d is %.12g, the greedy rates give %.12g' % (
            what, l, len(want) - 1, got[l], want[l]))
    if not (np.all(got > 0) and np.all(got < 1)):
        raise Violation('%s: reliability outside (0,1)' % what)
    return want


@st.composite
def fixed_case(draw):
    L = draw(st.integers(1, 6))
    shape = draw(gen.dims(2, 1, 8))
    fs = []
    for n in shape:
        f = draw(gen.signs((n, L), ('half', 'half', 'sparse', 'dense')))
        fs.append(f)
    kind = draw(st.sampled_from(['any', 'any', 'empty', 'twin', 'nested']))
    a, b = draw(st.integers(0, L - 1)), draw(st.integers(0, L - 1))
    if kind == 'empty':
        fs[a % 2][:, a] = -1
    elif kind == 'twin':
        for f in fs:
            f[:, a] = f[:, b]
    elif kind == 'nested' and a != b:
        for f in fs:
            f[:, a] = np.minimum(f[:, a], f[:, b])
    data = draw(st.sampled_from(['random', 'random', 'explained', 'noisy']))
    X = draw(gen.data(shape))
    if data != 'random':
        hit = ref.max_product(fs[0], fs[1], np.r_[np.ones(L), 0.]) > .5
        Y = np.where(hit, 1, -1)
        if data == 'noisy':
            Y = np.where(X == 1, -Y, Y)
        X = np.where(X == 0, 0, Y).astype(np.int8)
    return {'X': X, 'factors': fs, 'kind': kind,
            'start': draw(st.sampled_from([None, 'high', 'low'])),
            'sweeps': draw(st.integers(1, 3)), 'trace': draw(st.booleans())}


def machine(X, fs):
    m = lom.Machine()
    data = m.add_matrix(np.array(X, dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=fs[0].shape[1], child=data, model='MAX-AND')
    for f, v in zip(layer.factors, fs):
        f.val = gen.lay(v)
    fix_all(m)
    layer.lbda.fixed = False
    return m, layer, data


def fixed(case, info):
    m, layer, data = machine(case['X'], case['factors'])
    L = layer.size
    if case['start'] == 'high':
        layer.lbda.val = np.full(L + 1, .99)
    elif case['start'] == 'low':
        layer.lbda.val = np.full(L + 1, .01)
    warm(m)
    sweep(m, case['sweeps'])
    want = compare(layer.lbda(), case, info, 'factors fixed')
    for t in range(case['sweeps']):
        compare(layer.lbda.trace[t], case, info, 'record %d' % t)
    for f, v in zip(layer.factors, case['factors']):
        if not np.array_equal(f(), v):
            raise Violation('a fixed factor changed')
    if not np.array_equal(data(), case['X']):
        raise Violation('updating the reliabilities changed the data')
    Z, U = case['factors']
    cover = ((Z[:, None, :] == 1) & (U[None] == 1)).sum(axis=2)
    info.nontrivial = bool(np.any((cover > 1) & (case['X'] != 0))) or want[-1] == want[:-1].min()
    info.label(case['kind'], 'overlap' if (cover > 1).any() else 'no overlap',
               'capped' if want[-1] == want[:-1].min() else 'background below',
               'ties' if len(set(want[:-1])) < L else 'distinct')


@st.composite
def run_case(draw):
    return {'X': draw(gen.data([draw(st.integers(1, 9)), draw(st.integers(1, 9))])),
            'L': draw(st.integers(1, 5)), 'seed': draw(gen.seeds), 'n': draw(st.integers(1, 5)),
            'burn': draw(st.integers(0, 4)), 'fix': draw(st.integers(0, 2)),
            'min': draw(st.integers(0, 3)), 'dens': draw(st.sampled_from([.5, .2, .8]))}


def run(case, info):
    """every recorded reliability vector belongs to the recorded factors"""
    np.random.seed(case['seed'])
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    layer = m.add_layer(latent_size=case['L'], child=data, model='MAX-AND')
    for i, f in enumerate(layer.factors):
        f.val = gen.seeded_signs([case['seed'], i], f().shape, case['dens'])
    if case['fix']:
        layer.factors[case['fix'] - 1].fixed = True
    warm(m)
    m.infer(no_samples=case['n'], burn_in_min=min(case['min'], case['burn']),
            burn_in_max=case['burn'])
    fs = [f() for f in layer.factors]
    compare(layer.lbda(), case, info, 'after a run', fs=fs)
    for t in range(case['n']):
        rec = [f() if f.fixed else f.trace[t] for f in layer.factors]
        compare(layer.lbda.trace[t], case, info, 'record %d' % t, fs=rec)
    info.nontrivial = case['L'] > 1


@st.composite
def large_case(draw):
    return {'shape': [draw(st.integers(20, 400)), draw(st.integers(20, 400))],
            'L': draw(st.sampled_from([2, 5, 20, 150])), 'seed': draw(gen.seeds),
            'dens': draw(st.sampled_from([.5, .1, .9])), 'missing': draw(st.sampled_from([0., .5])),
            'flip': draw(st.sampled_from([.5, .1, 0.]))}


def large(case, info):
    rng = np.random.default_rng([case['seed'], 3])
    fs = [gen.seeded_signs([case['seed'], i], (n, case['L']), case['dens'])
          for i, n in enumerate(case['shape'])]
    hit = ref.max_product(fs[0], fs[1], np.r_[np.ones(case['L']), 0.]) > .5
    X = np.where(hit ^ (rng.random(hit.shape) < case['flip']), 1, -1)
    X[rng.random(hit.shape) < case['missing']] = 0
    m, layer, data = machine(X, fs)
    sweep(m)
    compare(layer.lbda(), case, info, '%s, %d dimensions' % (case['shape'], case['L']), X=X, fs=fs)
    info.label('L=%d' % case['L'])


SUBS = [
    Sub('fixed', fixed_case(), fixed, 5000, 120000, what='factors fixed, exact greedy rates'),
    Sub('run', run_case(), run, 1600, 40000, what='moving factors, every record'),
    Sub('large', large_case(), large, 32, 800, what='up to 160000 data entries, 150 dimensions'),
]
