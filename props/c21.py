"""C21 Experiment drivers report what the fitted machine predicts"""
import multiprocessing

import numpy as np
from hypothesis import strategies as st

import lom
import lom.auxiliary_functions as aux
import lom.experiments as ex
from harness import gen, ref
from harness.core import Sub, Violation

RULE = ('small random data sets with missing entries, masks, all 36 model names, latent sizes, '
        'lambdas; grids of models, sizes and repetitions; non-trivial: the predictions for the '
        'held-out entries are not all equal, or the grid has more than one combination')

ASSUMPTIONS = ['the process pool of the grid search is replaced by a serial one with the same interface '
               '(sub pool: real processes, without inference)']


class SerialPool:
    """stands in for multiprocessing.Pool"""

    def __init__(self, *a, **k):
        pass

    def map(self, f, seq, *a, **k):
        return [f(x) for x in seq]

    imap = imap_unordered = map

    def starmap(self, f, seq, *a, **k):
        return [f(*x) for x in seq]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class patched:
    def __init__(self, obj, **new):
        self.obj, self.new = obj, new

    def __enter__(self):
        self.old = {k: getattr(self.obj, k) for k in self.new}
        for k, v in self.new.items():
            setattr(self.obj, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.obj, k, v)


# equivalent implemented model and inversions, by enumeration of all products

def canonical(name, K):
    """(model, invert data): with factors of the implemented model as they are, or inverted"""
    m = lom.Machine()
    d = m.add_matrix(np.ones([2] * K, dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=1, child=d, model=name)
    return layer.model, bool(np.all(d() == -1))


def structured(seed, shape, L, name, noise, missing=0.):
    """a noisy product of the model at balanced density"""
    rng = np.random.default_rng([seed, 21])
    f = ref.tuned_density(name, len(shape), L)
    X = ref.product([gen.seeded_signs([seed, i], (n, L), f) for i, n in enumerate(shape)], name)
    X = np.where(rng.random(X.shape) < noise, -X, X)
    X[rng.random(X.shape) < missing] = 0
    return X.astype(np.int8)


@st.composite
def predict_case(draw, anneal):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 3))
    name = draw(st.sampled_from(gen.ALL36))
    seed = draw(gen.seeds)
    if draw(st.integers(0, 3)) == 0:
        shape = draw(gen.dims(K, 2, 7 if K == 2 else 3))
        X = draw(gen.data(shape, ('none', 'none', 'some')))
        mask = draw(gen.bits(shape, ('sparse', 'half')))
    else:
        shape = draw(gen.dims(K, 6, 12)) if K == 2 else draw(gen.dims(K, 3, 5))
        X = structured(seed, shape, L, name, draw(st.sampled_from([0., .05, .2])),
                       draw(st.sampled_from([0., .2])))
        mask = (np.random.default_rng(seed).random(shape) < .25).astype(np.int8)
    return {'X': X, 'mask': mask, 'model': name, 'L': L,
            'seed': seed, 'lbda': draw(st.sampled_from([.1, .5, 2.])), 'anneal': anneal,
            'ret': draw(st.sampled_from([True, True, False]))}


def predict(case, info):
    X = case['X']
    mask = (case['mask'] == 1) & (X != 0)
    if not mask.any():
        mask = X != 0
        if not mask.any():
            info.nontrivial = False
            return
    train = X.copy()
    train[mask] = 0
    Xa, ta, ma = X.copy(), train.copy(), mask.copy()
    np.random.seed(case['seed'])
    args = (Xa, ta, ma, case['model'], case['L'], 0, case['lbda'], case['anneal'])
    out = ex.LOM_predictive(args, return_machine=True)
    for a, b, what in ((Xa, X, 'data'), (ta, train, 'training data'), (ma, mask, 'mask')):
        if not np.array_equal(a, b):
            raise Violation('%s: the experiment altered the %s of the caller' % (case['model'], what))
    (acc, name, L), means = out
    if name != case['model'] or L != case['L']:
        raise Violation('experiment on %s with %d dimensions reports %s, %s' % (
            case['model'], case['L'], name, L))
    if len(means) != X.ndim or any(np.shape(f) != (n, L) for f, n in zip(means, X.shape)):
        raise Violation('factor means have shapes %s' % [np.shape(f) for f in means])
    if any(np.abs(f).max() > 1 for f in means):
        raise Violation('a factor mean is outside [-1,1]')
    model, inv = canonical(case['model'], X.ndim)
    p = ref.fuzzy_product([(np.asarray(f, dtype=float) + 1) / 2 for f in means], model)[mask]
    truth = (-X[mask] if inv else X[mask]) == 1
    hit = (p > .5) == truth
    tie = np.abs(p - .5) < 1e-7
    lo, hi = np.mean(hit & ~tie), np.mean(hit | tie)
    if not lo - 1e-9 <= acc <= hi + 1e-9:
        raise Violation('%s (fitted as %s%s): reported accuracy %.6g on %d held-out entries, the '
                        'returned factor means give %.6g' % (
                            case['model'], model, ', inverted data' if inv else '', acc,
                            mask.sum(), np.mean(hit)))
    if not case['ret']:
        np.random.seed(case['seed'])
        short = ex.LOM_predictive(args, return_machine=False)
        if short[0] != acc or list(short[1:]) != [name, L]:
            raise Violation('the short result %s differs from %s' % (short, out[0]))
    info.nontrivial = bool(len(set(p > .5)) > 1)
    info.label('inverted' if inv else 'as is', 'K=%d' % X.ndim)


@st.composite
def fits_case(draw, anneal):
    K = draw(st.sampled_from([2, 2, 3]))
    shape = draw(gen.dims(K, 9, 12)) if K == 2 else draw(gen.dims(K, 5, 6))
    return {'shape': list(shape), 'model': draw(st.sampled_from(gen.ALL36)),
            'kind': draw(st.sampled_from(['planted', 'constant'])),
            'lbda': draw(st.sampled_from([.5, 1.])), 'seed': draw(gen.seeds), 'anneal': anneal}


def fits(case, info):
    """one noise-free latent dimension: the held-out entries are implied by the training data"""
    shape, name = case['shape'], case['model']
    acc = []
    for rep in range(1 if case['kind'] == 'constant' else 4):
        rng = np.random.default_rng([case['seed'], rep, 8])
        if case['kind'] == 'constant':
            f = [np.ones((n, 1), dtype=np.int8) for n in shape]
        else:
            # far from constant
            f = [np.where(rng.permutation(n) < .7 * n, 1, -1)[:, None].astype(np.int8)
                 for n in shape]
        X = ref.product(f, name).astype(np.int8)
        mask = rng.random(X.shape) < .15
        mask.flat[0] |= not mask.any()
        train = X.copy()
        train[mask] = 0
        np.random.seed((case['seed'] + rep) % 2 ** 32)
        acc.append(ex.LOM_predictive((X, train, mask, name, 1, 0, case['lbda'], case['anneal']))[0][0])
    # without fitting: .55 on average; with it .99, a single run in thousands below .7
    if np.mean(acc) < (1 if case['kind'] == 'constant' else .75):
        raise Violation('%s, noise-free %s data: %.3g of the held-out entries are predicted' % (
            name, case['kind'], np.mean(acc)))
    info.label(case['kind'])


@st.composite
def tensor_case(draw):
    L = draw(st.integers(1, 2))
    seed = draw(gen.seeds)
    if draw(st.integers(0, 2)) == 0:
        X = draw(gen.signs(draw(gen.dims(3, 1, 3))))
    else:
        X = structured(seed, draw(gen.dims(3, 2, 5)), L, 'OR-AND', draw(st.sampled_from([0., .1])))
    return {'X': X, 'coding': draw(st.sampled_from(['0/1', '-1/1'])), 'L': L, 'seed': seed,
            'dtype': draw(st.sampled_from(['int8', 'int8', 'int64', 'float64', 'bool']))}


def tensor(case, info):
    X = case['X']
    dtype = case['dtype']
    coding = case['coding']
    if dtype == 'bool':
        coding = '0/1'
    arg = ((X + 1) // 2 if coding == '0/1' else X).astype(dtype)
    keep = arg.copy()
    np.random.seed(case['seed'])
    recon, means, plugin = ex.tensorm_reconstruct(arg, case['L'])
    if not np.array_equal(arg, keep):
        raise Violation('the tensor reconstruction altered the data of the caller')
    if len(means) != 3 or any(np.shape(f) != (n, case['L']) for f, n in zip(means, X.shape)):
        raise Violation('factor means have shapes %s' % [np.shape(f) for f in means])
    if any(np.abs(f).max() > 1 for f in means):
        raise Violation('a factor mean is outside [-1,1]')
    want = ref.fuzzy_product([(np.asarray(f, dtype=float) + 1) / 2 for f in means], 'OR-AND')
    if np.shape(recon) != X.shape or not np.all(np.abs(recon - want) <= 2e-6):
        raise Violation('the mean reconstruction differs from the one of the returned factor means')
    # a mean of exactly zero may be thresholded either way
    th = ref.product([np.where(np.asarray(f) > 0, 1, -1) for f in means], 'OR-AND') == 1
    if np.shape(plugin) != X.shape or not np.array_equal(np.asarray(plugin) > .5, th):
        raise Violation('the thresholded reconstruction differs from the one of the factor means')
    if not set(np.unique(plugin)) <= {0, 1}:
        raise Violation('thresholded reconstruction has values %s' % np.unique(plugin))
    np.random.seed(case['seed'])
    layer = ex.tensorm_reconstruct(arg, case['L'], return_layer=True)
    if not np.array_equal(layer.child(), X):
        raise Violation('%s data of type %s are fitted as %s' % (
            coding, dtype, np.unique(layer.child())))
    for f, g in zip(layer.factors, means):
        if not np.array_equal(f.mean(), g):
            raise Violation('the returned means are not those of the fitted layer')
    info.nontrivial = bool(want.max() > .5 > want.min())
    info.label(coding, dtype)


@st.composite
def grid_case(draw, real):
    seed = draw(gen.seeds)
    if real:
        X = structured(seed, draw(gen.dims(2, 8, 14)), 2, draw(st.sampled_from(gen.ALL36)), .1,
                       draw(st.sampled_from([0., .2])))
    else:
        shape = draw(gen.dims(2, 4, 9))
        X = draw(gen.signs(shape))
        if draw(st.booleans()):
            X = (X * (1 - draw(gen.bits(shape, ('sparse', 'half', 'dense'))))).astype(np.int8)
        if draw(st.integers(0, 5)) == 0:     # more than the share of missing entries
            X = np.where(np.random.default_rng(seed).random(X.shape) < .95, 0, X).astype(np.int8)
        if draw(st.integers(0, 3)) == 0:     # few of one class: the share must be lowered
            rare = draw(st.sampled_from([-1, 1]))
            keep = draw(st.integers(0, X.size - 1))
            X = np.where(X == rare, -rare, X)
            X.flat[keep] = rare
            X = X.astype(np.int8)
    names = draw(st.lists(st.sampled_from(gen.ALL36), min_size=1, max_size=2 if real else 4, unique=True))
    return {'X': X, 'machines': draw(st.sampled_from([names, names, names, None])) if not real else names,
            'L': draw(st.lists(st.integers(1, 4), min_size=1, max_size=2 if real else 3, unique=True)),
            'idx': draw(st.lists(st.integers(0, 9), min_size=1, max_size=2 if real else 3, unique=True)),
            'lbda': draw(st.sampled_from([.1, 1., .37])), 'balanced': draw(st.booleans()),
            'anneal': draw(st.booleans()) and not real, 'seed': seed}


def call_grid(case):
    kw = {'L_inits': list(case['L']), 'random_idxs': list(case['idx']), 'lbda_init': case['lbda'],
          'balanced': case['balanced'], 'anneal': case['anneal']}
    if case['machines'] is not None:
        kw['machines'] = list(case['machines'])
    X = case['X'].copy()
    with patched(multiprocessing, Pool=SerialPool):
        df, fs = ex.LOM_hyperparms_parallel_gridsearch(X, **kw)
    if not np.array_equal(X, case['X']):
        raise Violation('the grid search altered the data')
    return df, fs


def grid(case, info):
    if min(np.sum(case['X'] == 1), np.sum(case['X'] == -1)) < 1:
        info.nontrivial = False
        return
    if min(np.sum(case['X'] == 1), np.sum(case['X'] == -1)) < 1 + case['X'].size * .05:
        info.label('few of one class')
    if np.mean(case['X'] == 0) > .9:
        info.label('mostly missing')
    calls = []

    def accuracy(i):
        """the first run is all wrong, the second all right"""
        return 1. if i == 1 else i / 1000.

    def LOM_predictive(experiment, return_machine=True):
        X, X_train, mask, machine, L, idx, lbda, anneal = experiment
        calls.append((X.copy(), X_train.copy(), mask.copy(), machine, L, idx, lbda, anneal))
        acc = accuracy(len(calls) - 1)
        return [acc, machine, L], [np.full((n, L), acc) for n in X.shape]

    with patched(ex, LOM_predictive=LOM_predictive):
        np.random.seed(case['seed'])
        df, fs = call_grid(case)
    machines = case['machines'] if case['machines'] is not None else aux.canonical_loms()
    want = sorted((a, b, c) for a in machines for b in case['L'] for c in case['idx'])
    got = sorted((c[3], c[4], c[5]) for c in calls)
    if got != want:
        raise Violation('the grid search evaluates %d combinations %s, the grid has %d' % (
            len(got), got[:6], len(want)))
    for c in calls:
        if not np.array_equal(c[0], case['X']):
            raise Violation('an experiment gets other data')
        if not np.array_equal(c[1], calls[0][1]) or not np.array_equal(c[2], calls[0][2]):
            raise Violation('experiments of one grid search use different train/test splits')
        if c[6] != case['lbda'] or c[7] != case['anneal']:
            raise Violation('an experiment gets lambda %r, annealing %r instead of %r, %r' % (
                c[6], c[7], case['lbda'], case['anneal']))
    X, train, mask = calls[0][:3]
    if np.any(mask & (X == 0)) or np.any(train[mask] != 0) or np.any(train[~mask] != X[~mask]):
        raise Violation('the training data are not the data without the held-out entries')
    if case['balanced'] and np.sum(X[mask] == 1) != np.sum(X[mask] == -1):
        raise Violation('a balanced grid search holds out %d ones and %d minus-ones' % (
            np.sum(X[mask] == 1), np.sum(X[mask] == -1)))
    if list(df.columns) != ['test accuracy', 'LOM', 'L'] or len(df) != len(want) or len(fs) != len(want):
        raise Violation('the result has columns %s, %d rows and %d factor lists for %d combinations'
                        % (list(df.columns), len(df), len(fs), len(want)))
    for i in range(len(df)):
        r = df.iloc[i]
        f = fs[i]
        acc = r['test accuracy']
        k = [j for j in range(len(calls)) if accuracy(j) == acc]
        if not k or (r['LOM'], r['L']) != calls[k[0]][3:5] or any(
                np.shape(g) != (n, r['L']) or not np.all(np.asarray(g) == acc)
                for n, g in zip(X.shape, f)):
            raise Violation('row %d of the result does not belong to factors %d' % (i, i))
    info.nontrivial = len(want) > 1
    info.label('balanced' if case['balanced'] else 'unbalanced',
               'default models' if case['machines'] is None else 'given models')


def grid_real(case, info):
    """with the experiment itself: accuracies are those of one common set of held-out entries"""
    if min(np.sum(case['X'] == 1), np.sum(case['X'] == -1)) < 2 + case['X'].size * .05:
        info.nontrivial = False
        return
    seen = []
    orig = ex.LOM_predictive

    def LOM_predictive(experiment, *a, **k):
        seen.append([np.array(x) for x in experiment[:3]])
        return orig(experiment, *a, **k)

    with patched(ex, LOM_predictive=LOM_predictive):
        np.random.seed(case['seed'])
        df, fs = call_grid(case)
    for s in seen:
        for a, b in zip(s, seen[0]):
            if not np.array_equal(a, b):
                raise Violation('experiments of one grid search get different data or splits')
    mask = seen[0][2]
    if not mask.any():
        info.nontrivial = False
        return
    for i in range(len(df)):
        acc, name, L = df.iloc[i]
        if any(np.shape(f) != (n, L) for n, f in zip(case['X'].shape, fs[i])):
            raise Violation('grid search: row %d (%s with %d dimensions) comes with factors of shapes '
                            '%s' % (i, name, L, [np.shape(f) for f in fs[i]]))
        model, inv = canonical(name, 2)
        p = ref.fuzzy_product([(np.asarray(f, dtype=float) + 1) / 2 for f in fs[i]], model)[mask]
        truth = (-case['X'][mask] if inv else case['X'][mask]) == 1
        hit, tie = (p > .5) == truth, np.abs(p - .5) < 1e-7
        if not np.mean(hit & ~tie) - 1e-9 <= acc <= np.mean(hit | tie) + 1e-9:
            raise Violation('grid search: %s with %d dimensions reports accuracy %.6g, its factor '
                            'means give %.6g' % (name, L, acc, np.mean(hit)))
    info.nontrivial = len(df) > 1


@st.composite
def pool_case(draw):
    return {'X': draw(gen.signs(draw(gen.dims(2, 8, 12)))), 'seed': draw(gen.seeds),
            'machines': draw(st.lists(st.sampled_from(gen.ALL36), min_size=1, max_size=2, unique=True)),
            'L': draw(st.lists(st.integers(3, 6), min_size=1, max_size=2, unique=True)),
            'idx': draw(st.lists(st.integers(0, 9), min_size=2, max_size=4, unique=True)),
            'anneal': draw(st.booleans())}


def pool(case, info):
    """with real processes: repetitions start differently, and reproducibly; inference is left out,
    so that the results are the initial states"""
    if min(np.sum(case['X'] == 1), np.sum(case['X'] == -1)) < 8:
        info.nontrivial = False
        return
    runs = []
    real = multiprocessing.Pool
    # workers of the check are daemons, these must not have children by default
    conf = dict(multiprocessing.current_process()._config, daemon=False)
    with patched(lom.Machine, infer=lambda self, *a, **k: None), \
            patched(multiprocessing, Pool=lambda *a, **k: real(6)), \
            patched(multiprocessing.current_process(), _config=conf):
        for _ in range(2):
            np.random.seed(case['seed'])
            df, fs = ex.LOM_hyperparms_parallel_gridsearch(
                case['X'].copy(), machines=list(case['machines']), L_inits=list(case['L']),
                random_idxs=list(case['idx']), anneal=case['anneal'])
            runs.append((df, fs))
    df, fs = runs[0]
    n = len(case['machines']) * len(case['L']) * len(case['idx'])
    if len(df) != n or len(fs) != n:
        raise Violation('the grid has %d combinations, the result %d and %d' % (n, len(df), len(fs)))
    for i in range(n):
        for j in range(i):
            if all(np.shape(a) == np.shape(b) and np.array_equal(a, b) for a, b in zip(fs[i], fs[j])):
                raise Violation('runs %d and %d of the grid (%s with %d and %s with %d dimensions) start '
                                'from the same factors' % (j, i, df.iloc[j, 1], df.iloc[j, 2],
                                                           df.iloc[i, 1], df.iloc[i, 2]))
    if not runs[0][0].equals(runs[1][0]) or any(
            not np.array_equal(a, b) for f, g in zip(fs, runs[1][1]) for a, b in zip(f, g)):
        raise Violation('the same grid search under the same random stream gives another result')
    info.nontrivial = True


class _Started(Exception):
    pass


@st.composite
def settings_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    return {'X': draw(gen.data(draw(gen.dims(K, 2, 5)), ('none', 'none', 'some'))),
            'model': draw(st.sampled_from(gen.ALL36)), 'L': draw(st.integers(1, 12)),
            'seed': draw(gen.seeds), 'anneal': draw(st.booleans()),
            'lbda': draw(st.one_of(st.sampled_from([.1, .5, 2., 0., 10.]), st.floats(0., 30.)))}


def settings(case, info):
    """the machine as inference finds it"""
    X = case['X']
    mask = np.random.default_rng(case['seed']).random(X.shape) < .3
    mask &= X != 0
    train = np.where(mask, 0, X).astype(np.int8)
    seen = []

    def infer(self, *args, **kwargs):
        seen.append(self)
        raise _Started

    np.random.seed(case['seed'])
    with patched(lom.Machine, infer=infer):
        try:
            ex.LOM_predictive((X.copy(), train.copy(), mask.copy(), case['model'], case['L'], 0,
                               case['lbda'], case['anneal']))
        except _Started:
            pass
    if not seen:
        info.nontrivial = False
        info.label('no inference')
        return
    m = seen[0]
    model, inv = canonical(case['model'], X.ndim)
    what = 'experiment on %s with %d dimensions, lambda %g' % (case['model'], case['L'], case['lbda'])
    if len(m.layers) != 1:
        raise Violation('%s fits %d layers' % (what, len(m.layers)))
    layer = m.layers[0]
    if layer.model != model or layer.size != case['L']:
        raise Violation('%s fits a %s with %d dimensions' % (what, layer.model, layer.size))
    if not np.isclose(float(layer.lbda()), case['lbda'], rtol=1e-6, atol=1e-9) or layer.lbda.fixed:
        raise Violation('%s starts at lambda %g%s' % (
            what, float(layer.lbda()), ', fixed' if layer.lbda.fixed else ''))
    if bool(m.anneal) != case['anneal']:
        raise Violation('%s is %sannealed' % (what, '' if m.anneal else 'not '))
    if not np.array_equal(layer.child(), -train if inv else train):
        raise Violation('%s is fitted to other data than the training data' % what)
    if not layer.child.fixed or any(f.fixed is not False or np.any(f.fixed_entries) for f in layer.factors):
        raise Violation('%s: the data are sampled or the factors held fixed' % what)
    info.nontrivial = len(np.unique(train)) > 1
    info.label('annealed' if case['anneal'] else 'not annealed')


SUBS = [
    Sub('settings', settings_case(), settings, 400, 8000, what='model, size, lambda, annealing and data of the experiment'),
    Sub('pool', pool_case(), pool, 24, 300, what='grid search with real processes'),
    Sub('predict', predict_case(False), predict, 800, 16000, what='prediction experiment'),
    Sub('predict_anneal', predict_case(True), predict, 64, 1200, what='prediction experiment, annealed'),
    Sub('fits', fits_case(False), fits, 64, 1200, what='experiment on noise-free rank-1 data'),
    Sub('fits_anneal', fits_case(True), fits, 16, 160, what='the same, annealed'),
    Sub('tensor', tensor_case(), tensor, 120, 2400, what='tensor reconstruction driver'),
    Sub('grid', grid_case(False), grid, 800, 16000, what='grid search with a recording experiment'),
    Sub('grid_real', grid_case(True), grid_real, 64, 1200, what='grid search, real experiments'),
]
