"""C16 Synthetic data and noise generators do what they announce"""
import math

import numpy as np
from hypothesis import strategies as st

import lom.auxiliary_functions as aux
import lom.experiments as ex
from harness import gen, ref
from harness.core import Sub, Violation

RULE = ('random shapes, missing entries, rates (0, 1 and between), seeds, densities; frequencies are '
        'accepted within 6.5 standard deviations + 3 counts; non-trivial: a rate strictly between '
        '0 and 1 with at least 20 observed entries, or a structural check on a non-constant result')

Z = 6.5


def freq(count, n, p, what):
    if abs(count - n * p) > Z * math.sqrt(max(n * p * (1 - p), 0)) + 3 or \
            (p == 0 and count) or (p == 1 and count != n):
        raise Violation('%s: %d of %d, expected rate %.4f' % (what, count, n, p))


rate = st.one_of(st.sampled_from([0., 1., .5, .1, .3]), st.floats(0., 1., allow_nan=False))
seed_arg = st.one_of(st.none(), st.just(0), st.integers(0, 10**6))


@st.composite
def noise_case(draw, big):
    if big:
        shape = [draw(st.integers(20, 60)), draw(st.integers(20, 60))]
        d, miss = draw(st.sampled_from([.5, .2, .9])), draw(st.sampled_from([0., .3]))
        X = gen.seeded_data(draw(gen.seeds), shape, d, miss)
    else:
        X = draw(gen.data(draw(gen.dims(2, 1, 9))))
    layout = draw(st.sampled_from(['C', 'C', 'F', 'float', 'int64']))
    return {'X': X, 'p': draw(rate), 'p2': draw(rate), 'seed': draw(seed_arg),
            'biased': draw(st.booleans()), 'layout': layout}


def prepare(case):
    X = case['X']
    return {'C': lambda: X.copy(), 'F': lambda: np.asfortranarray(X),
            'float': lambda: X.astype(float), 'int64': lambda: X.astype(np.int64)}[case['layout']]()


def call(case, X):
    if case['biased']:
        return aux.add_bernoulli_noise_2d_biased(X, case['p'], case['p2'], seed=case['seed'])
    return aux.add_bernoulli_noise_2d(X, case['p'], seed=case['seed'])


def noise(case, info):
    X = prepare(case)
    keep = X.copy()
    name = 'class-dependent noise' if case['biased'] else 'noise'
    Y = call(case, X)
    if not np.array_equal(X, keep):
        raise Violation('%s altered its input' % name)
    if Y is X or np.shares_memory(Y, X):
        raise Violation('%s did not return a copy' % name)
    if Y.shape != X.shape or Y.dtype != X.dtype:
        raise Violation('%s returned shape %s type %s for %s %s' % (
            name, Y.shape, Y.dtype, X.shape, X.dtype))
    if np.any((Y != X) & (Y != -X)):
        raise Violation('%s: an entry is neither kept nor inverted' % name)
    if case['seed'] is not None:
        if not np.array_equal(Y, call(case, X)):
            raise Violation('%s with seed %r gives different results' % (name, case['seed']))
    F = (X != 0) & (Y == -X)
    obs = X != 0
    rates = {1: case['p'], -1: case['p2'] if case['biased'] else case['p']}
    for v in (1, -1):
        m = X == v
        freq(int(F[m].sum()), int(m.sum()), rates[v], '%s, inverted entries with value %d' % (name, v))
        if not case['biased']:
            # anywhere in the matrix
            for half in (np.s_[:X.shape[0] // 2], np.s_[X.shape[0] // 2:],
                         np.s_[:, :X.shape[1] // 2], np.s_[:, X.shape[1] // 2:]):
                freq(int(F[half][m[half]].sum()), int(m[half].sum()), rates[v],
                     '%s, inverted entries in part of the matrix' % name)
    P = np.where(X == 1, rates[1], rates[-1])
    # neighbours are inverted independently: centred products
    R = np.where(obs, F - P, 0.)
    V = np.where(obs, P * (1 - P), 0.)
    for a, b in (((slice(1, None), slice(None)), (slice(None, -1), slice(None))),
                 ((slice(None), slice(1, None)), (slice(None), slice(None, -1))),
                 ((slice(2, None), slice(None)), (slice(None, -2), slice(None))),
                 ((slice(None), slice(2, None)), (slice(None), slice(None, -2))),
                 ((slice(1, None), slice(1, None)), (slice(None, -1), slice(None, -1)))):
        c, v = float(np.sum(R[a] * R[b])), float(np.sum(V[a] * V[b]))
        if abs(c) > Z * math.sqrt(v) + 3:
            raise Violation('%s: neighbouring entries are not inverted independently '
                            '(sum of centred products %.1f, standard deviation %.1f)' % (
                                name, c, math.sqrt(v)))
    # row and column totals
    for ax in (0, 1):
        s, v = R.sum(axis=ax), V.sum(axis=ax)
        if np.any(np.abs(s) > Z * np.sqrt(v) + 3):
            raise Violation('%s: too many or too few inversions in one row or column' % name)
    info.nontrivial = int(obs.sum()) >= 20 and 0 < rates[1] < 1
    info.label(case['layout'], 'biased' if case['biased'] else 'plain',
               'seed' if case['seed'] is not None else 'no seed')


@st.composite
def seeds_case(draw):
    return {'shape': [draw(st.integers(12, 30)), draw(st.integers(12, 30))],
            'p': draw(st.floats(.3, .7)), 'a': draw(st.integers(0, 50)), 'b': draw(st.integers(0, 50)),
            'biased': draw(st.booleans()), 'xseed': draw(gen.seeds), 'pre': draw(gen.seeds)}


def seeds(case, info):
    X = gen.seeded_data(case['xseed'], case['shape'])
    f = (lambda s: aux.add_bernoulli_noise_2d_biased(X, case['p'], case['p'], seed=s)) \
        if case['biased'] else (lambda s: aux.add_bernoulli_noise_2d(X, case['p'], seed=s))
    np.random.seed(case['pre'])
    a = f(case['a'])
    np.random.seed((case['pre'] + 1) % 2**32)
    b = f(case['b'])
    np.random.rand(3)
    c = f(case['a'])
    if not np.array_equal(a, c):
        raise Violation('seed %d gives different results depending on the state of the random '
                        'number generator' % case['a'])
    if case['a'] != case['b'] and np.array_equal(a, b):
        raise Violation('seeds %d and %d give the same noise' % (case['a'], case['b']))
    # without a seed the noise follows the global generator
    np.random.seed(case['pre'])
    u = f(None)
    np.random.seed(case['pre'])
    if not np.array_equal(u, f(None)):
        raise Violation('unseeded noise is not a function of the global random state')
    # different states of it give different noise (each is one of at least hundreds of patterns)
    rng = np.random.default_rng(case['pre'])
    for g, what in ((lambda s: f(int(s)), 'seeds'), (unseeded(f), 'states of the random number generator')):
        many = {g(s).tobytes() for s in rng.choice(10**6, 40, replace=False)}
        if len(many) < 25:
            raise Violation('40 %s give %d different noise patterns' % (what, len(many)))
    info.nontrivial = case['a'] != case['b']


def unseeded(f):
    def g(s):
        np.random.seed(s)
        return f(None)
    return g


@st.composite
def tensor_noise_case(draw):
    return {'shape': draw(gen.dims(3, 1, 12)), 'p': draw(rate), 'seed': draw(gen.seeds),
            'd': draw(st.sampled_from([.5, .1, .9]))}


def tensor_noise(case, info):
    X = gen.seeded_signs(case['seed'], case['shape'], case['d']) == 1
    keep = X.copy()
    np.random.seed(case['seed'])
    Y = aux.add_bernoulli_noise(X, case['p'])
    if not np.array_equal(X, keep) or np.shares_memory(X, Y):
        raise Violation('tensor noise altered its input')
    if Y.shape != X.shape or Y.dtype != X.dtype:
        raise Violation('tensor noise returned shape %s type %s' % (Y.shape, Y.dtype))
    F = X != Y
    for v in (True, False):
        freq(int(F[X == v].sum()), int((X == v).sum()), case['p'], 'tensor noise')
    R, p = F - case['p'], case['p']
    for ax in range(3):
        a, b = np.take(R, range(1, R.shape[ax]), ax), np.take(R, range(R.shape[ax] - 1), ax)
        if abs(np.sum(a * b)) > Z * p * (1 - p) * math.sqrt(a.size) + 3:
            raise Violation('tensor noise: neighbours along axis %d are not independent' % ax)
        s = R.sum(axis=ax)
        if np.any(np.abs(s) > Z * math.sqrt(p * (1 - p) * R.shape[ax]) + 3):
            raise Violation('tensor noise: too many or too few inversions in one fibre')
    np.random.seed(case['seed'])
    if not np.array_equal(Y, aux.add_bernoulli_noise(X, case['p'])):
        raise Violation('tensor noise is not a function of the random state')
    info.nontrivial = 0 < p < 1 and X.size >= 20


@st.composite
def matrix_case(draw):
    return {'shape': draw(st.one_of(
        st.tuples(st.integers(1, 80), st.integers(1, 40)),
        st.tuples(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12)))),
        'p': draw(rate), 'seed': draw(gen.seeds)}


def matrix(case, info):
    np.random.seed(case['seed'])
    X = aux.random_machine_matrix(case['p'], case['shape'])
    if X.shape != tuple(case['shape']) or X.dtype != np.int8:
        raise Violation('random matrix has shape %s, type %s' % (X.shape, X.dtype))
    if not np.all(np.abs(X) == 1):
        raise Violation('random matrix has entries other than -1, 1')
    freq(int((X == 1).sum()), X.size, case['p'], 'ones in a random matrix')
    R = (X == 1) - case['p']
    for ax in range(X.ndim):
        a, b = np.take(R, range(1, R.shape[ax]), ax), np.take(R, range(R.shape[ax] - 1), ax)
        if abs(np.sum(a * b)) > Z * case['p'] * (1 - case['p']) * math.sqrt(a.size) + 3:
            raise Violation('random matrix: neighbours along axis %d are not independent' % ax)
        if np.any(np.abs(R.sum(axis=ax)) > Z * math.sqrt(
                case['p'] * (1 - case['p']) * R.shape[ax]) + 3):
            raise Violation('random matrix: density differs along axis %d' % ax)
    info.nontrivial = 0 < case['p'] < 1 and X.size >= 20


@st.composite
def tensor_case(draw):
    shape = draw(gen.dims(3, 1, 8))
    if draw(st.booleans()):
        shape = draw(st.permutations([draw(st.integers(100, 300)), 2, draw(st.integers(1, 3))]))
    if draw(st.integers(0, 5)) == 0:      # axes of equal size
        n = draw(st.integers(8, 24))
        shape = draw(st.permutations([n, n, draw(st.sampled_from([1, 2, 5, n]))]))
    return {'dims': list(shape), 'L': draw(st.integers(1, 5)), 'noise': draw(rate),
            'density': draw(st.one_of(st.sampled_from([.5, .1, .9, 0., 1.]),
                                      st.floats(0., 1., allow_nan=False))), 'seed': draw(gen.seeds),
            'default': draw(st.sampled_from([False, False, True]))}


def tensor(case, info):
    L, d = case['L'], case['density']
    np.random.seed(case['seed'])
    if case['default']:
        d, noise_rate = .5, 0.
        N, X, fs, fd = ex.generate_random_tensor(L, case['dims'])
    else:
        noise_rate = case['noise']
        N, X, fs, fd = ex.generate_random_tensor(L, case['dims'], noise=noise_rate, density=d)
    if X.shape != tuple(case['dims']) or N.shape != X.shape:
        raise Violation('random tensor has shape %s' % (X.shape,))
    if len(fs) != 3 or any(f.shape != (n, L) for f, n in zip(fs, case['dims'])):
        raise Violation('factors of the random tensor have shapes %s' % [f.shape for f in fs])
    want = ref.product([np.where(f, 1, -1) for f in fs], 'OR-AND') == 1
    if not np.array_equal(np.asarray(X) == 1, want):
        raise Violation('random tensor is not the Boolean product of the returned factors')
    if abs(float(ref.density('OR-AND', L, 3, float(fd))) - d) > 1e-6:
        raise Violation('factor density %.6g gives tensor density %.6g instead of %.6g' % (
            fd, ref.density('OR-AND', L, 3, float(fd)), d))
    for i, f in enumerate(fs):
        freq(int(np.sum(f)), f.size, float(fd), 'ones in factor %d of a random tensor' % i)
        if L > 1:
            R = np.asarray(f) - float(fd)
            c = float(np.sum(R[:, 1:] * R[:, :-1]))
            if abs(c) > Z * fd * (1 - fd) * math.sqrt(f.shape[0] * (L - 1)) + 3:
                raise Violation('columns of factor %d are not independent' % i)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        n = min(len(fs[i]), len(fs[j]))
        same = (fd**2 + (1 - fd)**2)**(n * L)
        if same < 1e-12 and np.array_equal(fs[i][:n], fs[j][:n]):
            raise Violation('factors %d and %d of a random tensor are the same' % (i, j))
        c = float(np.sum((fs[i][:n] - fd) * (fs[j][:n] - fd)))
        if abs(c) > Z * fd * (1 - fd) * math.sqrt(n * L) + 3:
            raise Violation('factors %d and %d of a random tensor are not independent' % (i, j))
    freq(int(np.sum(N != X)), X.size, noise_rate, 'noise of a random tensor')
    info.nontrivial = bool(want.any() and not want.all())
    info.label('L=%d' % L, 'noise' if noise_rate else 'no noise')


@st.composite
def rates_case(draw):
    fine = st.one_of(st.sampled_from([.002, .004, .998, .125, .375, .0625, 1 / 3]),
                     st.floats(.001, .05), st.floats(.95, .999), st.floats(.05, .95))
    return {'what': draw(st.sampled_from(['matrix', 'matrix', 'noise', 'biased', 'tensor noise', 'tensor'])),
            'p': draw(fine), 'p2': draw(fine), 'seed': draw(gen.seeds)}


def rates(case, info):
    """small, large and odd rates, on many entries"""
    what, p, p2 = case['what'], case['p'], case['p2']
    np.random.seed(case['seed'])
    info.label(what)
    if what == 'matrix':
        X = aux.random_machine_matrix(p, (700, 500))
        freq(int((X == 1).sum()), X.size, p, 'ones in a random matrix')
    elif what in ('noise', 'biased'):
        X = gen.seeded_data(case['seed'], (240, 180), .5, .1)
        if what == 'noise':
            p2, Y = p, aux.add_bernoulli_noise_2d(X, p)
        else:
            Y = aux.add_bernoulli_noise_2d_biased(X, p, p2)
        for v, r in ((1, p), (-1, p2)):
            freq(int((Y[X == v] == -v).sum()), int((X == v).sum()), r, '%s, entries with value %d' % (what, v))
    elif what == 'tensor noise':
        X = gen.seeded_signs(case['seed'], (50, 30, 28)) == 1
        freq(int((aux.add_bernoulli_noise(X, p) != X).sum()), X.size, p, 'tensor noise')
    else:
        N, X, fs, fd = ex.generate_random_tensor(2, (60, 25, 20), noise=p, density=p2)
        freq(int((N != X).sum()), X.size, p, 'noise of a random tensor')
        if abs(float(ref.density('OR-AND', 2, 3, float(fd))) - p2) > 1e-6:
            raise Violation('factor density %.6g gives tensor density %.6g instead of %.6g' % (
                fd, ref.density('OR-AND', 2, 3, float(fd)), p2))
    info.nontrivial = True


@st.composite
def orm_case(draw):
    L = draw(st.integers(1, 4))
    return {'L': L, 'N': draw(st.integers(6, 40)), 'D': draw(st.integers(6, 40)),
            'seed': draw(gen.seeds)}


def orm(case, info):
    np.random.seed(case['seed'])
    U, Zm, X = aux.generate_orm_product(N=case['N'], D=case['D'], L=case['L'])
    if U.shape != (case['D'], case['L']) or Zm.shape != (case['N'], case['L']) or \
            X.shape != (case['N'], case['D']):
        raise Violation('random product has shapes %s %s %s' % (U.shape, Zm.shape, X.shape))
    for a in (U, Zm, X):
        if not np.all(np.abs(a) == 1):
            raise Violation('random product has entries other than -1, 1')
    if not np.array_equal(X, ref.product([Zm, U], 'OR-AND')):
        raise Violation('random product is not the Boolean product of its factors')
    for name, f in (('U', U), ('Z', Zm)):
        for i in range(case['L']):
            for j in range(case['L']):
                if i != j and np.all(f[f[:, i] == 1, j] == 1):
                    raise Violation('column %d of %s is contained in column %d' % (i, name, j))
    info.nontrivial = case['L'] > 1
    info.label('L=%d' % case['L'])


@st.composite
def disjoint_case(draw):
    L = draw(st.one_of(st.integers(1, 5), st.integers(6, 40)))
    wide = L > 5
    if wide:
        # rarely contained by chance
        f = (np.random.default_rng(draw(gen.seeds)).random((draw(st.integers(12, 40)), L)) < .5).astype(np.int8)
    else:
        f = draw(gen.bits((draw(st.integers(1, 8)), L)))
    a, b = draw(st.integers(0, L - 1)), draw(st.integers(0, L - 1))
    if draw(st.booleans()) and a != b:
        f[:, a] &= f[:, b]
    return {'f': f, 'pm': draw(st.booleans())}


def disjoint(case, info):
    f = case['f']
    L = f.shape[1]
    want = not any(np.all(f[f[:, i] == 1, j] == 1)
                   for i in range(L) for j in range(L) if i != j)
    got = aux.all_columsn_are_disjoint(gen.pm(f) if case['pm'] else f)
    if bool(got) != want:
        raise Violation('test for contained columns says %s for %s' % (got, f.tolist()))
    info.nontrivial = L > 1
    info.label(str(want))


@st.composite
def pairs_case(draw):
    what = draw(st.sampled_from(['tensor', 'tensor', 'orm', 'orm', 'matrix', 'noise', 'biased', 'tensor noise']))
    n = 3 if what in ('tensor', 'tensor noise') else 2
    dims = [draw(st.integers(1 if n == 3 else 2, 4 if n == 3 else 7)) for _ in range(n)]
    if draw(st.booleans()):
        dims[1] = dims[0]
    return {'what': what, 'dims': dims, 'L': draw(st.integers(1, 3)), 'p': draw(st.floats(.25, .75)),
            'p2': draw(st.floats(.25, .75)), 'seed': draw(gen.seeds)}


def pairs(case, info):
    """any two entries, over repeated draws: every position against every other"""
    what, dims, L, p, R = case['what'], case['dims'], case['L'], case['p'], 220
    np.random.seed(case['seed'])
    P, groups = p, None
    if what == 'tensor':
        d = 1 - (1 - p**3)**L
        B = [np.concatenate([np.asarray(f).ravel() for f in
                             ex.generate_random_tensor(L, dims, density=d)[2]]) for _ in range(R)]
    elif what == 'orm':
        # the columns of one factor depend on each other, the factors do not
        N, D, L = dims[0] + 4, dims[1] + 4, min(L, 2)
        P, groups, B = None, np.repeat([0, 1], [D * L, N * L]), []
        for _ in range(R):
            U, Z1, X = aux.generate_orm_product(N=N, D=D, L=L)
            B.append(np.concatenate([U.ravel() == 1, Z1.ravel() == 1]))
    elif what == 'matrix':
        B = [aux.random_machine_matrix(p, dims).ravel() == 1 for _ in range(R)]
    elif what == 'tensor noise':
        X = gen.seeded_signs(case['seed'], dims) == 1
        B = [(aux.add_bernoulli_noise(X, p) != X).ravel() for _ in range(R)]
    else:
        X = gen.seeded_signs(case['seed'], dims)
        if what == 'noise':
            B = [(aux.add_bernoulli_noise_2d(X, p, seed=case['seed'] % 1000 + r) != X).ravel() for r in range(R)]
        else:
            P = np.where(X.ravel() == 1, p, case['p2'])
            B = [(aux.add_bernoulli_noise_2d_biased(X, p, case['p2'], seed=case['seed'] % 1000 + r) != X).ravel()
                 for r in range(R)]
    B = np.array(B, dtype=float)
    if P is None:
        P = np.clip(B.mean(axis=0), .2, .8)
        B = B - B.mean(axis=0)
    else:
        P = np.broadcast_to(P, B.shape[1])
        B = B - P
    C = B.T @ B
    limit = Z * np.sqrt(R * np.outer(P * (1 - P), P * (1 - P))) + 3
    bad = np.abs(C) > limit
    if groups is not None:
        bad &= groups[:, None] != groups[None, :]
    np.fill_diagonal(bad, False)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Violation('%s: positions %d and %d are not independent over %d draws (correlation %.2f)' % (
            what, i, j, R, C[i, j] / math.sqrt(C[i, i] * C[j, j])))
    # draws do not repeat each other
    info.nontrivial = B.shape[1] > 1
    info.label(what)


SUBS = [
    Sub('pairs', pairs_case(), pairs, 96, 2400, what='all pairs of positions over repeated draws'),
    Sub('noise', noise_case(True), noise, 240, 6000, what='rates and independence, large matrices'),
    Sub('noise_small', noise_case(False), noise, 2400, 60000, what='structure, small matrices'),
    Sub('seeds', seeds_case(), seeds, 400, 8000, what='equal and different seeds'),
    Sub('tensor_noise', tensor_noise_case(), tensor_noise, 400, 10000, what='noise on Boolean tensors'),
    Sub('matrix', matrix_case(), matrix, 1500, 40000, what='random matrices'),
    Sub('tensor', tensor_case(), tensor, 800, 20000, what='random tensors'),
    Sub('rates', rates_case(), rates, 160, 4000, what='small and odd rates, many entries'),
    Sub('orm', orm_case(), orm, 600, 12000, what='random Boolean products'),
    Sub('disjoint', disjoint_case(), disjoint, 1600, 40000, what='containment test of columns'),
]
