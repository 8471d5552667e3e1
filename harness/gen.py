"""
Strategies. Arrays are built from fixed-size byte strings (cheap to draw, shrink
towards -1 / missing), larger ones from a seed that is part of the case.
"""
import zlib

import numpy as np
from hypothesis import strategies as st

from . import ref

OPS = ['AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR']
ALL36 = [a + '-' + b for a in OPS for b in OPS]
IMPL = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-XOR', 'XOR-NXOR', 'XOR-NAND']


WIDTH = 32   # bytes drawn per array, whatever its size


def stream(buf, n):
    """n bits: those of buf, followed by pseudo-random bits that are a function of buf"""
    x = np.unpackbits(np.frombuffer(buf, dtype=np.uint8))
    if n > len(x):
        rng = np.random.default_rng(np.frombuffer(buf, dtype=np.uint32))
        x = np.concatenate([x, rng.integers(0, 2, n - len(x))])
    return x[:n].astype(np.int8)


def expand_bits(buf, n, mode):
    """mode: half, sparse (1/4), dense (3/4), zeros, ones, or a density"""
    if mode == 'zeros':
        return np.zeros(n, dtype=np.int8)
    if mode == 'ones':
        return np.ones(n, dtype=np.int8)
    if isinstance(mode, float):
        rng = np.random.default_rng(np.frombuffer(buf, dtype=np.uint32))
        return (rng.random(n) < mode).astype(np.int8)
    if mode == 'half':
        return stream(buf, n)
    x = stream(buf, max(2 * n, 8 * WIDTH))
    if mode == 'sparse':
        return x[:n] & x[-n:]
    return x[:n] | x[-n:]


raw = st.binary(min_size=WIDTH, max_size=WIDTH)


@st.composite
def bits(draw, shape, modes=('half', 'half', 'sparse', 'dense')):
    # always the same draws, whatever the shape: Hypothesis's mutations stay aligned
    mode = draw(st.sampled_from(modes))
    return expand_bits(draw(raw), int(np.prod(shape)), mode).reshape(shape)


def pm(b):
    return (2 * b - 1).astype(np.int8)


@st.composite
def signs(draw, shape, modes=('half', 'half', 'sparse', 'dense')):
    return pm(draw(bits(shape, modes)))


@st.composite
def data(draw, shape, missing=('none', 'some', 'some', 'many', 'all')):
    """entries -1, 1, and 0 for missing"""
    x = draw(signs(shape))
    kind = draw(st.sampled_from(missing))
    if kind == 'some':
        x = x * (1 - draw(bits(shape, ('sparse',))))
    elif kind == 'many':
        x = x * (1 - draw(bits(shape, ('dense',))))
    elif kind == 'all':
        x = x * 0
    return x.astype(np.int8)


@st.composite
def dims(draw, K, lo=1, hi=6):
    return [draw(st.integers(lo, hi)) for _ in range(K)]


@st.composite
def factors(draw, shape, L, model=None, modes=('half', 'half', 'sparse', 'dense')):
    """
    factors of a layer; if a model is given, two thirds of the cases use the factor
    density at which ones and minus-ones in the product are balanced
    """
    if model is not None and draw(st.integers(0, 2)) > 0:
        f = ref.tuned_density(model, len(shape), L)
        modes = (f,)
    return [draw(signs((n, L), modes)) for n in shape]


def seeded_signs(seed, shape, density=.5):
    rng = np.random.default_rng(seed)
    return (2 * (rng.random(shape) < density) - 1).astype(np.int8)


def seeded_data(seed, shape, density=.5, missing=0.):
    rng = np.random.default_rng([seed, 77])
    x = 2 * (rng.random(shape) < density) - 1
    x[rng.random(shape) < missing] = 0
    return x.astype(np.int8)


seeds = st.integers(0, 2**32 - 1)

# lambdas: zero, tiny, moderate, strong
lbda = st.one_of(st.floats(.001, 6., allow_nan=False), st.sampled_from([0., .05, .5, 1., 2., 3., 10., 40., 900.]))
lbda_pos = st.one_of(st.floats(.05, 4., allow_nan=False), st.sampled_from([.05, .5, 1., 2., 3.]))
prior = st.one_of(st.just(.5), st.floats(.02, .98, allow_nan=False),
                  st.sampled_from([.5, .1, .9, .001, .999]))
prob = st.one_of(st.sampled_from([0., 1., .5]), st.floats(0., 1., allow_nan=False))


# --- factors with a chosen number of latent dimensions at which the inner operator holds

def counts_for(L):
    c = {0, 1, 2, 3, L - 2, L - 1, L}
    c |= {x for x in (126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 384, 511, 512, 513)}
    return sorted(x for x in c if 0 <= x <= L)


def counted_factors(model, K, L, count, seed, shape=None, flips=2):
    """
    entry (0, .., 0) of the product has exactly `count` latent dimensions at which the
    inner operator holds; the other rows are copies with up to `flips` entries flipped
    """
    inner = model.split('-')[1]
    rng = np.random.default_rng([seed, L, count])
    hit, miss = [], []
    for c in range(2**K):
        bits = [(c >> i) & 1 for i in range(K)]
        (hit if ref.op_from_count(inner, sum(bits), K) else miss).append(bits)
    on = np.zeros(L, dtype=bool)
    on[rng.permutation(L)[:count]] = True
    if rng.random() < .5:      # one pattern for all hits, one for all misses
        hit, miss = [hit[rng.integers(len(hit))]], [miss[rng.integers(len(miss))]]
    hit, miss = np.array(hit), np.array(miss)
    pat = np.where(on[:, None], hit[rng.integers(len(hit), size=L)],
                   miss[rng.integers(len(miss), size=L)])
    fs = []
    for k in range(K):
        n = 2 if shape is None else shape[k]
        f = np.repeat(pm(pat[:, k])[None, :], n, axis=0)
        for i in range(1, n):
            for l in rng.integers(0, L, size=rng.integers(0, flips + 1)):
                f[i, l] *= -1
        fs.append(f.astype(np.int8))
    return fs


def one_hit_factors(model, K, L, l, k, gaps):
    """
    the updated factor k has one row, the next one L rows, a third one a single row; in
    row d of the next factor the inner operator holds at latent dimension d, and at d + g for
    every g of gaps, and nowhere else except possibly at l, where it depends on factor k
    """
    inner = model.split('-')[1]

    def holds(bits):
        return bool(ref.op_from_count(inner, sum(bits), K))

    # values of the updated and of the single row at which the row in between decides
    own, third = next((a, c) for a in (1, 0) for c in (1, 0)
                      if len({holds((a, b, c)[:K]) for b in (0, 1)}) == 2)
    hit = next(b for b in (1, 0) if holds((own, b, third)[:K]))
    miss = 1 - hit
    on = next(b for b in (1, 0) if holds((1, b, third)[:K]) != holds((0, b, third)[:K]))
    fs = [np.ones((1, L), dtype=np.int8) for _ in range(K)]
    fs[k][:] = 2 * own - 1
    if K == 3:
        fs[(k + 2) % 3][:] = 2 * third - 1
    f = np.full((L, L), miss, dtype=np.int8)
    for d in range(L):
        for g in (0,) + tuple(gaps):
            f[d, (d + g) % L] = hit
    f[:, l] = on
    fs[(k + 1) % K] = pm(f)
    return fs


large_L = st.sampled_from([10, 16, 31, 64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 513])


def every_count(check):
    """run the check of a counted case for every interesting count of its latent size"""
    def run(case, info):
        nontrivial = False
        for n in counts_for(case['L']):
            check(dict(case, count=n), info)
            nontrivial = nontrivial or info.nontrivial
        info.nontrivial = nontrivial
    run.__doc__ = check.__doc__
    run.__name__ = check.__name__
    return run


@st.composite
def counted(draw, models=None, Ls=None):
    """model, K, L, count and seed of a counted case"""
    L = draw(large_L if Ls is None else st.sampled_from(Ls))
    c = counts_for(L)
    return {'model': draw(st.sampled_from(models or IMPL)), 'K': draw(st.sampled_from([2, 3])),
            'L': L, 'count': c[draw(st.integers(0, 10**6)) % len(c)], 'seed': draw(seeds)}


def lay(a, salt=0):
    """copy of an array, in a memory layout that its content determines"""
    a = np.asarray(a)
    how = zlib.crc32(np.ascontiguousarray(a).tobytes() + bytes([salt % 256])) % 5
    if how == 1:
        return np.array(a, order='F')
    if how == 2:
        # every second cell of a larger array
        b = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        b = b[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if how == 3:
        return np.array(a[::-1], order='C')[::-1]
    return np.array(a, order='C')


def vary(fs, seed, types):
    """copies of arrays with different types and memory layouts"""
    rng = np.random.default_rng([seed, 77])
    return [lay(f.astype(types[rng.integers(len(types))]), int(rng.integers(256))) for f in fs]


def uneven(layer):
    """
    The records of a factor of the unbounded model have room for more dimensions than a factor
    without records: reconstructions from such records have no agreed meaning.
    """
    return len({f.mean().shape[1] for f in layer.factors}) > 1
