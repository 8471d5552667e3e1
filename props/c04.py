"""C04 Single-entry updates target the exact full conditional"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, mach
from harness.core import Sub, Violation
from harness.sample import Site, check_odds, fix_all, new_machine, sweep

RULE = ('random model, axis, entry, data with missing entries, factors (two thirds at a density '
        'that balances the product), lambda, prior; non-trivial: the data change the posterior '
        'odds (score and lambda non-zero), or the prior is not flat')


@st.composite
def odds_case(draw, K, hi, Lmax):
    L = draw(st.one_of(st.integers(1, Lmax), st.integers(1, Lmax), st.integers(Lmax, 14)))
    shape = draw(gen.dims(K, 1, hi))
    model = draw(st.sampled_from(gen.IMPL))
    fs = draw(gen.factors(shape, L, model))
    k = draw(st.integers(0, K - 1))
    return {'model': model, 'factors': fs, 'X': draw(gen.data(shape)), 'k': k,
            'row': draw(st.integers(0, shape[k] - 1)), 'l': draw(st.integers(0, L - 1)),
            'lbda': draw(st.one_of(gen.lbda, gen.lbda, st.sampled_from([50., 20., -1., -.3]))),
            'prior': draw(gen.prior), 'order': draw(st.booleans())}


def machine(case):
    m, layer, data = new_machine(case['X'], case['factors'][0].shape[1], case['model'],
                                 case['factors'], case['lbda'])
    for f in layer.factors:
        # the prior of the other factors is irrelevant
        f.bernoulli_prior = .9
    layer.factors[case['k']].bernoulli_prior = case['prior']
    return m, layer, data


def odds(case, info):
    m, layer, data = machine(case)
    k, idx = case['k'], (case['row'], case['l'])
    score = mach.child_score(case['X'], case['factors'], k, idx, case['model'])
    want = case['lbda'] * score + mach.logit(case['prior'])
    info.nontrivial = bool(score * case['lbda']) or case['prior'] != .5
    info.label('axis%d' % k, 'score0' if score == 0 else 'score', case['model'])
    site = Site(m, layer.factors[k], idx)
    info.label(check_odds(site, want, what='%s: ' % case['model']))


@st.composite
def mid_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    k = draw(st.integers(0, K - 1))
    shape = [draw(st.integers(100, 300)) for _ in range(2)] if K == 2 else \
        [draw(st.integers(10, 24)) for _ in range(3)]
    shape[k] = draw(st.integers(1, 3))
    return {'model': draw(st.sampled_from(gen.IMPL)), 'shape': shape, 'k': k,
            'L': draw(st.sampled_from([1, 2, 3, 5, 8, 12, 130])), 'seed': draw(gen.seeds),
            'row': draw(st.integers(0, shape[k] - 1)), 'lpick': draw(st.integers(0, 200)),
            'bias': draw(st.sampled_from([.5, .05, .95])),
            'missing': draw(st.sampled_from([0., .3, .9])),
            'lbda': draw(st.sampled_from([.001, .01, .05, .2, 1., 0., 4.])), 'prior': draw(gen.prior)}


def build_sized(case):
    from harness import ref
    f = ref.tuned_density(case['model'], len(case['shape']), min(case['L'], 12))
    fs = [gen.seeded_signs([case['seed'], i], (n, case['L']), f)
          for i, n in enumerate(case['shape'])]
    X = gen.seeded_data(case['seed'], case['shape'], case['bias'], case['missing'])
    return fs, X


def mid(case, info):
    fs, X = build_sized(case)
    c = dict(case, factors=fs, X=X)
    m, layer, data = machine(c)
    k, idx = case['k'], (case['row'], case['lpick'] % case['L'])
    score = mach.child_score(X, fs, k, idx, case['model'])
    info.nontrivial = score != 0
    info.label('|score|>%d' % (100 if abs(score) > 100 else 10 if abs(score) > 10 else 0))
    site = Site(m, layer.factors[k], idx)
    info.label(check_odds(site, case['lbda'] * score + mach.logit(case['prior']),
                          what='%s %s: ' % (case['model'], case['shape'])))


@st.composite
def huge_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    k = draw(st.integers(0, K - 1))
    n = draw(st.integers(33000, 70000))
    if K == 2:
        shape = [n, n]
    else:
        a = draw(st.sampled_from([190, 256, 300]))
        shape = [a, a, a]
        shape[(k + 1) % 3] = n // a + 2
    shape[k] = 1
    return {'model': draw(st.sampled_from(gen.IMPL)), 'shape': shape, 'k': k,
            'L': draw(st.sampled_from([1, 1, 2])), 'seed': draw(gen.seeds),
            'sign': draw(st.sampled_from([-1, 1])), 'lpick': draw(st.integers(0, 1)),
            'missing': draw(st.sampled_from([0., .01])),
            'lbda': draw(st.sampled_from([1e-5, 5e-5])), 'prior': .5}


def huge(case, info):
    """the other factors are constant such that nearly every entry depends on this one"""
    K, k, L = len(case['shape']), case['k'], case['L']
    inner = case['model'].split('-')[1]
    on = inner in ('AND', 'NAND')
    fs = []
    for i, n in enumerate(case['shape']):
        f = np.full((n, L), 1 if on else -1, dtype=np.int8)
        if not on and K == 3 and inner == 'NXOR' and i != k:
            f[:] = -1
        fs.append(f)
    l = case['lpick'] % L
    if L == 2:
        other = 1 - l      # the other dimension is inactive, or the only hit of an XOR
        for f in fs:
            f[:, other] = -1
        if inner in ('NAND', 'NXOR') and case['model'].startswith('XOR'):
            # not inner: keep the other dimension from hitting
            fs[0][:, other] = 1
            for f in fs:
                f[:, other] = 1 if inner == 'NAND' else -1
            if inner == 'NXOR':
                fs[k][:, other] = 1
        if case['model'] == 'OR-NAND':
            for f in fs:
                f[:, other] = 1
        if case['model'] == 'NAND-XOR':
            fs[k][:, other] = 1
    X = np.full(case['shape'], case['sign'], dtype=np.int8)
    if case['missing']:
        X[gen.seeded_data(case['seed'], case['shape'], 1., case['missing']) == 0] = 0
    c = dict(case, factors=fs, X=X)
    m, layer, data = machine(c)
    idx = (0, l)
    score = mach.chunked_child_score(X, fs, k, idx, case['model'])
    info.nontrivial = abs(score) > 32767
    info.label('|score|>32767' if abs(score) > 32767 else 'smaller', case['model'])
    site = Site(m, layer.factors[k], idx)
    info.label(check_odds(site, case['lbda'] * score, what='%s %s: ' % (
        case['model'], case['shape'])))


@st.composite
def entries_case(draw):
    K = draw(st.sampled_from([2, 3]))
    L = draw(st.integers(1, 4))
    shape = draw(gen.dims(K, 1, 6 if K == 2 else 4))
    return {'model': draw(st.sampled_from(gen.IMPL)), 'X': draw(gen.data(shape)),
            'factors': [draw(gen.signs((n, L))) for n in shape],
            'marks': [draw(gen.bits((n, L))) for n in shape],
            'free': draw(st.lists(st.booleans(), min_size=K, max_size=K)),
            'lbda': draw(gen.lbda), 'sweeps': draw(st.integers(1, 4))}


def entries(case, info):
    m, layer, data = new_machine(case['X'], case['factors'][0].shape[1], case['model'],
                                 case['factors'], case['lbda'])
    fix_all(m)
    for f, mark, free in zip(layer.factors, case['marks'], case['free']):
        f.fixed_entries = mark.copy()
        f.fixed = not free
    sweep(m, case['sweeps'])
    moved = False
    for i, (f, v, mark, free) in enumerate(zip(layer.factors, case['factors'], case['marks'],
                                               case['free'])):
        d = f() != v
        moved = moved or d.any()
        if not free and d.any():
            raise Violation('fixed factor %d changed' % i)
        if d[mark == 1].any():
            raise Violation('factor %d: entry %s is marked fixed and changed' % (
                i, np.argwhere(d & (mark == 1))[0].tolist()))
        if not np.array_equal(f.fixed_entries, mark):
            raise Violation('the marks of factor %d changed' % i)
        if not set(np.unique(f())) <= {-1, 1}:
            raise Violation('factor %d left -1/1' % i)
    if not np.array_equal(data(), case['X']):
        raise Violation('the data changed')
    info.nontrivial = bool(moved)


@st.composite
def counted_case(draw):
    c = draw(gen.counted(gen.IMPL))
    K = c['K']
    c['shape'] = draw(gen.dims(K, 1, 12 if K == 2 else 4))
    c['k'] = draw(st.integers(0, K - 1))
    c['row'] = draw(st.integers(0, c['shape'][c['k']] - 1))
    c['l'] = draw(st.one_of(st.just(0), st.just(c['L'] - 1), st.integers(0, c['L'] - 1)))
    c['X'] = draw(gen.data(c['shape'], ('none', 'none', 'some')))
    c['lbda'] = draw(gen.lbda_pos)
    c['prior'] = draw(gen.prior)
    return c


@gen.every_count
def counted(case, info):
    """many latent dimensions, an exact number of which is active for most data entries"""
    fs = gen.counted_factors(case['model'], case['K'], case['L'], case['count'], case['seed'],
                             case['shape'])
    k, idx = case['k'], (case['row'], case['l'])
    m, layer, data = machine(dict(case, factors=fs))
    score = mach.child_score(case['X'], fs, k, idx, case['model'])
    info.nontrivial = score != 0
    info.label('score' if score else 'score0', 'L>=128' if case['L'] >= 128 else 'L<128')
    check_odds(Site(m, layer.factors[k], idx), case['lbda'] * score + mach.logit(case['prior']),
               what='%s, %d of %d active: ' % (case['model'], case['count'], case['L']))



@st.composite
def distance_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.sampled_from([2, 3, 5, 9, 17, 33, 65, 70, 129, 140, 257, 270]))
    return {'model': draw(st.sampled_from(gen.IMPL)), 'K': K, 'L': L, 'k': draw(st.integers(0, K - 1)),
            'l': draw(st.one_of(st.just(0), st.just(L - 1), st.integers(0, L - 1))),
            'gaps': draw(st.lists(st.integers(1, L), max_size=2)),
            'own': draw(st.sampled_from([-1, 1])), 'seed': draw(gen.seeds),
            'bias': draw(st.sampled_from([1., 0., .5, .8])), 'lbda': draw(st.sampled_from([.01, .1, .3])),
            'prior': draw(gen.prior)}


def distance(case, info):
    """every data column has its own latent dimension that explains it, besides the updated one"""
    K, k, L, l = case['K'], case['k'], case['L'], case['l']
    fs = gen.one_hit_factors(case['model'], K, L, l, k, case['gaps'])
    fs[k][0, l] = case['own']
    X = gen.seeded_data(case['seed'], [f.shape[0] for f in fs], case['bias'])
    m, layer, data = machine(dict(case, factors=fs, X=X))
    score = mach.child_score(X, fs, k, (0, l), case['model'])
    info.nontrivial = score != 0
    info.label('gaps=%d' % len(case['gaps']), 'L>64' if L > 64 else 'L<=64')
    check_odds(Site(m, layer.factors[k], (0, l)), case['lbda'] * score + mach.logit(case['prior']),
               what='%s, one other dimension active per entry, L=%d: ' % (case['model'], L))


SUBS = [
    Sub('distance', distance_case(), distance, 1600, 30000,
        what='explaining dimension at every distance from the updated one'),
    Sub('counted', counted_case(), counted, 1600, 40000,
        what='latent sizes up to 513 with an exact number of active dimensions'),
    Sub('odds2d', odds_case(2, 7, 5), odds, 6000, 150000,
        what='flip probability ratio against brute-force posterior odds, two factors'),
    Sub('odds3d', odds_case(3, 4, 4), odds, 5000, 120000, what='the same with three factors'),
    Sub('mid', mid_case(), mid, 960, 14000, what='up to 576 affected data entries, latent size to 130'),
    Sub('huge', huge_case(), huge, 32, 400, shards=4, what='more than 32767 affected data entries'),
    Sub('entries', entries_case(), entries, 800, 20000, what='entries not selected stay'),
]
