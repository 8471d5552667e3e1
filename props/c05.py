"""C05 Updates inside hierarchies combine child, parent and prior evidence"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen, mach, ref
from harness.core import Sub, Violation
from harness.sample import Site, check_odds

RULE = ('random hierarchies (child model or none, zero to two parent layers with their own models, '
        'latent sizes and lambdas, prior, missing data), random entry; non-trivial: at least one '
        'parent, and the data or a second parent contribute, or the prior is not flat')

lam = st.one_of(st.floats(.05, 4.), st.sampled_from([0., .3, 1., 2.5]))


@st.composite
def stack_case(draw, n_parents):
    """layer on data (two or three axes), n_parents layers stacked on one of its factors"""
    K = draw(st.sampled_from([2, 2, 2, 3])) if n_parents < 2 else 2
    shape = draw(gen.dims(K, 1, 5 if K == 2 else 3))
    L = draw(st.integers(1, 4))
    k = draw(st.integers(0, K - 1))
    model = draw(st.sampled_from(gen.IMPL))
    parents = []
    for _ in range(n_parents):
        pl = draw(st.integers(1, 4))
        pm = draw(st.sampled_from(gen.IMPL))
        parents.append({'model': pm, 'L': pl, 'lbda': draw(lam),
                        'factors': draw(gen.factors([shape[k], L], pl, pm))})
    return {'model': model, 'X': draw(gen.data(shape)), 'k': k,
            'factors': draw(gen.factors(shape, L, model)), 'lbda': draw(lam),
            'parents': parents, 'row': draw(st.integers(0, shape[k] - 1)),
            'l': draw(st.integers(0, L - 1)), 'prior': draw(gen.prior),
            # order in which layers are added, and whether inference ran before the last one
            'early': draw(st.integers(0, 2)), 'sib': draw(st.booleans())}


def stack(case, info):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=True)
    L = case['factors'][0].shape[1]
    layer = m.add_layer(latent_size=L, child=data, model=case['model'])
    mat = layer.factors[case['k']]
    if case['early'] == 1:
        m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
    pls = []
    for i, p in enumerate(case['parents']):
        pl = m.add_layer(latent_size=p['L'], child=mat, model=p['model'])
        pls.append(pl)
        if case['early'] == 2 and i == 0:
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
    extra = None
    if case['sib']:    # a layer on another factor does not matter for this entry
        extra = m.add_layer(latent_size=2, child=layer.factors[(case['k'] + 1) % len(
            layer.factors)], model='OR-AND')
        extra.lbda.val = 3.
    for f, v in zip(layer.factors, case['factors']):
        f.val = v.copy()
    layer.lbda.val = case['lbda']
    mat.bernoulli_prior = case['prior']
    idx = (case['row'], case['l'])
    score = mach.child_score(case['X'], case['factors'], case['k'], idx, case['model'])
    want = case['lbda'] * score + mach.logit(case['prior'])
    for pl, p in zip(pls, case['parents']):
        for f, v in zip(pl.factors, p['factors']):
            f.val = v.copy()
        pl.lbda.val = p['lbda']
        want += p['lbda'] * mach.parent_score(p['factors'], idx, p['model'])
    info.nontrivial = bool(score * case['lbda']) or len(pls) > 1 or case['prior'] != .5
    info.label('K=%d' % len(case['factors']), 'axis%d' % case['k'],
               'score' if score else 'score0', 'early%d' % case['early'])
    site = Site(m, mat, idx)
    info.label(check_odds(site, want, what='%s with parents %s: ' % (
        case['model'], [p['model'] for p in case['parents']])))


@st.composite
def chain_case(draw):
    """three stacked layers; the entry is in a random factor of any of them"""
    shape = draw(gen.dims(2, 1, 5))
    Ls = [draw(st.integers(1, 4)) for _ in range(3)]
    axes = [draw(st.integers(0, 1)) for _ in range(2)]
    models = [draw(st.sampled_from(gen.IMPL)) for _ in range(3)]
    factors = []
    sh = shape
    shapes = [shape]
    for i in range(3):
        factors.append(draw(gen.factors(sh, Ls[i], models[i])))
        if i < 2:
            sh = [sh[axes[i]], Ls[i]]
            shapes.append(sh)
    return {'X': draw(gen.data(shape)), 'Ls': Ls, 'axes': axes, 'models': models,
            'factors': factors, 'lbdas': [draw(lam) for _ in range(3)],
            'which': draw(st.integers(0, 2)), 'k': draw(st.integers(0, 1)),
            'row': draw(st.integers(0, 100)), 'l': draw(st.integers(0, 100)),
            'prior': draw(gen.prior)}


def chain(case, info):
    m = lom.Machine()
    child = m.add_matrix(case['X'].copy(), fixed=True)
    layers = []
    for i in range(3):
        layers.append(m.add_layer(latent_size=case['Ls'][i], child=child, model=case['models'][i]))
        if i < 2:
            child = layers[-1].factors[case['axes'][i]]
    for layer, fs, lb in zip(layers, case['factors'], case['lbdas']):
        for f, v in zip(layer.factors, fs):
            f.val = v.copy()
        layer.lbda.val = lb
    w, k = case['which'], case['k']
    mat = layers[w].factors[k]
    mat.bernoulli_prior = case['prior']
    idx = (case['row'] % mat().shape[0], case['l'] % mat().shape[1])
    X = case['X'] if w == 0 else case['factors'][w - 1][case['axes'][w - 1]]
    score = mach.child_score(X, case['factors'][w], k, idx, case['models'][w])
    want = case['lbdas'][w] * score + mach.logit(case['prior'])
    parent = w < 2 and case['axes'][w] == k
    if parent:
        want += case['lbdas'][w + 1] * mach.parent_score(
            case['factors'][w + 1], idx, case['models'][w + 1])
    info.nontrivial = score != 0 and (parent or w > 0)
    info.label('layer%d' % w, 'parent' if parent else 'top')
    check_odds(Site(m, mat, idx), want, what='layer %d of %s: ' % (w, case['models']))


@st.composite
def nochild_case(draw):
    """unobserved data entries that only have one or two parents"""
    shape = draw(gen.dims(2, 1, 5))
    n = draw(st.sampled_from([1, 2, 2]))
    parents = []
    for _ in range(n):
        pl = draw(st.integers(1, 4))
        pm = draw(st.sampled_from(gen.IMPL))
        parents.append({'model': pm, 'L': pl, 'lbda': draw(lam),
                        'factors': draw(gen.factors(shape, pl, pm))})
    return {'X': draw(gen.signs(shape)), 'parents': parents, 'prior': draw(gen.prior),
            'row': draw(st.integers(0, shape[0] - 1)), 'l': draw(st.integers(0, shape[1] - 1)),
            'how': draw(st.sampled_from(['matrix', 'shape']))}


def nochild(case, info):
    m = lom.Machine()
    pls = []
    data = m.add_matrix(case['X'].copy(), fixed=False)
    for p in case['parents']:
        pls.append(m.add_layer(latent_size=p['L'], child=data, model=p['model']))
    idx = (case['row'], case['l'])
    data.bernoulli_prior = case['prior']
    want = mach.logit(case['prior'])
    for pl, p in zip(pls, case['parents']):
        for f, v in zip(pl.factors, p['factors']):
            f.val = v.copy()
        pl.lbda.val = p['lbda']
        want += p['lbda'] * mach.parent_score(p['factors'], idx, p['model'])
    info.nontrivial = len(pls) > 1 or case['prior'] != .5
    info.label('parents=%d' % len(pls))
    check_odds(Site(m, data, idx), want, what='no child, parents %s: ' % (
        [p['model'] for p in case['parents']]))


@st.composite
def reject_case(draw):
    return {'kind': draw(st.sampled_from(['three', 'three_data', 'special', 'special_data'])),
            'model': draw(st.sampled_from(['MAX-AND', 'qL-AND', 'OR-AND-IBP'])),
            'models': [draw(st.sampled_from(gen.IMPL)) for _ in range(4)],
            'shape': draw(gen.dims(2, 1, 4)), 'L': draw(st.integers(1, 3)),
            'k': draw(st.integers(0, 1)), 'n': draw(st.sampled_from([3, 3, 4])),
            'seed': draw(gen.seeds)}


def reject(case, info):
    info.label(case['kind'])
    m = lom.Machine()
    X = gen.seeded_signs(case['seed'], case['shape'])
    kind = case['kind']
    if kind == 'three':
        data = m.add_matrix(X, fixed=True)
        mat = m.add_layer(latent_size=case['L'], child=data,
                          model=case['models'][0]).factors[case['k']]
    elif kind in ('three_data', 'special_data'):
        mat = m.add_matrix(X, fixed=False)
    else:
        data = m.add_matrix(X, fixed=True)
        mat = m.add_layer(latent_size=case['L'], child=data,
                          model=case['model']).factors[case['k']]
    try:
        if kind.startswith('three'):
            for i in range(case['n']):
                m.add_layer(latent_size=2, child=mat, model=case['models'][i])
        elif kind == 'special':
            # factors of these models can't have parents
            m.add_layer(latent_size=2, child=mat, model=case['models'][0])
        else:
            # these models can't be parents of a matrix that is sampled
            m.add_layer(latent_size=2, child=mat, model=case['model'])
        m.infer(no_samples=2, burn_in_min=0, burn_in_max=0)
    except Exception:
        return
    raise Violation('an unsupported structure was sampled: %s, %s' % (kind, case['model']))


@st.composite
def three_case(draw):
    """structures with three axes that are unsupported at present: rejected, or sampled exactly"""
    shape = draw(gen.dims(3, 1, 3))
    L = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(['nochild', 'twoparents', 'late']))
    n = 2 if kind == 'twoparents' else draw(st.integers(1, 2))
    k = draw(st.integers(0, 2))
    psh = [shape[k], L] if kind == 'twoparents' else shape
    parents = []
    for _ in range(n):
        pm, pl = draw(st.sampled_from(gen.IMPL)), draw(st.integers(1, 3))
        parents.append({'model': pm, 'L': pl, 'lbda': draw(lam), 'factors': draw(gen.factors(psh, pl, pm))})
    model = draw(st.sampled_from(gen.IMPL))
    return {'kind': kind, 'X': draw(gen.signs(shape)), 'k': k, 'model': model, 'lbda': draw(lam),
            'factors': draw(gen.factors(shape, L, model)), 'parents': parents, 'prior': draw(gen.prior),
            'idx': [draw(st.integers(0, n - 1)) for n in psh]}


def three(case, info):
    m = lom.Machine()
    data = m.add_matrix(case['X'].copy(), fixed=case['kind'] == 'twoparents')
    idx = tuple(case['idx'])
    want = mach.logit(case['prior'])
    mat = data
    info.label(case['kind'])
    try:
        if case['kind'] == 'twoparents':
            layer = m.add_layer(latent_size=case['factors'][0].shape[1], child=data, model=case['model'])
            mat = layer.factors[case['k']]
        pls = []
        for i, p in enumerate(case['parents']):
            pls.append(m.add_layer(latent_size=p['L'], child=mat, model=p['model']))
            if case['kind'] == 'late' and i == 0:
                data.fixed = True
                m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
                data.fixed = False
        if case['kind'] == 'twoparents':
            for f, v in zip(layer.factors, case['factors']):
                f.val = v.copy()
            layer.lbda.val = case['lbda']
            want += case['lbda'] * mach.child_score(case['X'], case['factors'], case['k'], idx, case['model'])
        mat.bernoulli_prior = case['prior']
        for pl, p in zip(pls, case['parents']):
            for f, v in zip(pl.factors, p['factors']):
                f.val = v.copy()
            pl.lbda.val = p['lbda']
            want += p['lbda'] * mach.parent_score(p['factors'], idx, p['model'])
        site = Site(m, mat, idx)
        site.flips(1, .5)
    except Violation:
        raise
    except Exception:
        info.label('rejected')
        return
    check_odds(site, want, what='three axes, parents %s: ' % [p['model'] for p in case['parents']])


@st.composite
def bigparent_case(draw):
    """parents with many latent dimensions, of a factor or of unobserved data, sometimes with
    many rows or columns"""
    top = draw(st.sampled_from([4, 4, 12, 40]))
    shape = draw(gen.dims(2, 1, top))
    parents = []
    for _ in range(draw(st.integers(1, 2))):
        c = draw(gen.counted(gen.IMPL))
        c['lbda'] = draw(lam)
        parents.append(c)
    return {'X': draw(gen.signs(shape)), 'parents': parents, 'prior': draw(gen.prior),
            'row': draw(st.integers(0, shape[0] - 1)), 'l': draw(st.integers(0, shape[1] - 1)),
            'child': draw(st.booleans()), 'model': draw(st.sampled_from(gen.IMPL)),
            'clbda': draw(lam), 'seed': draw(gen.seeds)}


def bigparent(case, info):
    gen.every_count(onebig)(dict(case, L=case['parents'][0]['L']), info)


def onebig(case, info):
    m = lom.Machine()
    shape, idx = case['X'].shape, (case['row'], case['l'])
    want = mach.logit(case['prior'])
    if case['child']:
        X = gen.seeded_signs(case['seed'], (shape[0], 5))
        data = m.add_matrix(X, fixed=True)
        layer = m.add_layer(latent_size=shape[1], child=data, model=case['model'])
        fs = [case['X'].copy(), gen.seeded_signs([case['seed'], 1], (5, shape[1]))]
        mat = [f for f in layer.factors if f().shape == fs[0].shape and f.child_axis == 0][0]
    else:
        mat = m.add_matrix(case['X'].copy(), fixed=False)
    pls = [m.add_layer(latent_size=c['L'], child=mat, model=c['model']) for c in case['parents']]
    if case['child']:
        for f, v in zip(layer.factors, fs):
            f.val = v.copy()
        layer.lbda.val = case['clbda']
        want += case['clbda'] * mach.child_score(X, fs, 0, idx, case['model'])
    mat.bernoulli_prior = case['prior']
    for i, (pl, c) in enumerate(zip(pls, case['parents'])):
        if i == 0 and 'count' in case:
            c = dict(c, count=case['count'])
        pf = gen.counted_factors(c['model'], 2, c['L'], c['count'], c['seed'], shape)
        for f, v in zip(pl.factors, pf):
            f.val = v.copy()
        pl.lbda.val = c['lbda']
        want += c['lbda'] * mach.parent_score(pf, idx, c['model'])
    info.label('parents=%d' % len(pls), 'child' if case['child'] else 'nochild')
    info.nontrivial = True
    check_odds(Site(m, mat, idx), want, what='parents %s: ' % (
        ['%s L=%d, %d active' % (c['model'], c['L'], c['count']) for c in case['parents']]))


SUBS = [
    Sub('bigparent', bigparent_case(), bigparent, 800, 20000,
        what='parents with up to 513 latent dimensions, of matrices with up to 40 rows and columns'),
    Sub('oneparent', stack_case(1), stack, 3000, 80000, what='one child, one parent'),
    Sub('twoparents', stack_case(2), stack, 3000, 80000, what='one child, two parents'),
    Sub('chain', chain_case(), chain, 2000, 50000, what='entries of any layer of a chain of three'),
    Sub('nochild', nochild_case(), nochild, 2400, 60000, what='unobserved data with parents only'),
    Sub('three', three_case(), three, 400, 8000,
        what='structures with three axes: rejected, or sampled exactly'),
    Sub('reject', reject_case(), reject, 300, 6000, what='unsupported structures raise errors'),
]
