"""C18 Expected densities are exact and inverted by the factor density"""
import contextlib
import io
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

import lom.auxiliary_functions as aux
from harness import gen, ref
from harness.core import Sub, Violation

RULE = ('all 36 models, 1 to 300 latent dimensions, 2 to 30 factors, densities and targets in [0,1]; '
        'non-trivial: the density and the factor density lie strictly between 0 and 1')

MONOTONE = [m for m in gen.ALL36 if 'XOR' not in m]

dens = st.one_of(st.floats(0., 1., allow_nan=False), st.sampled_from([0., 1., .5, .1, .9, .01, .99, 1 / 3]))
latents = st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 300))
arities = st.one_of(st.integers(2, 5), st.integers(2, 5), st.integers(2, 30))


@st.composite
def density_case(draw):
    return {'model': draw(st.sampled_from(gen.ALL36)),
            'L': draw(latents), 'K': draw(arities), 'f': draw(dens), 'array': draw(st.booleans())}


def exact(case, info):
    model, L, K, f = case['model'], case['L'], case['K'], case['f']
    want = ref.density(model, L, K, f)
    arg = np.array([f, 1 - f]) if case['array'] else f
    got = aux.expected_density(model, L, K, arg)
    if case['array']:
        got, other = np.asarray(got)
        w2 = ref.density(model, L, K, 1 - f)
        if not abs(other - w2) <= 1e-9:
            raise Violation('expected density of %s with %d dimensions, %d factors of density %.6g is '
                            '%.10g instead of %.10g' % (model, L, K, 1 - f, other, w2))
    if not abs(float(got) - want) <= 1e-9:
        raise Violation('expected density of %s with %d dimensions, %d factors of density %.6g is '
                        '%.10g instead of %.10g' % (model, L, K, f, got, want))
    if got < -1e-9 or got > 1 + 1e-9:
        raise Violation('expected density %.10g' % got)
    info.nontrivial = 0 < f < 1 and 1e-9 < want < 1 - 1e-9
    info.label(model)


@st.composite
def sum_case(draw):
    K = draw(st.sampled_from([2, 2, 3]))
    L = draw(st.integers(1, 4 if K == 2 else 3))
    return {'model': draw(st.sampled_from(gen.ALL36)), 'L': L, 'K': K, 'f': draw(dens)}


def brute(case, info):
    """sum over all factor rows"""
    model, L, K, f = case['model'], case['L'], case['K'], case['f']
    rows = np.array(list(itertools.product([-1, 1], repeat=L)), dtype=np.int8)
    p = np.prod(np.where(rows == 1, f, 1 - f), axis=1)
    X = ref.product([rows] * K, model) == 1
    w = p
    for _ in range(K - 1):
        w = np.multiply.outer(w, p)
    want = float(np.sum(w * X))
    got = float(aux.expected_density(model, L, K, f))
    if not abs(got - want) <= 1e-9:
        raise Violation('expected density of %s with %d dimensions, %d factors of density %.6g is '
                        '%.10g, the sum over all rows gives %.10g' % (model, L, K, f, got, want))
    info.nontrivial = 0 < f < 1


@st.composite
def inverse_case(draw):
    how = draw(st.sampled_from(['target', 'reachable', 'reachable']))
    L, K = draw(latents), draw(arities)
    model = draw(st.one_of(st.sampled_from(gen.ALL36), st.sampled_from(MONOTONE)))
    x = draw(dens)
    if how == 'target':       # close to 0 or 1
        x = x**draw(st.sampled_from([1, 1, 4, 12]))
        x = 1 - x if draw(st.booleans()) else x
    return {'model': model, 'L': L, 'K': K,
            'X': ref.density(model, L, K, x) if how == 'reachable' else x}


def inverse(case, info):
    model, L, K, X = case['model'], case['L'], case['K'], case['X']
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = aux.factor_density(model, L, K, X)
    f = float(f)
    if not 0 <= f <= 1:
        raise Violation('factor density of %s (L=%d, K=%d) for density %.6g is %r' % (model, L, K, X, f))
    got = ref.density(model, L, K, f)
    ok = abs(got - X) <= 1e-5
    says_none = 'not exist' in out.getvalue()
    info.label('monotone' if model in MONOTONE else 'other', 'no solution' if says_none else 'solution')
    info.nontrivial = ok and 0 < f < 1 and 0 < X < 1
    if not ok and (model in MONOTONE or not says_none):
        raise Violation('factor density %.8g of %s (L=%d, K=%d) gives density %.8g instead of the '
                        'target %.8g' % (f, model, L, K, got, X))


SUBS = [
    Sub('density', density_case(), exact, 12000, 400000, what='expected density against exact probability'),
    Sub('brute', sum_case(), brute, 1600, 40000, what='the same against enumeration of all rows'),
    Sub('inverse', inverse_case(), inverse, 4000, 100000, what='factor density reproduces the target'),
]
