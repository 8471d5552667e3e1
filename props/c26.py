"""C26 Plots of matrices display the values they announce"""
import numpy as np
from hypothesis import strategies as st

import lom
import lom.auxiliary_functions as aux
from harness import gen
from harness.core import Sub, Violation

RULE = ('random matrices (signs, missing entries, probabilities, values on the [-1,1] scale, '
        'booleans, several types and memory orders) and random machines before and after inference, '
        'with given records, values beyond the limits; the displayed intensities are read off the figure; non-trivial: the '
        'matrix is not constant')


def displayed(ax, what):
    """intensities in [0,1] as displayed, rows from top to bottom, columns from left to right"""
    ims = ax.get_images()
    if len(ims) != 1:
        raise Violation('%s shows %d images' % (what, len(ims)))
    im = ims[0]
    a = np.ma.filled(np.ma.asarray(im.norm(im.get_array())).astype(float), np.nan)
    if a.ndim != 2:
        raise Violation('%s shows an array of %d axes' % (what, a.ndim))
    if im.get_interpolation() not in (None, 'none', 'nearest', 'antialiased', 'auto'):
        raise Violation('%s blends its cells: interpolation %s' % (what, im.get_interpolation()))
    left, right, bottom, top = im.get_extent()
    n, k = a.shape
    # position of the first and last cell on the screen
    y = [top + (i + .5) * (bottom - top) / n for i in range(n)] if im.origin == 'upper' else \
        [bottom + (i + .5) * (top - bottom) / n for i in range(n)]
    x = [left + (j + .5) * (right - left) / k for j in range(k)]
    py = ax.transData.transform([[x[0], v] for v in y])[:, 1]
    px = ax.transData.transform([[v, y[0]] for v in x])[:, 0]
    if np.any(np.diff(py) > 0):
        a = a[::-1]
    if np.any(np.diff(px) < 0):
        a = a[:, ::-1]
    # every cell is visible
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    if min(x) < x0 or max(x) > x1 or min(y) < y0 or max(y) > y1:
        raise Violation('%s: some cells lie outside of the axes' % what)
    return a


def compare(got, want, what):
    if got.shape != want.shape:
        raise Violation('%s shows %s cells of a %s matrix' % (what, got.shape, want.shape))
    # beyond the limits: the end of the colour scale
    got, want = np.clip(got, 0, 1), np.clip(want, 0, 1)
    if not np.allclose(got, want, atol=1e-6, rtol=0):
        i = tuple(int(v) for v in np.argwhere(~(np.abs(got - want) <= 1e-6))[0])
        raise Violation('%s: cell %s is shown as %.6g, its value is %.6g' % (what, i, got[i], want[i]))


def scaled(a):
    a = np.asarray(a).astype(float)
    return .5 * (a + 1) if np.any(a < 0) else a


@st.composite
def matrix_case(draw):
    shape = draw(gen.dims(2, 1, 9))
    if draw(st.integers(0, 9)) == 0:
        shape = [draw(st.integers(1, 150)), draw(st.integers(1, 150))]
    kind = draw(st.sampled_from(['sign', 'data', 'prob', 'mean', 'bool', 'zeroone', 'ones',
                                 'small', 'corner', 'corner', 'counts', 'wide']))
    lo, hi = draw(st.sampled_from([(0, 1), (0, 1), (.25, .75), (-1, 2), (0, .5)]))
    return {'shape': shape, 'kind': kind, 'seed': draw(gen.seeds), 'lo': lo, 'hi': hi,
            'ax': draw(st.booleans()), 'cbar': draw(st.booleans()), 'F': draw(st.booleans()),
            'cmap': draw(st.sampled_from([None, None, 'gray', 'viridis'])),
            'fig': draw(st.booleans())}


def corner(rng, s):
    a = rng.random(s)
    a[tuple(int(rng.integers(n)) for n in s)] = -rng.random() * 10. ** -rng.integers(0, 4)
    return a


def matrix(case, info):
    import matplotlib.pyplot as plt
    rng = np.random.default_rng(case['seed'])
    s = case['shape']
    a = {'sign': lambda: (2 * rng.integers(0, 2, s) - 1).astype(np.int8),
         'data': lambda: rng.integers(-1, 2, s).astype(np.int8),
         'prob': lambda: rng.random(s), 'mean': lambda: 2 * rng.random(s) - 1,
         'bool': lambda: rng.random(s) < .5, 'zeroone': lambda: rng.integers(0, 2, s),
         'small': lambda: (2 * rng.random(s) - 1) * 10. ** -rng.integers(1, 5),
         'counts': lambda: rng.integers(0, 4, s), 'wide': lambda: 2.5 * rng.random(s),
         # a single entry tells the scale
         'corner': lambda: corner(rng, s),
         'ones': lambda: np.ones(s, dtype=np.int8)}[case['kind']]()
    if case['F']:
        a = np.asfortranarray(a)
    keep = a.copy()
    try:
        if case['ax']:
            # among other axes
            fig, axes = plt.subplots(1, 2)
            out = aux.plot_matrix_ax(a, axes[1])
            ax, lo, hi = out[0], 0, 1
            if ax is not axes[1]:
                raise Violation('plot_matrix_ax returns other axes than it was given')
            if axes[0].get_images():
                raise Violation('plot_matrix_ax draws into other axes')
        else:
            lo, hi = case['lo'], case['hi']
            kw = {} if (lo, hi) == (0, 1) else {'vmin': lo, 'vmax': hi}
            if case['cmap']:
                kw['cmap'] = case['cmap']
            if case['fig']:
                kw['figsize'] = (3, 5)
            before = plt.get_fignums()
            fig, ax = aux.plot_matrix(a, draw_cbar=case['cbar'], **kw)
            if ax.figure is not fig or not set(plt.get_fignums()) - set(before):
                raise Violation('plot_matrix does not return a new figure and its axes')
            if case['fig'] and tuple(fig.get_size_inches()) != (3, 5):
                raise Violation('plot_matrix ignores the figure size')
        compare(displayed(ax, case['kind']), (scaled(keep) - lo) / (hi - lo),
                'plot of a %s matrix, scale %s to %s' % (case['kind'], lo, hi))
        if not np.array_equal(a, keep) or a.dtype != keep.dtype:
            raise Violation('plotting altered the matrix')
    finally:
        plt.close('all')
    info.nontrivial = len(np.unique(keep)) > 1
    info.label(case['kind'], 'axes' if case['ax'] else 'figure')


@st.composite
def show_case(draw):
    shape = draw(gen.dims(2, 1, 6))
    return {'X': draw(gen.data(shape)), 'L': draw(st.integers(1, 4)), 'seed': draw(gen.seeds),
            'model': draw(st.sampled_from(['OR-AND', 'XOR-AND', 'NOR-AND', 'MAX-AND', 'qL-AND'])),
            'run': draw(st.sampled_from(['none', 'infer', 'given', 'given'])),
            'high': draw(st.booleans()), 'which': draw(st.integers(0, 2)),
            'samples': draw(st.integers(1, 6)), 'ones': draw(st.booleans())}


def show(case, info):
    import matplotlib.pyplot as plt
    np.random.seed(case['seed'] % 2**32)
    rng = np.random.default_rng(case['seed'])
    m = lom.Machine()
    d = m.add_matrix(case['X'].copy(), fixed=True)
    l = m.add_layer(latent_size=case['L'], child=d, model=case['model'])
    mat = ([d] + l.factors)[case['which']]
    if case['run'] == 'infer':
        m.infer(no_samples=case['samples'], burn_in_min=1, burn_in_max=1)
    elif case['run'] == 'given' and mat is not d:
        # records, in many cases with ones in the majority everywhere
        t = rng.random((case['samples'],) + mat().shape) < (.85 if case['high'] else .5)
        mat.trace = (2 * t - 1).astype(np.int8)
    if case['ones'] and mat is not d:
        mat.val = np.ones(mat().shape, dtype=np.int8)
    state, mean = mat().astype(float), np.array(mat.mean(), dtype=float)
    keep = mat().copy(), mat.trace.copy() if 'trace' in mat.__dict__ else None
    want = {'state': .5 * (state + 1), 'mean': .5 * (mean + 1), 'map': (mean > 0).astype(float)}
    try:
        for t in ('mean', 'map', 'state', None):
            plt.close('all')
            mat.show() if t is None else mat.show(technique=t)
            if len(plt.get_fignums()) != 1:
                raise Violation('show(%s) opens %d figures' % (t, len(plt.get_fignums())))
            ax = [x for x in plt.gcf().axes if x.get_images()][0]
            compare(displayed(ax, str(t)), want[t or 'mean'], 'show(%s)' % t)
        if not np.array_equal(mat(), keep[0]) or keep[1] is not None and \
                not np.array_equal(mat.trace, keep[1]):
            raise Violation('show altered the matrix or its records')
        try:
            mat.show(technique='average')
        except Exception:
            pass
        else:
            raise Violation('show accepts an unknown technique')
    finally:
        plt.close('all')
    info.nontrivial = len(np.unique(mean)) > 1
    info.label(case['run'], case['model'], 'data' if mat is d else 'factor')


SUBS = [
    Sub('matrix', matrix_case(), matrix, 400, 8000, what='plot_matrix and plot_matrix_ax'),
    Sub('show', show_case(), show, 240, 6000, what='matrices of machines: mean, MAP and state'),
]
