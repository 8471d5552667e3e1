"""C23 Each inference call uses the configuration in force when it is called"""
import numpy as np
from hypothesis import strategies as st

import lom
from harness import gen
from harness.core import Sub, Violation

RULE = ('random histories of up to 12 operations (set values, priors, beta priors, marks, fixed '
        'flags, lambdas, data, hyperparameters, annealing, adding layers, reconstructions, '
        'inference); every inference call is compared with the same call on a freshly built machine '
        'in the same state, under the same random source; non-trivial: at least two inference calls '
        'with another operation in between')

KINDS = ['infer', 'infer', 'infer', 'setval', 'setval', 'inplace', 'prior', 'prior', 'beta', 'fix',
         'fix', 'marks', 'lbda', 'lbda', 'fixl', 'data', 'datain', 'hyper', 'map', 'output', 'auto',
         'stack', 'sibling', 'anneal', 'resize', 'interrupt']


@st.composite
def hist_case(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    K = 3 if kind == '3d' else 2
    shape = draw(gen.dims(K, 1, 6 if K == 2 else 3))
    ops = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 5), st.integers(0, 2**16)),
                        min_size=1, max_size=12))
    model = {'max': 'MAX-AND', 'q': 'qL-AND', 'ibp': 'OR-AND-IBP'}.get(
        kind, draw(st.sampled_from(gen.IMPL)))
    return {'kind': kind, 'X': draw(gen.data(shape)), 'model': model, 'L': draw(st.integers(1, 4)),
            'ops': ops, 'seed': draw(gen.seeds), 'model2': draw(st.sampled_from(gen.IMPL)),
            'first': draw(st.integers(0, 3))}


@st.composite
def hier_case(draw):
    """stacked layers from the start, observed or unobserved data"""
    ops = draw(st.lists(st.tuples(st.sampled_from(
        ['infer', 'infer', 'marks', 'marks', 'prior', 'setval', 'inplace', 'lbda', 'fix', 'fixl',
         'beta', 'data', 'datain', 'output', 'anneal', 'unfix', 'interrupt']), st.integers(0, 11),
        st.integers(0, 2**16)), min_size=1, max_size=10))
    K = draw(st.sampled_from([2, 2, 2, 3]))
    return {'kind': 'hier', 'X': draw(gen.data(draw(gen.dims(K, 1, 5 if K == 2 else 3)))),
            'model': draw(st.sampled_from(gen.IMPL)),
            'L': draw(st.integers(1, 3)), 'ops': ops, 'seed': draw(gen.seeds),
            'model2': draw(st.sampled_from(gen.IMPL)), 'first': draw(st.integers(1, 3)),
            'stacks': draw(st.lists(st.tuples(st.integers(0, 5), st.integers(1, 3)), min_size=1,
                                    max_size=3)),
            'fixed': draw(st.booleans()) or K == 3}


class World:
    """a machine together with the calls that build it"""

    def __init__(self):
        self.m = lom.Machine()
        self.log = []     # ('data', matrix) or ('layer', child reference, layer)
        self.mats = []

    def data(self, X, fixed=True):
        d = self.m.add_matrix(np.array(X, dtype=np.int8), fixed=fixed)
        self.log.append(('data', d))
        self.mats.append(d)
        return d

    def layer(self, child, L, model):
        l = self.m.add_layer(latent_size=L, child=child, model=model)
        self.log.append(('layer', self.mats.index(child), l))
        self.mats.extend(l.factors)
        return l

    def layers(self):
        return [e[2] for e in self.log if e[0] == 'layer']

    def all_mats(self):
        return self.mats + [l.q for l in self.layers() if l.model == 'qL-AND']

    def fresh(self):
        """the same machine, built anew, in the same state"""
        w = World()
        for e in self.log:
            if e[0] == 'data':
                w.data(e[1]().copy(), e[1].fixed)
            else:
                w.layer(w.mats[e[1]], e[2].size, e[2].model)
        for a, b in zip(self.all_mats(), w.all_mats()):
            b.val = a().copy()
            b.fixed = a.fixed
            b.fixed_entries = a.fixed_entries.copy()
            b.bernoulli_prior = a.bernoulli_prior
        for a, b in zip(self.layers(), w.layers()):
            b.lbda.val = np.array(a.lbda.val, copy=True) if isinstance(a.lbda.val, np.ndarray) else a.lbda.val
            b.lbda.fixed = a.lbda.fixed
            b.lbda.beta_prior = a.lbda.beta_prior
            b.auto_clean, b.auto_reset = a.auto_clean, a.auto_reset
            if a.model == 'qL-AND':
                b.gamma = a.gamma
            if a.model == 'OR-AND-IBP':
                b.alpha = a.alpha
        w.m.anneal = self.m.anneal
        return w


def infer(w, seed, arg):
    n, lo = 1 + arg % 4, (arg // 4) % 3
    hi = lo + (arg // 12) % 5
    np.random.seed(seed)
    w.m.infer(no_samples=n, burn_in_min=lo, burn_in_max=hi, convergence_window=2 + arg % 3,
              convergence_eps=.05)


class Interrupt(Exception):
    """the user stops an inference call between two sweeps"""


def interrupted(w, seed, arg):
    orig, left = np.random.permutation, [1 + arg % 7]

    def permutation(*a, **k):
        left[0] -= 1
        if left[0] < 0:
            raise Interrupt()
        return orig(*a, **k)

    np.random.permutation = permutation
    try:
        infer(w, seed, arg)
        return False
    except Interrupt:
        return True
    finally:
        np.random.permutation = orig


def value(x):
    return np.asarray(x)


def compare(a, b, what):
    for i, (p, q) in enumerate(zip(a.all_mats(), b.all_mats())):
        if not np.array_equal(p(), q()):
            raise Violation('%s: matrix %d (%s, axis %s) differs from a freshly built machine in the '
                            'same state' % (what, i, p.model, p.child_axis))
        tp, tq = p.__dict__.get('trace'), q.__dict__.get('trace')
        if (tp is None) != (tq is None):
            raise Violation('%s: matrix %d has %s records, a freshly built machine has %s' % (
                what, i, 'no' if tp is None else len(tp), 'no' if tq is None else len(tq)))
        if tp is not None and not np.array_equal(tp, tq):
            raise Violation('%s: the records of matrix %d differ from a freshly built machine' % (what, i))
        if not np.array_equal(p.fixed_entries, q.fixed_entries):
            raise Violation('%s: the marks of matrix %d differ from a freshly built machine' % (what, i))
    for i, (p, q) in enumerate(zip(a.layers(), b.layers())):
        widths = {f().shape[1] for f in p.factors}
        if widths != {p.size} or p.size != q.size or p.L != q.size:
            raise Violation('%s: the size of layer %d (%s) is %s, its factors have %s columns, the '
                            'size is %s in a freshly built machine' % (
                                what, i, p.model, p.size, sorted(widths), q.size))
        if not np.array_equal(value(p.lbda()), value(q.lbda()), equal_nan=True):
            raise Violation('%s: lambda of layer %d (%s) is %s, %s in a freshly built machine' % (
                what, i, p.model, p.lbda(), q.lbda()))
        tp, tq = p.lbda.__dict__.get('trace'), q.lbda.__dict__.get('trace')
        if (tp is None) != (tq is None) or tp is not None and not np.array_equal(tp, tq, equal_nan=True):
            raise Violation('%s: the records of lambda of layer %d differ from a freshly built machine'
                            % (what, i))
        techs = ['point_estimate', 'factor_map', 'mc', 'factor_mean']
        for t in techs:
            if p.size == 0 or gen.uneven(p):
                continue
            x, y = p.output(technique=t), q.output(technique=t)
            if not np.array_equal(x, y, equal_nan=True):
                raise Violation('%s: the reconstruction (%s) of layer %d differs from a freshly built '
                                'machine' % (what, t, i))
    if getattr(a.m, 'burn_in_iters', None) != getattr(b.m, 'burn_in_iters', None):
        raise Violation('%s: %s burn-in sweeps, %s in a freshly built machine' % (
            what, a.m.burn_in_iters, b.m.burn_in_iters))


def history(case, info):
    np.random.seed(case['seed'])
    w = World()
    if not case.get('fixed', True):
        case['X'] = np.where(case['X'] == 0, 1, case['X']).astype(np.int8)
    d = w.data(case['X'], case.get('fixed', True))
    kind = case['kind']
    l0 = w.layer(d, case['L'], case['model'])
    for i, L in case.get('stacks', []):
        fac = [f for l in w.layers() for f in l.factors]
        f = fac[i % len(fac)]
        # at most two parents for a matrix with a child, and one along three axes
        if len(f.parents) < (2 if d().ndim == 2 or f.layer is not l0 else 1):
            w.layer(f, L, case['model2'])
    calls, between, last = 0, False, -1
    ops = list(case['ops'])
    if case['first']:
        ops.insert(0, ('infer', 0, case['first']))
    ops.append(('infer', 0, case['seed'] % 997))
    for step, (op, i, arg) in enumerate(ops):
        rng = np.random.default_rng([case['seed'], step, arg])
        mats, layers = w.all_mats(), w.layers()
        fac = [f for l in layers for f in l.factors]
        l = layers[i % len(layers)]
        f = fac[i % len(fac)]
        if op == 'infer':
            other = w.fresh()
            s = (case['seed'] + 31 * step + arg) % 2**32
            infer(w, s, arg)
            infer(other, s, arg)
            calls += 1
            compare(w, other, 'call %d' % calls)
            between = between or (calls > 1 and last < step - 1)
            last = step
        elif op == 'interrupt':
            if interrupted(w, (case['seed'] + 31 * step + arg) % 2**32, arg):
                info.label('interrupted')
        elif op == 'setval':
            f.val = (2 * rng.integers(0, 2, f().shape) - 1).astype(np.int8)
        elif op == 'inplace':
            if f().size:
                f.val[rng.integers(0, f().shape[0]), rng.integers(0, f().shape[1])] *= -1
        elif op == 'prior':
            if kind == 'hier' and arg % 3 == 0:
                f = mats[i % len(mats)]
            f.bernoulli_prior = float(rng.choice([.1, .3, .5, .8, .99]))
        elif op == 'beta':
            l.lbda.beta_prior = [(1, 1), (5, 1), (.5, .5), (30, 2), (1, 10)][arg % 5]
        elif op == 'fix':
            # the first factor of the IBP model drives both
            tgt = mats[i % len(mats)]
            if l0.model == 'OR-AND-IBP' and tgt is l0.u:
                tgt = l0.z
            if tgt not in [e[1] for e in w.log if e[0] == 'data']:
                tgt.fixed = not tgt.fixed
        elif op == 'unfix':
            if not case.get('fixed', True):
                d.fixed = not d.fixed
        elif op == 'marks':
            if kind == 'hier' and arg % 3 == 0:
                f = mats[i % len(mats)]
            if f.layer is None:
                f.fixed_entries = (rng.random(f().shape) < .4).astype(np.int8)
            elif f.layer.model != 'OR-AND-IBP':
                f.fixed_entries = (rng.random(f().shape) < .4).astype(np.int8)
        elif op == 'lbda':
            if l.model == 'MAX-AND':
                v = .02 + .96 * rng.random(l.size + 1)
                if arg % 2:
                    l.lbda.val[:] = v
                else:
                    l.lbda.val = v
            else:
                l.lbda.val = float(rng.choice([.1, .5, 1., 3.]))
        elif op == 'fixl':
            l.lbda.fixed = not l.lbda.fixed
        elif op == 'data':
            ds = [e[1] for e in w.log if e[0] == 'data']
            t = ds[i % len(ds)]
            t.val = gen.seeded_data(arg, t().shape, .5, .2 if case.get('fixed', True) else 0.)
        elif op == 'datain':
            ds = [e[1] for e in w.log if e[0] == 'data']
            t = ds[i % len(ds)]
            t.val[tuple(rng.integers(0, n) for n in t().shape)] = \
                arg % 3 - 1 if case.get('fixed', True) else 1 - arg % 2 * 2
        elif op == 'hyper':
            if l.model == 'qL-AND':
                l.gamma = float(rng.choice([.5, 1, 3]))
            elif l.model == 'OR-AND-IBP':
                l.alpha = float(rng.choice([.5, 3, 10]))
        elif op == 'map':
            # the records of IBP factors have room for further dimensions: only both at once
            if f().size and not (f.layer.model == 'OR-AND-IBP' and
                                 len({g.mean().shape[1] for g in f.layer.factors}) > 1):
                f.set_to_map()
                if f.layer.model == 'OR-AND-IBP':
                    for g in f.layer.factors:
                        g.set_to_map()
        elif op == 'output':
            if l.size and not gen.uneven(l):
                l.output(technique=['factor_map', 'factor_mean', 'point_estimate'][arg % 3],
                         lazy=bool(arg % 2))
        elif op == 'auto':
            if not any(f.parents for f in l.factors) and l.model != 'OR-AND-IBP' \
                    and l.model != 'qL-AND':
                l.auto_clean = bool(arg % 2)
                l.auto_reset = bool(arg // 2 % 2)
        elif op == 'stack':
            if len(layers) < 3 and f.layer.model in gen.IMPL and f().size and not f.parents and \
                    not f.layer.auto_clean and not f.layer.auto_reset and f().shape[1]:
                w.layer(f, 1 + arg % 2, case['model2'])
        elif op == 'sibling':
            if len(layers) < 3:
                w.layer(w.data(gen.seeded_data(arg, (2 + arg % 3, 3), .5, .1)), 1 + arg % 3,
                        ['OR-AND', 'MAX-AND', 'XOR-NAND', 'qL-AND'][arg % 4])
        elif op == 'anneal':
            w.m.anneal = not w.m.anneal and not any(x.model == 'MAX-AND' for x in layers)
        elif op == 'resize':
            if f.layer.model != 'OR-AND-IBP' and not any(g.parents for g in f.layer.factors):
                n = max(1, f().shape[1] + (1 if arg % 2 else -1))
                if f.layer.model == 'MAX-AND':
                    f.layer.lbda.val = .02 + .96 * rng.random(n + 1)
                    f.layer.lbda.__dict__.pop('trace', None)
                elif f.layer.model == 'qL-AND':
                    f.layer.q.val = np.minimum(f.layer.q.val, n)
                    f.layer.q.__dict__.pop('trace', None)
                for g in f.layer.factors:
                    g.val = (2 * rng.integers(0, 2, (g().shape[0], n)) - 1).astype(np.int8)
                    g.fixed_entries = np.zeros(g().shape, dtype=np.int8)
                    # records of the previous size no longer apply
                    g.__dict__.pop('trace', None)
        if w.m.anneal and any(x.model == 'MAX-AND' for x in w.layers()):
            w.m.anneal = False
        info.label(op)
    info.nontrivial = bool(between)
    info.label('calls=%d' % min(calls, 4))


SUBS = [
    Sub('logical', hist_case(['2d', '2d', '3d']), history, 1600, 40000,
        what='logical models, stacked and separate layers'),
    Sub('hier', hier_case(), history, 1200, 30000,
        what='stacked layers from the start (up to two parents per matrix), unobserved data'),
    Sub('special', hist_case(['max', 'max', 'q', 'ibp']), history, 1200, 30000,
        what='max, q-threshold and unbounded models'),
]
