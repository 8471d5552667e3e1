"""
Driving the sampler through its public interface: building machines, one-sweep
updates of single entries, and measuring flip probabilities under a random source
that is owned by the harness.
"""
import contextlib
import math
import zlib

import numpy as np

import lom

from . import gen
from .core import Violation, Skip

_FLOATS = ['rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform']


class ConstRandom:
    """replaces NumPy's uniform draws by a constant, counts the draws"""

    def __init__(self, r, later=None):
        self.r, self.later = r, later
        self.calls = 0

    def value(self):
        self.calls += 1
        return self.r if self.later is None or self.calls == 1 else self.later

    def __call__(self, *a, **k):
        return self._out(a if a else None)

    def _out(self, size):
        r = self.value()
        if size is None or size == (None,):
            return r
        if len(size) == 1 and isinstance(size[0], tuple):
            size = size[0]
        return np.full(size, r)


class ConstUniform(ConstRandom):
    def __call__(self, low=0., high=1., size=None):
        v = low + (high - low) * self.value()
        return v if size is None else np.full(size, v)


@contextlib.contextmanager
def const_random(r, later=None):
    """np.random's float draws return r (all but the first one `later`, if given)"""
    c = ConstRandom(r, later)
    u = ConstUniform(r, later)
    saved = {n: getattr(np.random, n) for n in _FLOATS if hasattr(np.random, n)}
    try:
        for n in saved:
            setattr(np.random, n, u if n == 'uniform' else c)
        yield c
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)


def sweep(machine, n=1):
    machine.infer(no_samples=n, burn_in_min=0, burn_in_max=0)


def relay(machine, data=True):
    """values in other memory layouts (decided by the values)"""
    for i, x in enumerate(machine.members):
        if x.layer is not None and x is getattr(x.layer, 'q', None):
            continue
        if x().size <= 200000 and (data or x.layer is not None):
            x.val = gen.lay(x(), i)


def warm(machine, limit=3000, data=True):
    """
    Other memory layouts; in one of four cases (decided by the state of the machine): an inference call under other
    values and settings, after which all values and settings are put back. A machine with such a
    history must behave as one without.
    """
    relay(machine, data)
    mats, lbdas, layers = machine.members, machine.lbdas, machine.layers
    if any(l.model == 'OR-AND-IBP' for l in layers) or sum(x().size for x in mats) > limit:
        return False
    key = zlib.crc32(b'warm' + b''.join(np.ascontiguousarray(x()).tobytes() for x in mats))
    if key % 4:
        return False
    rng = np.random.default_rng(key)
    stream = np.random.get_state()
    saved = []

    def put(obj, **new):
        saved.append((obj, {k: obj.__dict__[k] for k in new if k in obj.__dict__}, list(new)))
        for k, v in new.items():
            setattr(obj, k, v)

    put(machine, anneal=False, burn_in_iters=None)
    for x in mats:
        thresholds = x.layer is not None and x is getattr(x.layer, 'q', None)
        v = rng.integers(1, 6, x().shape) if thresholds else 2 * rng.integers(0, 2, x().shape) - 1
        put(x, val=v.astype(np.int8), fixed=x.fixed if x.layer is None else not rng.integers(5), trace=None,
            fixed_entries=np.zeros(x().shape, dtype=np.int8), bernoulli_prior=.3, trace_index=0)
    for l in layers:
        put(l, auto_clean=False, auto_reset=False)
        if l.model == 'qL-AND':
            put(l, gamma=2.5)
        put(l.lbda, fixed=bool(rng.integers(2)), beta_prior=(3, 2), trace=None, trace_index=0,
            val=np.linspace(.9, .2, l.size + 1) if l.model == 'MAX-AND' else .8)
    for x in list(mats) + list(lbdas):
        del x.trace
    np.random.seed(key)
    sweep(machine)
    for obj, old, names in saved:
        for k in names:
            if k in old:
                setattr(obj, k, old[k])
            elif k in obj.__dict__:
                delattr(obj, k)
    np.random.set_state(stream)
    return True


def new_machine(X, L, model, factors=None, lbda=None, fixed=True):
    m = lom.Machine()
    data = m.add_matrix(np.array(X, dtype=np.int8), fixed=fixed)
    layer = m.add_layer(latent_size=L, child=data, model=model)
    if factors is not None:
        for f, v in zip(layer.factors, factors):
            f.val = np.array(v, dtype=np.int8)
    if lbda is not None:
        layer.lbda.val = lbda
    return m, layer, data


def fix_all(machine):
    for mat in machine.members:
        mat.fixed = True
    for lb in machine.lbdas:
        lb.fixed = True


def snapshot(machine):
    return [np.array(m(), copy=True) for m in machine.members]


class Site:
    """one entry of one matrix of a machine in which everything else is held fixed"""

    def __init__(self, machine, mat, index):
        self.machine, self.mat, self.index = machine, mat, tuple(index)
        warm(machine)
        fix_all(machine)
        self.free = []
        key = zlib.crc32(b'site' + np.ascontiguousarray(mat()).tobytes())
        if key % 2 and sum(x().size for x in machine.members) <= 3000 and \
                not any(l.model == 'OR-AND-IBP' for l in machine.layers):
            # what else is there is sampled and recorded as well, but with all entries marked, and
            # lambdas are updated at the end of the sweep
            for i, x in enumerate([f for l in machine.layers for f in l.factors]):
                if key >> (i % 8 + 1) & 1:
                    x.fixed = False
                    x.fixed_entries = np.ones(x().shape, dtype=np.int8)
            for i, l in enumerate(machine.lbdas):
                if key >> (i % 8 + 9) & 1:
                    l.fixed = False
                    self.free.append((l, np.array(l.val, copy=True) if np.ndim(l.val) else l.val))
        mat.fixed = False
        mat.fixed_entries = np.ones(mat().shape, dtype=np.int8)
        mat.fixed_entries[self.index] = 0
        self.before = None

    def update(self, s):
        """set the entry to s, run one sweep, return the new value; all else must stay"""
        self.mat.val[self.index] = s
        for l, v in self.free:
            l.val = np.array(v, copy=True) if np.ndim(v) else v
        before = snapshot(self.machine)
        lb = [np.array(l.val, copy=True) for l in self.machine.lbdas]
        sweep(self.machine)
        new = self.mat()[self.index]
        for m, b in zip(self.machine.members, before):
            a = m()
            if a.shape != b.shape:
                raise Violation('an update changed the shape of a matrix')
            d = a != b
            if m is self.mat:
                d[self.index] = False
            if d.any():
                raise Violation('updating entry %s also changed other entries: %s' % (
                    self.index, np.argwhere(d)[:3].tolist()))
        for l, b in zip(self.machine.lbdas, lb):
            if l.fixed and not np.array_equal(l.val, b):
                raise Violation('a fixed lambda changed during the update')
        if new not in (-1, 1):
            raise Violation('entry %s became %r' % (self.index, new))
        return int(new)

    def flips(self, s, r):
        with const_random(r) as c:
            out = self.update(s) != s
        self.calls = c.calls
        return out


def check_odds(site, logit, eps=1e-6, what=''):
    """
    the flip probabilities of the site must have the ratio exp(logit) (from -1 to 1,
    over from 1 to -1). Fast path: the acceptance thresholds of metropolised Gibbs.
    """
    ok = True
    for s in (-1, 1):
        a = -s * logit
        if a >= 0 or abs(a) < eps:
            rs = [(1e-12, True), (1 - 1e-4, True)] if abs(a) >= eps else [(1e-12, True)]
        elif a > -650:
            p = math.exp(a)
            rs = [(p * (1 - eps), True), (min(p * (1 + eps), 1 - 1e-13), False)]
            if p * (1 + eps) >= 1:
                rs = rs[:1]
        else:
            rs = [(1e-280, False)]
        for r, want in rs:
            if site.flips(s, r) != want:
                ok = False
                break
        if not ok:
            break
    if ok:
        return 'threshold'
    # any other kernel: measure the flip probabilities
    q = {}
    for s in (-1, 1):
        q[s] = measure(site, s)
    if q[-1] is None or q[1] is None:
        return statistical(site, logit, what)
    if q[-1] <= 0 or q[1] <= 0:
        if q[-1] <= 0 and logit < -25 or q[1] <= 0 and logit > 25:
            if q[-s_of(logit)] > .4:
                return 'saturated'
        raise Violation('%sentry %s: flip probabilities %.6g (-1 to 1) and %.6g (1 to -1), '
                        'posterior log odds %.6g' % (what, site.index, q[-1], q[1], logit))
    got = math.log(q[-1]) - math.log(q[1])
    tol = 1e-4 + 20 * eps + 1e-9 / min(q[-1], q[1])
    if abs(got - logit) > tol:
        raise Violation('%sentry %s of a matrix with child axis %s: log ratio of the flip '
                        'probabilities is %.9g, posterior log odds are %.9g' % (
                            what, site.index, site.mat.child_axis, got, logit))
    return 'measured'


def s_of(x):
    return 1 if x > 0 else -1


def measure(site, s):
    """
    measure of the set of r in (0,1) for which the update flips, assumed to be an
    interval with one end at 0 or 1. None if the draw is not under our control.
    """
    lo, hi = 1e-300, 1 - 1e-16
    f_lo, f_hi = site.flips(s, lo), site.flips(s, hi)
    if f_lo == f_hi:
        mid = [site.flips(s, r) for r in (.1, .3, .5, .7, .9)]
        if any(m != f_lo for m in mid):
            return None
        if not f_lo and site.calls == 0 or f_lo:
            # always or never, or the source of randomness is another one
            if any(site.update(s) != (s if not f_lo else -s) for _ in range(200)):
                return None
        return 1. if f_lo else 0.
    a, b = -300 * math.log(10), 0.
    if f_lo:          # flips for r below the boundary: bisect log r
        for _ in range(60):
            m = .5 * (a + b)
            if site.flips(s, math.exp(m)):
                a = m
            else:
                b = m
        return math.exp(.5 * (a + b))
    lo, hi = 0., 1.   # flips for r above the boundary
    for _ in range(55):
        m = .5 * (lo + hi)
        if site.flips(s, m):
            hi = m
        else:
            lo = m
    return 1 - .5 * (lo + hi)


def statistical(site, logit, what):
    n = 4000
    q = {}
    for s in (-1, 1):
        q[s] = sum(site.update(s) != s for _ in range(n)) / n
    # detailed balance residual: pi(-1) q(-) - pi(1) q(+)
    p1 = 1 / (1 + math.exp(-max(-700, min(700, logit))))
    res = (1 - p1) * q[-1] - p1 * q[1]
    sd = math.sqrt(((1 - p1)**2 * max(q[-1] * (1 - q[-1]), 1 / n) +
                    p1**2 * max(q[1] * (1 - q[1]), 1 / n)) / n)
    if abs(res) > 6.5 * sd + 1e-3:
        raise Violation('%sentry %s: flip frequencies %.4f (-1 to 1) and %.4f (1 to -1) '
                        'contradict posterior log odds %.4f' % (
                            what, site.index, q[-1], q[1], logit))
    return 'statistical'
