"""C25 Results depend only on a machine's own inputs, settings and random stream"""
import contextlib
import io
import os
import pickle
import random
import signal
import traceback

import numpy as np
from hypothesis import strategies as st

import lom
import lom.auxiliary_functions as aux
import lom.experiments as ex
from harness import gen
from harness.core import Skip, Sub, Violation

RULE = ('two or three actors (machines of all kinds, often of the same model and shape, and a user '
        'of the stateless functions), up to 14 operations; all operations interleaved in one process '
        'against the operations of each actor alone, in a process of its own, under the same random '
        'streams; non-trivial: an inference call between two operations of another actor')


# --- processes of their own

def in_child(fct):
    """result of fct() in a forked copy of this process, which has run no operation so far"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fct())
            except Exception:
                out = (False, traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('a forked process ended without an answer')
    return pickle.loads(data)


# --- actors

def build(spec):
    m = lom.Machine()
    kind = spec['kind']
    data = m.add_matrix(spec['X'].copy(), fixed=kind != 'free')
    model = {'max': 'MAX-AND', 'q': 'qL-AND', 'ibp': 'OR-AND-IBP'}.get(kind, spec['model'])
    l = m.add_layer(latent_size=spec['L'], child=data, model=model)
    if kind == 'ibp':
        l.alpha = 3.
    if kind == 'stack':
        m.add_layer(latent_size=2, child=l.factors[spec['axis']], model=spec['model2'])
    return m


def snapshot(m):
    out = [np.array(x(), copy=True) for x in m.members]
    out += [np.array(x(), copy=True) for x in m.lbdas]
    out += [np.array(x.trace, copy=True) for x in list(m.members) + list(m.lbdas) if hasattr(x, 'trace')]
    out += [x.fixed_entries.copy() for x in m.members]
    out += [repr([bool(x.fixed) for x in m.members]), repr([l.model for l in m.layers]),
            repr([len(x.parents) for x in m.members]), repr([l.size for l in m.layers]),
            repr([len(m.layers), len(m.matrices)]), repr(getattr(m, 'burn_in_iters', None))]
    return out


def machine_op(m, op, arg, seed):
    rng = np.random.default_rng([seed, 5])
    layers = m.layers
    l = layers[arg % len(layers)]
    facs = [f for x in layers for f in x.factors]
    f = facs[arg % len(facs)]
    if op == 'infer':
        n, lo = arg % 5, arg // 5 % 3
        m.infer(no_samples=n, burn_in_min=lo, burn_in_max=lo + arg // 15 % 8, convergence_window=2,
                convergence_eps=.1)
    elif op == 'output':
        if l.size and not gen.uneven(l):
            return [np.array(l.output(technique=['factor_map', 'factor_mean', 'mc', 'point_estimate'][arg % 4],
                                      lazy=bool(arg // 4 % 2)), copy=True)]
    elif op == 'setval':
        f.val = (2 * rng.integers(0, 2, f().shape) - 1).astype(np.int8)
    elif op == 'prior':
        f.bernoulli_prior = [.1, .5, .9][arg % 3]
    elif op == 'beta':
        l.lbda.beta_prior = [(1, 1), (20, 1), (1, 5)][arg % 3]
    elif op == 'fix':
        if l.model != 'OR-AND-IBP':
            f.fixed = not f.fixed
    elif op == 'marks':
        if f.layer.model != 'OR-AND-IBP':
            if arg % 2:
                f.fixed_entries[...] = rng.random(f().shape) < .4
            else:
                f.fixed_entries = (rng.random(f().shape) < .4).astype(np.int8)
    elif op == 'lbda':
        if l.model == 'MAX-AND':
            l.lbda.val[:] = .05 + .9 * rng.random(l.size + 1)
        else:
            l.lbda.val = [.2, 1., 2.][arg % 3]
    elif op == 'clean':
        if len(layers) == 1 and l.model in gen.IMPL + ['MAX-AND']:
            aux.clean_up_codes(l, reset=bool(arg % 2), clean=not arg % 2)
            for x in l.factors + [l.lbda]:
                x.__dict__.pop('trace', None)
    elif op == 'layer':
        if len(layers) < 3:
            d = m.add_matrix(gen.seeded_data(seed, (2 + arg % 2, 3), .5, .2), fixed=True)
            m.add_layer(latent_size=1 + arg % 3, child=d, model=gen.ALL36[arg % 36])
    return []


def user_op(spec, op, arg, seed):
    """the functions without a machine, as called by a user"""
    rng = np.random.default_rng([seed, 5])
    X, L = spec['X'], spec['L']
    fs = [gen.seeded_signs([seed, i], (n, L)) for i, n in enumerate(X.shape)]
    kind = {'infer': 0, 'output': 1, 'setval': 2, 'prior': 3, 'beta': 4, 'fix': 5, 'marks': 6, 'lbda': 7,
            'clean': 8, 'layer': 9}[op]
    model = gen.ALL36[arg % 36]
    if kind == 0:
        return [aux.lom_generate_data_fast(fs, spec['model']), aux.lom_generate_data(fs, model)]
    if kind == 1:
        return [aux.lom_generate_data_fast([(1 + f) / 2 for f in fs], spec['model'], fuzzy=True)]
    if kind == 2:
        return [np.array([aux.expected_density(model, L, X.ndim, x) for x in (0., .3, 1.)])]
    if kind == 3:
        return [repr(sorted(aux.canonical_loms())), repr(aux.replace_equivalent_model(model))]
    if kind == 4:
        return list(ex.split_train_test(np.where(X == 0, 1, X), split=.3))
    if kind == 5:
        return [aux.add_bernoulli_noise_2d(X, .3) if X.ndim == 2 else X]
    if kind == 6:
        out = ex.generate_random_tensor(L, [3, 4, 2], noise=.1, density=.5)
        return flat(out)
    if kind == 7:
        p = rng.random((4, 5))
        truth = np.where(np.arange(20).reshape(4, 5) % 2, 1, -1)
        return [np.array(aux.get_roc_auc(truth, np.zeros((4, 5)), p))]
    if kind == 8:
        return [repr(aux.unique_ordered(rng.integers(0, 5, 9).tolist())), aux.expit(rng.normal(size=5))]
    return [np.array(aux.factor_density(spec['model'], L, X.ndim, .3))]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [np.array(x)]


def execute(case, only=None):
    """carry out the operations (of one actor); a log of results per actor"""
    actors, logs = {}, {}
    with contextlib.redirect_stdout(io.StringIO()):
        for step, (who, op, arg) in enumerate(case['ops']):
            who = who % len(case['actors'])
            if only is not None and who != only:
                continue
            spec = case['actors'][who]
            seed = (case['seed'] + 101 * step) % 2**32
            np.random.seed(seed)
            random.seed(seed)
            log = logs.setdefault(who, [])
            if spec['kind'] == 'user':
                log.append((step, op, user_op(spec, op, arg, seed)))
                continue
            if who not in actors:
                actors[who] = build(spec)
            out = machine_op(actors[who], op, arg, seed)
            log.append((step, op, out + snapshot(actors[who])))
        # what becomes of the others while the last ones are at work
        for who, m in actors.items():
            logs[who].append((len(case['ops']), 'end', snapshot(m)))
    return logs


OPS = ['infer', 'infer', 'infer', 'output', 'output', 'setval', 'prior', 'beta', 'fix', 'marks', 'lbda',
       'clean', 'layer']


@st.composite
def actors_case(draw):
    n = draw(st.integers(2, 3))
    actors, base = [], None
    for i in range(n):
        kind = draw(st.sampled_from(['2d', '2d', '3d', 'max', 'q', 'ibp', 'stack', 'free', 'user']))
        like = base is not None and draw(st.sampled_from([True, True, False]))
        spec = {'kind': kind, 'model': draw(st.sampled_from(gen.IMPL)),
                'model2': draw(st.sampled_from(gen.IMPL)), 'L': draw(st.integers(1, 4)),
                'axis': draw(st.integers(0, 1))}
        shape = draw(gen.dims(3 if kind == '3d' else 2, 1, 4 if kind == '3d' else 6))
        X = draw(gen.data([6] * len(shape)))
        if like and base['kind'] != 'user' and kind != 'user':
            # same kind and sizes, other data
            spec.update({k: base[k] for k in ('kind', 'model', 'L')})
            shape = list(base['X'].shape)
            X = gen.seeded_data(draw(gen.seeds), shape, .5, .1)
        spec['X'] = X[tuple(slice(0, s) for s in shape)].copy()
        if spec['kind'] == 'free':
            spec['X'] = np.where(spec['X'] == 0, 1, spec['X']).astype(np.int8)
        actors.append(spec)
        base = spec if base is None else base
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(OPS), st.integers(0, 600)),
                        min_size=5, max_size=14))
    return {'actors': actors, 'ops': ops, 'seed': draw(gen.seeds)}


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def actors(case, info):
    fine, together = in_child(lambda: execute(case))
    separate = {}
    for who in sorted({w % len(case['actors']) for w, _, _ in case['ops']}):
        ok, alone = in_child(lambda: execute(case, who))
        if not ok:
            # not a matter of the other actors
            raise Skip()
        separate[who] = alone[who]
    if not fine:
        raise Violation('operations of several actors in one process: %s' % together[-900:])
    for who, alone in separate.items():
        spec = case['actors'][who]
        for (step, op, a), (_, _, b) in zip(together[who], alone):
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                bad = [i for i, (x, y) in enumerate(zip(a, b)) if not same(x, y)]
                raise Violation('after step %d (%s) actor %d (%s) has other results than without the '
                                'operations of the others (items %s of %d): %s / %s' % (
                                    step, op, who, spec['kind'], bad[:4], len(a),
                                    str(a[bad[0]])[:80] if bad else len(a),
                                    str(b[bad[0]])[:80] if bad else len(b)))
        info.label(spec['kind'])
    n = len(case['actors'])
    seq = [(w % n, op) for w, op, _ in case['ops']]
    info.nontrivial = any(
        op == 'infer' and case['actors'][w]['kind'] != 'user' and
        {x for x, _ in seq[:i]} & {x for x, _ in seq[i + 1:]} - {w} for i, (w, op) in enumerate(seq))


@st.composite
def again_case(draw):
    c = draw(actors_case())
    c['actors'] = c['actors'][:1]
    return c


def again(case, info):
    """the same operations under the same random stream, a second time in the same process"""
    ok, out = in_child(lambda: (execute(case), execute(case)))
    if not ok:
        if not in_child(lambda: execute(case))[0]:
            raise Skip()
        raise Violation('operations repeated in one process: %s' % out[-900:])
    first, second = out
    for who, spec in enumerate(case['actors']):
        for (step, op, a), (_, _, b) in zip(first.get(who, []), second.get(who, [])):
            if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                raise Violation('step %d (%s) of actor %d (%s) has other results when everything is '
                                'repeated under the same random stream' % (step, op, who, spec['kind']))
    info.nontrivial = any(op == 'infer' for _, op, _ in case['ops']) and case['actors'][0]['kind'] != 'user'
    info.label(case['actors'][0]['kind'])


@st.composite
def functions_case(draw):
    calls = [{'kind': draw(st.sampled_from(sorted(FUNCTIONS))), 'K': draw(st.sampled_from([2, 3])),
              'L': draw(st.integers(1, 3)), 'model': draw(st.sampled_from(gen.IMPL[:4] + gen.ALL36[:2])),
              'x': draw(st.sampled_from([.1, .3, .304, .5])), 'seed': draw(gen.seeds),
              'n': draw(st.integers(2, 5))} for _ in range(draw(st.integers(3, 9)))]
    return {'calls': calls}


def impl(c):
    return c['model'] if c['model'] in gen.IMPL else 'OR-AND'


def signs_of(c):
    return [gen.seeded_signs([c['seed'], i], (c['n'] - (i > 1), c['L'])) for i in range(c['K'])]


FUNCTIONS = {
    'density': lambda c: [aux.factor_density(impl(c), c['L'], c['K'], c['x'])],
    'expected': lambda c: [aux.expected_density(c['model'], c['L'], c['K'], c['x'])],
    'product': lambda c: [aux.lom_generate_data(signs_of(c), c['model'])],
    'fast': lambda c: [aux.lom_generate_data_fast(signs_of(c), impl(c))],
    'fuzzy': lambda c: [aux.lom_generate_data_fast([(f + c['x']) / 2 for f in signs_of(c)], impl(c), fuzzy=True)],
    'names': lambda c: [repr(aux.canonical_loms()), repr(aux.replace_equivalent_model(c['model'])),
                        repr(aux.get_lom_class(c['model']))],
    'split': lambda c: list(ex.split_train_test(signs_of(c)[0], split=c['x'])),
    'noise': lambda c: [aux.add_bernoulli_noise_2d(signs_of(c)[0], c['x']),
                        aux.add_bernoulli_noise_2d_biased(signs_of(c)[0], c['x'], .5),
                        aux.add_bernoulli_noise_2d(signs_of(c)[0], c['x'], seed=c['n'])],
    'random': lambda c: [aux.random_machine_matrix(c['x'], (c['n'], c['L']))],
    'orm': lambda c: list(aux.generate_orm_product(N=9, D=8, L=c['L'])),
    'tensor': lambda c: flat(ex.generate_random_tensor(c['L'], [c['n'], 3, 2], noise=c['x'], density=c['x'])),
    'coding': lambda c: [aux.check_binary_coding((signs_of(c)[0] + c['n'] % 2) // (1 + c['n'] % 2))],
    'tables': lambda c: flat([aux.compute_bp(c['x'], c['n'], c['n']),
                              aux.compute_bbp(c['n'], 2., float(c['L']))])
}


def functions(case, info):
    """functions without a machine: the same result whatever was called before"""
    def run(order):
        out = {}
        with contextlib.redirect_stdout(io.StringIO()):
            for i in order:
                c = case['calls'][i]
                np.random.seed(c['seed'] % 2**32)
                random.seed(c['seed'])
                res = FUNCTIONS[c['kind']](c)
                out[i] = [x if isinstance(x, str) else np.array(x, copy=True) for x in res]
                for x in res:
                    # results belong to the caller
                    if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
                        x[...] = 0
        return out

    n = len(case['calls'])
    ok, a = in_child(lambda: run(range(n)))
    ok2, b = in_child(lambda: run(range(n)[::-1]))
    if not ok or not ok2:
        if not ok and not ok2:
            raise Skip()
        raise Violation('%d calls fail in one order only: %s' % (n, (b if ok else a)[-600:]))
    for i in range(n):
        if len(a[i]) != len(b[i]) or not all(same(x, y) for x, y in zip(a[i], b[i])):
            raise Violation('call %d (%s) has other results when the %d calls are made in the '
                            'opposite order: %s / %s' % (i, case['calls'][i]['kind'], n,
                                                         str(a[i])[:80], str(b[i])[:80]))
    kinds = [c['kind'] for c in case['calls']]
    info.nontrivial = len(set(kinds)) < len(kinds)
    info.label(*set(kinds))


@st.composite
def worn_case(draw):
    c = draw(actors_case())
    return {'actor': c['actors'][0], 'ops': [(0, op, arg) for _, op, arg in c['ops']], 'seed': c['seed'],
            'wear': draw(st.sampled_from(['infer', 'functions', 'machines', 'alike'])),
            'other': dict(c['actors'][1], X=c['actors'][1]['X'][tuple(slice(0, 2) for _ in c['actors'][1]['X'].shape)])}


def wear(case):
    """long use of the library, for something else"""
    with contextlib.redirect_stdout(io.StringIO()):
        spec = case['other']
        np.random.seed(5)
        random.seed(5)
        if case['wear'] == 'infer':
            if spec['kind'] == 'user':
                spec = dict(spec, kind='2d')
            m = build(spec)
            for l in m.lbdas:
                if l.layer.model not in ('MAX-AND', 'OR-AND-IBP'):
                    l.val = .5
            m.infer(no_samples=130, burn_in_min=10, burn_in_max=900, convergence_window=2, convergence_eps=0.)
            for i in range(140):
                if m.layers[0].size and not gen.uneven(m.layers[0]):
                    m.layers[0].output(technique='factor_mean')
        elif case['wear'] == 'functions':
            for i in range(300):
                user_op(dict(spec, kind='user'), OPS[i % len(OPS)], i, i)
        else:
            # many machines, built and thrown away
            for i in range(150):
                a = case['actor'] if case['wear'] == 'alike' else spec
                m = build(dict(a, kind='2d' if a['kind'] == 'user' else a['kind'], L=1 + i % 4))
                if i % 3 == 0:
                    m.infer(no_samples=1, burn_in_min=1, burn_in_max=1)


def worn(case, info):
    """the results after a long use of the library are those of a fresh process"""
    one = {'actors': [case['actor']], 'ops': case['ops'], 'seed': case['seed']}
    ok, fresh = in_child(lambda: execute(one))
    if not ok:
        raise Skip()

    def after():
        try:
            wear(case)
        except Exception:
            return None         # not what is looked at here
        return execute(one)
    ok, late = in_child(after)
    if ok and late is None:
        raise Skip()
    if not ok:
        raise Violation('after long use (%s): %s' % (case['wear'], late[-900:]))
    for (step, op, a), (_, _, b) in zip(late[0], fresh[0]):
        if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
            raise Violation('after long use of the library (%s), step %d (%s) has other results than in '
                            'a fresh process' % (case['wear'], step, op))
    info.nontrivial = any(op == 'infer' for _, op, _ in case['ops'])
    info.label(case['wear'], case['actor']['kind'])


SUBS = [
    Sub('worn', worn_case(), worn, 64, 1600, what='after hundreds of other calls against a fresh process'),
    Sub('functions', functions_case(), functions, 1500, 30000,
        what='functions without a machine, called in opposite orders'),
    Sub('actors', actors_case(), actors, 1600, 30000,
        what='interleaved operations of several machines against each machine alone'),
    Sub('again', again_case(), again, 600, 12000, what='repeated under the same random stream'),
]
