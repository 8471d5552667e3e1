"""
Runner: generated cases (Hypothesis) against explicit oracles, sharded over
forked worker processes; shrinking; replay files; evidence.

A property module (props/cXX.py) defines ID and SUBS, a list of Sub. Every case
is a plain dict of numbers, strings, lists and numpy arrays, so that the shrunk
failing case can be written to a replay file and re-run without Hypothesis.
"""
import contextlib
import hashlib
import importlib
import io
import json
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import zlib

import numpy as np

from . import boot

VERIF = boot.VERIF


class Violation(Exception):
    """the property does not hold on this case"""


class Skip(Exception):
    """the case can't be decided (counted, never an alarm)"""


class HarnessError(Exception):
    pass


class Abort(KeyboardInterrupt):
    """time budget of a shard used up"""


class Hang(BaseException):
    """a single case takes far longer than any case can"""


CASE_SECONDS = 60


@contextlib.contextmanager
def time_limit(seconds):
    def stop(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, shards=8, what=''):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough or 20 * quick
        self.shards = shards
        self.what = what


# --------------------------------------------------------------------------
# cases as JSON

def to_json(x):
    if isinstance(x, np.ndarray):
        return {'__nd__': x.tolist(), 'dtype': str(x.dtype), 'shape': list(x.shape)}
    if isinstance(x, np.generic):
        return to_json(x.item())
    if isinstance(x, float) and not math.isfinite(x):
        return {'__float__': repr(x)}
    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return {'__tuple__': [to_json(v) for v in x]}
    if isinstance(x, list):
        return [to_json(v) for v in x]
    return x


def from_json(x):
    if isinstance(x, dict):
        if '__nd__' in x:
            return np.array(x['__nd__'], dtype=x['dtype']).reshape(x['shape'])
        if '__float__' in x:
            return float(x['__float__'])
        if '__tuple__' in x:
            return tuple(from_json(v) for v in x['__tuple__'])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_json(v) for v in x]
    return x


def case_key(case):
    return hashlib.blake2b(json.dumps(to_json(case), sort_keys=True).encode(),
                           digest_size=8).digest()


def brief(case, limit=1500):
    s = json.dumps(to_json(case), sort_keys=True)
    s = s.replace('"__nd__": ', '')
    return s if len(s) <= limit else s[:limit] + '...'


# --------------------------------------------------------------------------
# running one case

class Info:
    """what a case did: labels, and whether it was non-trivial"""

    def __init__(self):
        self.nontrivial = True
        self.labels = []

    def label(self, *names):
        self.labels.extend(names)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        yield buf


def in_repo(tb):
    root = os.path.realpath(boot.REPO) + os.sep
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(root):
            return True
    return False


def run_case(sub, case):
    """
    Returns (info, None) or (info, message of a violation).
    Exceptions that come out of the repository's code on valid input are violations,
    other exceptions are errors of the harness.
    """
    info = Info()
    seed = int.from_bytes(case_key(case)[:4], 'little')
    np.random.seed(seed)
    random.seed(seed)
    try:
        with np.errstate(all='ignore'), quiet(), time_limit(CASE_SECONDS):
            sub.fn(case, info)
        return info, None
    except Violation as e:
        return info, str(e)
    except Skip:
        info.nontrivial = False
        info.label('skipped')
        return info, None
    except Hang as e:
        if in_repo(e.__traceback__):
            return info, 'no result after %d s' % CASE_SECONDS
        raise HarnessError('a case takes more than %d s' % CASE_SECONDS)
    except Exception as e:
        if in_repo(e.__traceback__):
            tail = traceback.extract_tb(e.__traceback__)[-1]
            return info, 'unexpected %s: %s (at %s:%s)' % (
                type(e).__name__, str(e)[:300], os.path.basename(tail.filename), tail.lineno)
        if isinstance(e, (ValueError, IndexError, KeyError, TypeError, ZeroDivisionError,
                          AttributeError)):
            # the oracle can't digest what the code returned (shape, type, structure)
            tail = traceback.extract_tb(e.__traceback__)[-1]
            return info, 'unusable result, %s: %s (at %s:%s)' % (
                type(e).__name__, str(e)[:300], os.path.basename(tail.filename), tail.lineno)
        raise


# --------------------------------------------------------------------------
# one shard of one sub check

def run_shard(args):
    mod_name, sub_name, seed, n, budget, shrink_s = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = shrink_s
    mod = importlib.import_module('props.' + mod_name)
    sub = [s for s in mod.SUBS if s.name == sub_name][0]
    t0 = time.time()
    st = {'sub': sub_name, 'evaluations': 0, 'keys': set(), 'labels': {}, 'samples': [],
          'fail': None, 'error': None, 'cut': False}
    fail = {'case': None, 'msg': None, 'since': None, 'size': None}

    def body(case):
        now = time.time()
        if fail['since'] is None:
            if now - t0 > budget:
                st['cut'] = True
                raise Abort()
        elif now - fail['since'] > shrink_s + 5:
            raise Abort()
        info, msg = run_case(sub, case)
        if fail['since'] is None:
            st['evaluations'] += 1
            for lab in set(info.labels):
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if info.nontrivial:
                k = case_key(case)
                if k not in st['keys']:
                    st['keys'].add(k)
                    if len(st['samples']) < 2 and st['evaluations'] > 3:
                        st['samples'].append(brief(case, 600))
        if msg is not None:
            if fail['since'] is None:
                fail['since'] = time.time()
            # Hypothesis re-runs the minimal case last, keep the smallest seen as well
            fail['case'], fail['msg'] = case, msg
            raise Violation(msg)

    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink),
                    verbosity=hypothesis.Verbosity.quiet,
                    print_blob=False)(given(sub.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation:
        pass
    except Abort:
        pass
    except BaseException as e:
        if fail['case'] is None:
            st['error'] = ''.join(traceback.format_exception(e))[-4000:]
    if fail['case'] is not None:
        # confirm outside Hypothesis
        msg = None
        for _ in range(3):
            msg = msg or run_case(sub, fail['case'])[1]
        st['fail'] = {'case': to_json(fail['case']), 'msg': msg or (
            fail['msg'] + ' [seen once, not on re-running the same case]')}
    st['wall'] = time.time() - t0
    return st


# --------------------------------------------------------------------------
# known findings

def known_findings(pid):
    """
    entries 'known: property=<id> sub=<sub check> case=<substring of the violation> <what>'
    of known_findings.txt; 'fixed:' entries suppress nothing.
    """
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                out.append(rest)
    return out


# --------------------------------------------------------------------------

def write_replay(pid, sub, case, msg, tag):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s_%s.json' % (pid, sub, tag))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'sub': sub, 'violation': msg, 'case': case}, f, indent=1)
    return path


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod_name = pid.lower()
    mod = importlib.import_module('props.' + mod_name)
    thorough = tier == 'thorough'
    budget = float(os.environ.get('VERIF_BUDGET', 2400 if thorough else 45))
    shrink_s = float(os.environ.get('VERIF_SHRINK', 60 if thorough else 25))
    procs = int(os.environ.get('VERIF_PROCS', 0)) or min(8, os.cpu_count() or 1)

    evaluations, keys, labels, samples, errors, fails = 0, {}, {}, [], [], []
    per_sub = {}

    # regression cases first
    corpus_dir = os.path.join(VERIF, 'corpus', pid)
    subs = {s.name: s for s in mod.SUBS}
    replayed = 0
    if os.path.isdir(corpus_dir):
        for f in sorted(os.listdir(corpus_dir)):
            d = json.load(open(os.path.join(corpus_dir, f)))
            sub = subs.get(d['sub'])
            if sub is None:
                continue
            case = from_json(d['case'])
            try:
                info, msg = run_case(sub, case)
            except Exception as e:
                errors.append('corpus %s: %s' % (f, ''.join(traceback.format_exception(e))[-3000:]))
                continue
            replayed += 1
            evaluations += 1
            per_sub.setdefault(sub.name, [0, 0])[0] += 1
            if info.nontrivial:
                keys.setdefault(sub.name, set()).add(case_key(case))
            if msg is not None:
                fails.append((sub.name, to_json(case), msg, 'corpus'))

    tasks = []
    for i, sub in enumerate(mod.SUBS):
        n = sub.thorough if thorough else sub.quick
        shards = max(1, min(sub.shards, n, procs))
        for k in range(shards):
            s = zlib.crc32(('%d/%s/%s/%d' % (seed, pid, sub.name, k)).encode())
            m = n // shards + (1 if k < n % shards else 0)
            tasks.append((mod_name, sub.name, s, m, budget, shrink_s))
    # interleave so that long sub checks of every kind start early
    tasks.sort(key=lambda t: -t[3] / max(1, (subs[t[1]].thorough if thorough else subs[t[1]].quick)))

    ctx = multiprocessing.get_context('fork')
    cut = False
    deadline = t0 + (budget + 2 * shrink_s + 4 * CASE_SECONDS if not thorough else 4 * 3600)
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        it = pool.imap_unordered(run_shard, tasks)
        for _ in tasks:
            try:
                st = it.next(timeout=max(5, deadline - time.time()))
            except multiprocessing.TimeoutError:
                errors.append('shards did not finish in time')
                break
            evaluations += st['evaluations']
            ps = per_sub.setdefault(st['sub'], [0, 0])
            ps[0] += st['evaluations']
            keys.setdefault(st['sub'], set()).update(st['keys'])
            for k, v in st['labels'].items():
                k = st['sub'] + ':' + k
                labels[k] = labels.get(k, 0) + v
            if len([1 for s in samples if s['sub'] == st['sub']]) < 2:
                samples += [{'sub': st['sub'], 'case': c} for c in st['samples'][:1]]
            cut = cut or st['cut']
            if st['error']:
                errors.append('%s: %s' % (st['sub'], st['error']))
            if st['fail']:
                fails.append((st['sub'], st['fail']['case'], st['fail']['msg'], 'seed%d' % seed))
                # one violation is enough for the verdict: stop early
                if not thorough:
                    pool.terminate()
                    break

    known = known_findings(pid)
    seen_known = []
    reported = []
    for sub, case, msg, tag in sorted(fails, key=lambda f: len(json.dumps(f[1]))):
        hit = None
        for k in known:
            if ('sub=%s ' % sub) in k + ' ' and k.split('case=', 1)[-1].split('|')[0].strip() in msg:
                hit = k
        if hit:
            seen_known.append(hit)
        else:
            reported.append((sub, case, msg, tag))
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for sub, case, msg, tag in reported[:5]:
        path = write_replay(pid, sub, case, msg, tag)
        print('[%s/%s] %s' % (pid, sub, msg))
        print('VIOLATION property=%s replay=%s' % (pid, path))

    nontrivial = sum(len(v) for v in keys.values())
    for s, k in keys.items():
        per_sub.setdefault(s, [0, 0])[1] = len(k)
    evidence = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': mod.RULE,
            'samples': samples[:12],
            'per_sub_check': {s: {'evaluations': v[0], 'distinct_nontrivial': v[1],
                                  'what': subs[s].what} for s, v in sorted(per_sub.items())},
            'labels': dict(sorted(labels.items())),
            'regression_cases_replayed': replayed,
            'cut_by_time_budget': cut,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if reported:
        return 1
    if errors:
        for e in errors[:5]:
            print('HARNESS-ERROR [%s] %s' % (pid, e))
        return 2
    print('OK %s %s: %d cases, %d distinct non-trivial, %.1f s%s' % (
        pid, tier, evaluations, nontrivial, time.time() - t0, ' (time budget hit)' if cut else ''))
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('props.' + d['property'].lower())
    sub = [s for s in mod.SUBS if s.name == d['sub']][0]
    info, msg = run_case(sub, from_json(d['case']))
    if msg is None:
        print('REPLAY %s/%s: property holds on this case' % (d['property'], d['sub']))
        return 0
    print('[%s/%s] %s' % (d['property'], d['sub'], msg))
    print('VIOLATION property=%s replay=%s' % (d['property'], os.path.abspath(path)))
    return 1
