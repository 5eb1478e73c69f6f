"""Runner of the generated-input checks.

A check module (checks/pNN.py) defines

    PROPERTY     the id of properties.jsonl
    RULE         how cases are made and which are non-trivial
    ASSUMPTIONS  list of str
    subs(tier)   list of Sub

A Sub is one executable property: a Hypothesis strategy of JSON-able cases, a
body that raises Violation when the property fails on a case, and a predicate
that tells the non-trivial cases.  The body gets nothing but the case, so that
a case (shrunk by Hypothesis) written to a file is a replay.
"""
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import signal
import sys
import threading
import time
import traceback
import warnings
from contextlib import contextmanager, redirect_stdout
from dataclasses import dataclass, field
from typing import Any, Callable

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
SCRATCH = os.path.join(HERE, '.scratch')


class Violation(Exception):
    """the property does not hold on this case"""


@dataclass
class Sub:
    name: str
    strategy: Any
    body: Callable
    n: int                      # number of generated cases
    nontrivial: Callable = lambda case: True
    known: Callable = None      # case, message -> text of the known finding or None
    pinned: tuple = ()          # boundary cases run before the generated ones
    shrink_s: float = 25.0
    dedup: bool = True          # run distinct cases only
    shards: int = 1             # parallel parts, each with its own seed and its share of n and pinned
    meta: dict = field(default_factory=dict)


def load(name):
    """import a module of the code under test; a failing import is a harness error
    unless the module simply raises, in which case nothing can be checked"""
    return importlib.import_module('ajdmom.' + name)


SHIELD = [True]


@contextmanager
def bare():
    """let calls show what they print and leave behind"""
    SHIELD[0] = False
    try:
        yield
    finally:
        SHIELD[0] = True


def call(what, f, *a, **kw):
    """call the code under test; it may not raise here"""
    try:
        if not SHIELD[0]:
            return f(*a, **kw)
        with redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(*a, **kw)
    except Violation:
        raise
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(t.filename)}:{t.lineno} {t.name}' for t in reversed(tb[-3:]))
        raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:300]} [{where}]')


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def expect_raises(what, exc, f, *a, **kw):
    """the call must be rejected with one of exc"""
    try:
        with redirect_stdout(io.StringIO()):
            r = f(*a, **kw)
    except exc:
        return
    except Exception as e:
        raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:200]} instead of '
                        f'{"/".join(x.__name__ for x in (exc if isinstance(exc, tuple) else (exc,)))}')
    raise Violation(f'{what} was accepted and returned {str(r)[:200]!r}')


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def derive_seed(seed, *names):
    h = hashlib.sha256(repr((seed,) + names).encode()).digest()
    return int.from_bytes(h[:8], 'big')


PATIENCE = 240  # seconds for one case; the slowest takes less than a tenth of it


class NoAnswer(BaseException):
    pass


@contextmanager
def patience(tier):
    """a case that does not end is a failure, not a check without an answer"""
    def give_up(*a):
        raise NoAnswer
    if tier != 'quick' or threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, give_up)
    signal.alarm(PATIENCE)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def own_constants_only():
    """Hypothesis also tries the literals it finds in the sources; without them the cases that a seed gives are the same
    for every state of the code under test"""
    try:
        from hypothesis.internal.conjecture import providers
        providers._get_local_constants = providers.Constants
        providers._local_constants = providers.Constants()
    except (ImportError, AttributeError):
        pass


def run_sub(prop, sub, seed, tier, shard=0):
    """returns a dict with the counts, samples, failure and known findings"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    if tier == 'quick':
        own_constants_only()
    res = {'sub': sub.name, 'evaluations': 0, 'nontrivial': [], 'samples': [], 'failure': None, 'known': [],
           'error': None}
    seen = set()
    sampled = set()  # one sample of the fixed cases, one of the generated ones
    keys = set()
    state = {'best': None, 'first': None, 't0': None, 'history': [], 'hung': None}
    t_start = time.time()

    def run_case(case):
        key = canon(case)
        if state['best'] is None and sub.dedup:
            if key in keys or len(keys) >= sub.n + len(sub.pinned):
                return  # Hypothesis repeats itself; count and run distinct cases only
            keys.add(key)
        if state['t0'] is not None and time.time() - state['t0'] > sub.shrink_s:
            return  # stop shrinking
        if state['best'] is None:
            res['evaluations'] += 1
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if h not in seen:
                seen.add(h)
                if sub.nontrivial(case):
                    res['nontrivial'].append(h)
                    pinned = res['evaluations'] <= len(sub.pinned)
                    if pinned not in sampled:
                        sampled.add(pinned)
                        res['samples'].append(case)
            if len(state['history']) < 3000:
                state['history'].append(case)
        if state['hung']:
            if key == state['hung']:
                raise Violation(f'no answer within {PATIENCE} s')
            return
        try:
            with patience(tier):
                sub.body(json.loads(key))
        except NoAnswer:
            state['hung'] = key
            state['t0'] = state['t0'] or time.time()
            msg = f'no answer within {PATIENCE} s'
            if state['best'] is None:
                state['best'] = (len(key), key, msg)
            raise Violation(msg)
        except Violation as v:
            if sub.known is not None:
                k = sub.known(case, str(v))
                if k is not None:
                    if k not in res['known']:
                        res['known'].append(k)
                    return
            if state['t0'] is None:
                state['t0'] = time.time()
            cand = (len(key), key, str(v))
            if state['best'] is None or cand[:2] < state['best'][:2]:
                state['best'] = cand
            raise

    try:
        # plain calls first: boundary cases
        for case in sub.pinned:
            try:
                run_case(case)
            except Violation:
                break
        if state['best'] is None and sub.n > 0 and sub.strategy is not None:
            @hypothesis.seed(derive_seed(seed, prop, sub.name, *([shard] if shard else [])))
            @settings(max_examples=sub.n * (4 if sub.dedup else 1), database=None, deadline=None, print_blob=False,
                      phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                      report_multiple_bugs=False)
            @given(case=sub.strategy)
            def prop_test(case):
                run_case(case)

            with redirect_stdout(io.StringIO()):
                try:
                    prop_test()
                except BaseException as e:  # Violation, Flaky, or a harness error
                    if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                        raise
                    if state['best'] is None:
                        raise
    except Exception:
        res['error'] = traceback.format_exc()
    if state['best'] is not None:
        res['failure'] = {'case': json.loads(state['best'][1]), 'message': state['best'][2]}
        # does the shrunk case fail on its own?  If it does not, the failure depends on
        # the calls made before it: keep the history in the replay
        res['failure']['history'] = None
        if not alone_fails(prop, sub.name, res['failure']['case'], tier):
            res['failure']['history'] = state['history']
    res['wall_s'] = round(time.time() - t_start, 2)
    return res


def alone_fails(prop, subname, case, tier):
    """re-run the case in a fresh process"""
    import subprocess
    os.makedirs(SCRATCH, exist_ok=True)
    path = os.path.join(SCRATCH, f'probe-{os.getpid()}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': subname, 'tier': tier, 'case': case}, f)
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), '--replay', path],
                           capture_output=True, text=True, timeout=200)
        return r.returncode == 1
    except Exception:
        return True
    finally:
        os.unlink(path)


def _worker(args):
    modname, index, shard, seed, tier = args
    random.seed(derive_seed(seed, shard) if shard else seed)
    mod = importlib.import_module(modname)
    sub = mod.subs(tier)[index]
    if sub.shards > 1:
        sub.n = sub.n // sub.shards + (shard < sub.n % sub.shards)
        sub.pinned = tuple(sub.pinned[shard::sub.shards])
    try:
        return index, run_sub(mod.PROPERTY, sub, seed, tier, shard)
    except BaseException:
        return index, {'sub': sub.name, 'evaluations': 0, 'nontrivial': [], 'samples': [], 'failure': None,
                       'known': [], 'error': traceback.format_exc(), 'wall_s': 0}


def run_check(modname, tier, seed, jobs=6):
    t0 = time.time()
    mod = importlib.import_module(modname)
    subs = mod.subs(tier)
    prop = mod.PROPERTY
    tasks = [(modname, i, j, seed, tier) for i in range(len(subs)) for j in range(subs[i].shards)]
    results = [[] for _ in subs]
    order = sorted(tasks, key=lambda t: -subs[t[1]].meta.get('cost', 1))
    if jobs > 1 and len(tasks) > 1:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            for i, r in pool.imap_unordered(_worker, order, chunksize=1):
                results[i].append(r)
    else:
        for t in order:
            i, r = _worker(t)
            results[i].append(r)
    return mod, [merge(r) for r in results], time.time() - t0


def merge(parts):
    """the results of the shards of one sub"""
    res = dict(parts[0])
    for r in parts[1:]:
        res['evaluations'] += r['evaluations']
        res['nontrivial'] = res['nontrivial'] + r['nontrivial']
        res['samples'] = (res['samples'] + r['samples'])
        res['known'] = res['known'] + [k for k in r['known'] if k not in res['known']]
        res['error'] = res['error'] or r['error']
        res['wall_s'] = max(res['wall_s'], r['wall_s'])
        a, b = res['failure'], r['failure']
        if b and (not a or len(canon(b['case'])) < len(canon(a['case']))):
            res['failure'] = b
    res['samples'] = res['samples'][:3]
    return res


def report(mod, results, tier, seed, wall):
    prop = mod.PROPERTY
    rc = 0
    violations = []
    known = []
    errors = [r for r in results if r['error']]
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for r in results:
        for k in r['known']:
            if k not in known:
                known.append(k)
        if r['failure']:
            path = os.path.join(HERE, 'replay', f'{prop}-{r["sub"]}.json'.replace(' ', '_').replace('/', '_'))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'sub': r['sub'], 'tier': tier, **r['failure']}, f, indent=1)
            violations.append({'sub': r['sub'], 'message': r['failure']['message'],
                               'case': r['failure']['case'], 'replay': path})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(len(set(r['nontrivial'])) for r in results),
            'rule': mod.RULE,
            'samples': [{'sub': r['sub'], 'case': s} for r in results for s in r['samples']][:40],
            'by_sub': {r['sub']: {'evaluations': r['evaluations'], 'distinct_nontrivial': len(set(r['nontrivial'])),
                                  'wall_s': r['wall_s']} for r in results},
            'known_findings_met': known,
        },
        'wall_s': round(wall, 2),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': len(violations),
        'violation_details': violations,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k}')
    for v in violations:
        print(f'[{prop}] {v["sub"]}: {v["message"]}')
        print(f'VIOLATION property={prop} replay={v["replay"]}')
        rc = 1
    for r in errors:
        print(f'HARNESS-ERROR [{prop}] {r["sub"]}\n{r["error"][-1500:]}', file=sys.stderr)
    if errors and rc == 0:
        rc = 3
    c = ev['coverage']
    print(f'{prop} {tier} seed={seed}: {c["evaluations"]} cases, {c["distinct_nontrivial"]} non-trivial, '
          f'{len(violations)} violations, {wall:.1f}s')
    return rc


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module('checks.' + rec['property'].lower())
    for tier in (rec.get('tier', 'quick'), 'quick', 'thorough'):
        for sub in mod.subs(tier):
            if sub.name == rec['sub']:
                cases = (rec.get('history') or []) + [rec['case']]
                for case in cases:
                    try:
                        with patience('quick'):
                            sub.body(json.loads(canon(case)))
                    except (Violation, NoAnswer) as v:
                        v = str(v) or f'no answer within {PATIENCE} s'
                        print(f'[{rec["property"]}] {sub.name}: {v}\ncase: {canon(case)}')
                        print(f'VIOLATION property={rec["property"]} replay={path}')
                        return 1
                print(f'{rec["property"]} {sub.name}: holds on the replayed case')
                return 0
    print('no such sub-check', rec['sub'])
    return 3
