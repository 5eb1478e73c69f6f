"""Results do not depend on what was called, or changed, before."""
import json
import os
import subprocess
import sys
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import fresh
import gen
from catalog import FORMULAS, LISTS, NEEDS_JUMPS, derive_fresh
from checks.p36 import DERIV, SIM
from harness import REPO_SRC, Sub, Violation, call, ensure, load
from scalars import SCALARS, V1, V2
from simul import seed_all

PROPERTY = 'P28'
RULE = ('random histories of 2..8 calls over all the deriving, scalar, derivative and simulating functions of the package, '
        'in which results are emptied, scaled, extended, relabelled or combined by the caller between calls, and parameters '
        'are passed as new or as the same, meanwhile changed, dictionary; each call must return what the same call returns '
        'as the first one of a process. Non-trivial: a history that repeats a function after a result or the parameters '
        'were changed, or mixes at least two modules')
ASSUMPTIONS = ['what a call returns first thing in a process is compared with the models by the other checks']

MUTATIONS = ('none', 'clear', 'scale', 'insert', 'relabel', 'merge', 'zero')
POOL = []
for _name, (_ar, _top) in FORMULAS.items():
    for _o in ((2,), (3,), (1,), (0,)) if _ar == 1 else ((1, 1), (2, 1), (0, 0), (1, 0)):
        _t = list(_o)[:_ar] + [0] * (_ar - len(_o))
        if sum(_t) <= _top:
            POOL.append([_name, _t])
for _name in LISTS:
    POOL += [[_name, [2]], [_name, [3]], [_name, [0]]]

_base = {}


def frozen(r):
    if isinstance(r, list):
        return tuple(frozen(x) for x in r)
    return (tuple(r.keyfor), {k: Fraction(v) for k, v in r.items() if v != 0})


def frozen_formula(name, n, jumps):
    return frozen(derive_fresh(name, n, jumps))


def reference(f, *a):
    key = (f.__name__, repr(a))
    if key not in _base:
        try:
            _base[key] = fresh.first(f, *a)
        except fresh.Raised as e:
            raise Violation(f'{a[0]}{tuple(a[1:])} raised as the first call of a process: {str(e).strip().splitlines()[-1][:200]}')
    return _base[key]


def mutate(r, how):
    if isinstance(r, list):
        for x in r:
            mutate(x, how)
        if how == 'clear':
            r.clear()
        return
    if how == 'clear':
        r.clear()
    elif how == 'scale':
        for k in list(r):
            r[k] *= 3
    elif how == 'insert':
        for k in list(r)[:1]:
            r.add_keyval(k, Fraction(7, 2))
        r[('x',)] = Fraction(1, 3)
    elif how == 'relabel':
        r.set_keyfor(['x', 'y'])
    elif how == 'merge':
        r.merge(r.copy())
    elif how == 'zero':
        for k in list(r):
            r[k] = Fraction(0)
        r.remove_zero()


# ------------------------------------------------------------ numeric functions
ORDERS = {}
for _f, (_a, _p) in SCALARS.items():
    ORDERS[_f] = [tuple(a) for a in _a]
for _f, (_names, _w) in DERIV.items():
    ORDERS[_f] = [(1,), (2,)] if len(_names) == 1 else [(1, 1), (1, 0)]


def par_for(name, variant):
    """variants 1 and 2: all parameters changed (jumps: another number of them), from 3 on: a single parameter changed"""
    par = SCALARS[name][1] if name in SCALARS else (V2 if '2fsv' in name else V1)
    if variant > 2:
        k = sorted(par)[(variant - 3) % len(par)]
        v = par[k]
        return dict(par, **{k: tuple(x * 1.21 for x in v) if isinstance(v, tuple) else v * 1.21})
    f = (1.0, 1.09, 0.83)[variant]
    out = {}
    for k, v in par.items():
        if isinstance(v, tuple):
            out[k] = (v, tuple(x * f for x in v) + (1.19,), ())[variant]
        else:
            out[k] = v * f if k not in ('k1', 'k2') else v * f * (1.03 if k == 'k1' and variant else 1)
    return out


def numeric_value(name, order, wrt, par):
    mod, fn = name.rsplit('.', 1)
    tail = (DERIV[name][1][wrt % len(DERIV[name][1])],) if name in DERIV else ()
    return call(f'{name}{order}', getattr(load(mod), fn), *order, par, *tail)


def numeric(name, i, wrt, variant):
    return float(numeric_value(name, ORDERS[name][i % len(ORDERS[name])], wrt, par_for(name, variant)))


SEEDED = ('mdl_svvj.euler', 'mdl_svij.euler', 'mdl_svcj.euler', 'mdl_srjd.euler')


def sample(name, variant):
    mod, fn = name.rsplit('.', 1)
    two = '2fsv' in name
    p = par_for('mdl_2fsv.mom.dm' if two else 'mdl_1fsv.mom.dm', variant)
    t, s = ((0.2, 0.7), (0.2, 0.5, 0.8), ())[variant], ((0.15, 0.4), (0.3, 0.1, 0.2), ())[variant]
    v = {'v0': (0.3, 0.2) if two else 0.3, 'par': p, 'N': 3, 'n': 3, 'n_segment': 2 + variant, 'n_seqment': 2 + variant, 'h': 1.1,
         'tau': 1.1, 'T': 1.1, 'jumpsize': s, 'jsize_v': s, 'jumptime': t, 'jtime_v': t, 'lmbd_s': 0.8, 'mu_s': -0.1,
         'sigma_s': 0.2, 'rho_J': 0.3, 'sigma': p.get('sigma_v'), **{k: p[k] for k in ('mu', 'k', 'theta', 'rho') if k in p}}
    seed_all(11 + variant, *SEEDED)
    r = call(name, getattr(load(mod), fn), *(v[a] for a in SIM[name]))
    return np.atleast_1d(np.asarray(r, float)).tolist()


def body(case):
    fresh.start()
    shared = {}
    for j, step in enumerate(case['steps']):
        kind, name = step[0], step[1]
        if kind == 'formula':
            _, _, n, jumps, how = step
            r = derive_fresh(name, n, jumps)
            if frozen(r) != reference(frozen_formula, name, n, jumps):
                raise Violation(f'step {j}: {name}{tuple(n)} returns another formula than first thing in a process')
            mutate(r, how)
        elif kind == 'numeric':
            _, _, i, wrt, variant, how = step
            order = ORDERS[name][i % len(ORDERS[name])]
            want = reference(numeric, name, i, wrt, variant)
            p = par_for(name, variant)
            if how == 'same':  # one dictionary object for all such calls of this function, changed in place
                d = shared.setdefault(name, {})
                d.clear()
                d.update(p)
                p = d
            keep = dict(p)
            x = numeric_value(name, order, wrt, p)
            ensure(p == keep, f'step {j}: {name}{order} changes the parameters it is given')
            ensure(x == want or abs(x - want) <= 1e-12 * abs(want),
                   f'step {j}: {name}{order} = {x!r}, first thing in a process it is {want!r}')
        else:
            _, _, variant = step
            want = np.array(reference(sample, name, variant))
            got = np.array(sample(name, variant))
            ensure(got.shape == want.shape and bool(np.allclose(got, want, rtol=1e-12, atol=0)),
                   f'step {j}: {name} draws {got.tolist()} from a given seed, first thing in a process {want.tolist()}')


def family(name):
    return name.split('.')[0]


FAMILIES = {}
for _n in sorted({p[0] for p in POOL} | set(ORDERS)):
    FAMILIES.setdefault(family(_n), []).append(_n)


VARIANT = st.one_of(st.integers(0, 2), st.integers(3, 16))


@st.composite
def history(draw):
    # half of the histories stay in one model, where shared state would be
    fam = draw(st.sampled_from([None, None, None] + sorted(f for f in FAMILIES if f.startswith('mdl_'))))
    pool = POOL if fam is None else [p for p in POOL if family(p[0]) == fam]
    scal = sorted(s for s in ORDERS if fam is None or family(s) == fam)
    sim = sorted(s for s in SIM if fam is None or family(s) == fam)
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.integers(0, 11))
        again = [s for s in steps if s[0] != 'sample']
        if kind < 4 and again:  # again, after a change
            s = draw(st.sampled_from(again))
            if s[0] == 'formula':
                steps.append(s[:4] + [draw(st.sampled_from(MUTATIONS))])
            else:
                steps.append(s[:2] + [draw(st.sampled_from([s[2], s[2] + 1])), draw(st.sampled_from([s[3], s[3] + 1])),
                                      draw(VARIANT), draw(st.sampled_from(['new', 'same', 'same']))])
        elif kind < 8:
            name, n = draw(st.sampled_from(pool))
            jumps = draw(st.sampled_from([[0.15, 0.4], [], [0.3, 0.1, 0.2]])) if name in NEEDS_JUMPS else []
            steps.append(['formula', name, n, jumps, draw(st.sampled_from(MUTATIONS))])
        elif kind < 11 or not sim:
            steps.append(['numeric', draw(st.sampled_from(scal)), draw(st.integers(0, 3)), draw(st.integers(0, 9)),
                          draw(VARIANT), draw(st.sampled_from(['new', 'same']))])
        else:
            steps.append(['sample', draw(st.sampled_from(sim)), draw(st.integers(0, 2))])
    return {'steps': steps}


def nontrivial(c):
    seen, rep = set(), False
    for s in c['steps']:
        if s[0] == 'formula':
            k = (s[1], tuple(s[2]))
            rep = rep or k in seen
            if s[4] != 'none':
                seen.add(k)
        elif s[0] == 'numeric':
            rep = rep or any(k[0] == s[1] and k != (s[1], s[4]) for k in seen)
            seen.add((s[1], s[4]))
    return rep or len({s[1].rsplit('.', 1)[0] for s in c['steps']}) >= 2


HASH = '''
import sys, json, io, contextlib, importlib, hashlib
src, pool = json.load(sys.stdin)
sys.path.insert(0, src)
out = []
for name, args in pool:
    mod, fn = name.rsplit('.', 1)
    with contextlib.redirect_stdout(io.StringIO()):
        r = getattr(importlib.import_module('ajdmom.' + mod), fn)(*[tuple(a) if isinstance(a, list) else a for a in args])
    r = r if isinstance(r, (list, tuple)) else [r]
    text = repr([(tuple(p.keyfor), [(k, str(p[k])) for k in sorted(p, key=repr)]) for p in r])
    out.append(hashlib.sha256(text.encode()).hexdigest())
print('@@' + json.dumps(out))
'''


def hash_body(case):
    """the same formulas, columns included, in every process: Python hashes strings differently in each"""
    pool = [[name, [*n, *([[0.15, 0.4]] if name in NEEDS_JUMPS else [])]] for name, n in POOL[case['part'] % 4::4]]
    seen = []
    for seed in case['seeds']:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        r = subprocess.run([sys.executable, '-B', '-c', HASH], input=json.dumps([REPO_SRC, pool]), env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise Violation(f'deriving formulas with PYTHONHASHSEED={seed}: {r.stderr.strip()[-400:]}')
        seen.append(json.loads(r.stdout.rsplit('@@', 1)[1]))
        for (name, a), x, y in zip(pool, seen[0], seen[-1]):
            ensure(x == y, f'{name}{tuple(a)} differs between PYTHONHASHSEED={case["seeds"][0]} and {seed}')


def subs(tier):
    q = tier == 'quick'
    # every function four times, its result emptied, relabelled and scaled in between
    pinned = []
    for name, n in POOL:
        js = [0.15, 0.4] if name in NEEDS_JUMPS else []
        pinned.append({'steps': [['formula', name, n, js, 'clear'], ['formula', name, n, js, 'relabel'],
                                 ['formula', name, n, js, 'scale'], ['formula', name, n, js, 'none']]})
    # every numeric function at other parameters in between, also in the same dictionary
    scal = [{'steps': [['numeric', s, i, i, 0, 'same'], ['numeric', s, i, i, 1, 'same'], ['numeric', s, i, i, 2, 'new'],
                       ['numeric', s, i, i, 0, 'new']]} for s in sorted(ORDERS) for i in range(len(ORDERS[s]))]
    # one parameter changed at a time
    for s in sorted(ORDERS):
        i = min(2, len(ORDERS[s]) - 1)
        n = len(SCALARS[s][1] if s in SCALARS else (V2 if '2fsv' in s else V1))
        scal.append({'steps': [['numeric', s, i, 0, v, 'same' if v % 2 else 'new'] for v in [0, *range(3, 3 + n), 0]]})
    draws = [{'steps': [['sample', s, i] for i in (0, 1, 2, 0)]} for s in sorted(SIM)]
    third = len(pinned) // 4 + 1
    out = [Sub(f'history-{j}', history(), body, 300 if q else 3000, nontrivial,
               pinned=tuple(pinned[j * third:(j + 1) * third]), meta={'cost': 5}) for j in range(4)]
    return out + [Sub('scalar-parameters', None, body, 0, nontrivial, pinned=tuple(scal), meta={'cost': 5}, shards=3),
                  Sub('processes', gen.cases(part=st.integers(0, 3), seeds=st.lists(st.integers(0, 2 ** 32 - 1), min_size=3, max_size=3, unique=True)),
                      hash_body, 6 if q else 40, pinned=tuple({'part': i, 'seeds': [0, 1, 2]} for i in range(4)), shards=3,
                      shrink_s=10),
                  Sub('samples', None, body, 0, pinned=tuple(draws))]
