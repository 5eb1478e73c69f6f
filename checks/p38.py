"""Calls made in several threads at once do not disturb each other."""
import sys
import threading
import time

from hypothesis import strategies as st

import fresh
from catalog import FORMULAS, NEEDS_JUMPS, derive_fresh
from checks.p28 import ORDERS, POOL, family, frozen, frozen_formula, numeric, par_for, reference
from harness import Sub, Violation, call, load
from scalars import C2, RJ, V1, V2

PROPERTY = 'P38'
RULE = ('2..6 threads, each with a random sequence of deriving and numeric calls (mostly of one model, often the same function '
        'at other orders or parameters), released together with a thread-switch interval of 1e-6 to 1e-4 s; every result is '
        'compared with that of the same call made alone as the first one of a process. Non-trivial: two threads that '
        'call into the same module')
ASSUMPTIONS = ['schedules are those the interpreter takes at the drawn switch interval; they are not enumerated']


def derive_plain(name, n, jumps):
    """derive_fresh without the redirections of `call`, which are not thread-safe"""
    mod, fn = name.rsplit('.', 1)
    return getattr(load(mod), fn)(*n, *((tuple(jumps),) if name in NEEDS_JUMPS else ()))


def numeric_plain(name, i, wrt, variant):
    from checks.p36 import DERIV
    order = ORDERS[name][i % len(ORDERS[name])]
    mod, fn = name.rsplit('.', 1)
    tail = (DERIV[name][1][wrt % len(DERIV[name][1])],) if name in DERIV else ()
    return float(getattr(load(mod), fn)(*order, par_for(name, variant), *tail))


def body(case):
    fresh.start()
    want = {}
    for seq in case['threads']:
        for step in seq:
            key = repr(step)
            if key not in want:
                want[key] = reference(*((frozen_formula,) + tuple(step[1:]) if step[0] == 'formula' else
                                        (numeric,) + tuple(step[1:])))
            load(step[1].rsplit('.', 1)[0])  # imports are made by one thread
    got, bad = {}, []
    gate = threading.Barrier(len(case['threads']))

    def work(t):
        gate.wait()
        for j, step in enumerate(case['threads'][t]):
            try:
                if step[0] == 'formula':
                    got[t, j] = frozen(derive_plain(*step[1:]))
                else:
                    got[t, j] = numeric_plain(*step[1:])
            except Exception as e:
                bad.append(f'{step[1]}{tuple(step[2:])} in thread {t} raised {type(e).__name__}: {str(e)[:200]}')
                return
    run_all(work, len(case['threads']), case['switch'], bad)
    for (t, j), r in sorted(got.items()):
        step = case['threads'][t][j]
        w = want[repr(step)]
        ok = r == w if step[0] == 'formula' else (r == w or abs(r - w) <= 1e-12 * abs(w))
        if not ok:
            raise Violation(f'{step[1]}{tuple(step[2:])} in thread {t} of {len(case["threads"])} gives '
                            + (f'{r!r}, alone {w!r}' if step[0] != 'formula' else 'another formula than alone'))


@st.composite
def threads(draw):
    fam = draw(st.sampled_from([None] + sorted({family(n) for n in ORDERS} - {None})))
    pool = [p for p in POOL if fam is None or family(p[0]) == fam]
    scal = sorted(s for s in ORDERS if fam is None or family(s) == fam)
    one = draw(st.booleans())  # all threads in one or two functions
    if one:
        names = draw(st.lists(st.sampled_from(sorted({p[0] for p in pool})), min_size=1, max_size=2))
        pool = [p for p in pool if p[0] in names]
        scal = draw(st.lists(st.sampled_from(scal), min_size=1, max_size=2))
    out = []
    for _ in range(draw(st.integers(2, 6))):
        seq = []
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.booleans()):
                name, n = draw(st.sampled_from(pool))
                seq.append(['formula', name, n, draw(st.sampled_from([[0.15, 0.4], [], [0.3, 0.1, 0.2]])) if name in NEEDS_JUMPS else []])
            else:
                seq.append(['numeric', draw(st.sampled_from(scal)), draw(st.integers(0, 3)), draw(st.integers(0, 9)),
                            draw(st.integers(0, 2))])
        out.append(seq)
    return {'threads': out, 'switch': draw(st.sampled_from([1e-6, 1e-5, 1e-5, 1e-4]))}


def nontrivial(c):
    mods = [{s[1].rsplit('.', 1)[0] for s in seq} for seq in c['threads']]
    return any(a & b for i, a in enumerate(mods) for b in mods[:i])


# ------------------------------------------------------------ many short calls
EVAL = sorted(n for n in FORMULAS if n.startswith('mdl_') and n not in (
    'mdl_svcj.cond2_mom.mnorm_cond', 'mdl_svcj.mom.moment_v_theta', 'mdl_srjd.mom.moment_v', 'mdl_srjd.cmom.cmoment_v',
    'mdl_srjd.cmom.cond_cmoment_v'))
J3, S3 = (0.3, 0.1, 0.2), (0.2, 0.5, 0.8)
HELPERS = [
    ('utils.fZ', ((1, 1, 1), (0, 1, 0), (0, -1), (0, 0), 0.7, (0.1, 0.2, 0.4, 0.9), (0.3, 0.1, 0.2, 0.5))),
    ('utils.fZ', ((1, 2), (0, 1), (-1,), (1,), 0.5, S3, J3)),
    ('utils.fZ', ((2,), (1,), (), (), 0.3, S3, J3)),
    ('utils.fZ_each_index', ((1, 2, 0), (0, 1, 2), (-1, 1), (1, 0), 0.5, S3, J3, [0, 2, 1])),
    ('utils.fZ_each_index', ((1, 2), (0, 1), (-1,), (1,), 0.5, S3, J3, [2, 0])),
    ('mdl_srjd.cond2_mom.fZ', ((1, 1, 2), (0, -1), 0.7, S3, J3)),
    ('mdl_srjd.cond2_mom.fZ', ((2, 1), (1,), 0.4, S3, J3)),
    ('utils.multilevel_index', (3, 4)), ('utils.multilevel_index', (2, 3)),
    ('utils.multilevel_comb', (4, 3)), ('utils.multilevel_comb', (3, 5)),
    ('utils.comb', (9, [2, 3, 4])), ('utils.dbfactorial', (11,)), ('utils.cmnorm', (6,)),
    ('ito_mom.int_et', (2, 3)), ('ito_mom.int_et', (0, 4)), ('itos_mom.int_et', (1, -1, 3)), ('itos_mom.int_et', (0, 2, 2)),
    ('itos_mom.t_mul_t0', ((1, 0, 2), ((1, 1, 1), (1, 0, 3)))), ('ito_mom.moment_v', (5,)), ('cpp_mom.mnorm', (7,)),
    ('cpp_mom.mcpp', (4,)), ('cpp_mom.cmcpp', (4,)), ('mdl_srjd.iez_mom.moment_IEZ', (3,)),
    ('mdl_svvj.euler.IZ', (0.6, J3, S3)), ('mdl_svvj.euler.IEZ', (0.6, J3, S3, 0.4)),
]
# .copy() of one polynomial in two threads is left out: it is collections.UserDict's own, which empties the object for a moment
_polys = {}


DPOLY = [n for n in EVAL if n.startswith(('mdl_1fsv.', 'mdl_1fsvj.', 'mdl_2fsv.', 'mdl_2fsvj.')) and '.cond' not in n]


def wrts(name):
    w = ['k', 'theta', 'sigma_v', 'rho'] if 'mdl_1' in name else ['k1', 'k2', 'theta1', 'sigma_v2', 'k1', 'k2']
    return w + (['mu'] if '.cmom' not in name else []) + (['lambda', 'mu_j', 'sigma_j'] if 'fsvj' in name else [])


def plain(r):
    return (tuple(r.keyfor), dict(r)) if hasattr(r, 'keyfor') else r


def of(name, fn):
    """the module's own, or (covariances) that of the moments"""
    mod = name.rsplit('.', 1)[0]
    return getattr(load(mod), fn) if hasattr(load(mod), fn) else getattr(load(mod.replace('.cov', '.mom')), fn)


def prepare(step):
    """a function without arguments that makes the call"""
    if step[0] == 'helper':
        name, args = HELPERS[step[1] % len(HELPERS)]
        mod, fn = name.rsplit('.', 1)
        f = getattr(load(mod), fn)
        return lambda: plain(f(*args))
    name, n, scale = step[1:4]
    key = (name, tuple(n))
    if key not in _polys:
        _polys[key] = derive_fresh(name, n, C2['jumpsize'])
    par = C2 if 'cond2' in name else V1 if 'mdl_1' in name else V2 if 'mdl_2' in name else RJ
    par = {k: v if isinstance(v, tuple) else v * scale for k, v in par.items()}
    f, p = of(name, 'poly2num'), _polys[key]
    if step[0] == 'deriv':
        d, w = of(name, 'dpoly'), wrts(name)[step[4] % len(wrts(name))]
        return lambda: plain(d(p, w))
    if step[0] == 'eval':
        return lambda: f(p, par)
    return {'mul': lambda: plain(p * p), 'pow': lambda: plain(p ** 2), 'add': lambda: plain(p + p), 'sub': lambda: plain(p - 2 * p)}[step[0]]


def eval_body(case):
    calls = [[prepare(s) for s in seq] for seq in case['threads']]
    begin = time.process_time()
    want = [[call(f'{s}', f) for s, f in zip(seq, fs)] for seq, fs in zip(case['threads'], calls)]
    times = max(2, min(case['times'], int(3 / (time.process_time() - begin + 1e-6))))  # long calls are repeated less often
    bad = []
    gate = threading.Barrier(len(calls))

    def work(t):
        gate.wait()
        for _ in range(times):
            for j, f in enumerate(calls[t]):
                if bad:
                    return
                s = case['threads'][t][j]
                what = f'{HELPERS[s[1] % len(HELPERS)] if s[0] == "helper" else s} in thread {t} of {len(calls)}'
                try:
                    r = f()
                except Exception as e:
                    bad.append(f'{what} raised {type(e).__name__}: {str(e)[:200]}')
                    return
                w = want[t][j]
                if not (r == w or isinstance(w, float) and abs(r - w) <= 1e-12 * abs(w)):
                    bad.append(f'{what} gives {str(r)[:200]}, alone {str(w)[:200]}')
                    return
    run_all(work, len(calls), case['switch'], bad)


def run_all(work, n, switch, bad):
    threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(switch)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(HANG)
            if t.is_alive():
                bad.append(f'a thread does not come back within {HANG} s from calls that take milliseconds alone')
                break
    finally:
        sys.setswitchinterval(old)
    if bad:
        raise Violation(bad[0])


HANG = 240


@st.composite
def evaluations(draw):
    kind = draw(st.integers(0, 2))
    some = draw(st.lists(st.sampled_from(EVAL), min_size=1, max_size=2))
    helpers = draw(st.lists(st.integers(0, len(HELPERS) - 1), min_size=1, max_size=3))
    out = []
    for _ in range(draw(st.integers(2, 6))):
        seq = []
        for _ in range(draw(st.integers(1, 4))):
            if kind == 0 or kind == 1 and draw(st.booleans()):
                seq.append(['helper', draw(st.sampled_from(helpers))])
            else:
                name = draw(st.sampled_from(some))
                ar = FORMULAS[name][0]
                n = [draw(st.integers(0, 3))] if ar == 1 else draw(st.sampled_from([[1, 1], [2, 1], [0, 0], [1, 0]]))[:ar]
                op = draw(st.sampled_from(['eval', 'eval', 'eval', 'eval', 'mul', 'pow', 'add', 'sub'] + ['deriv'] * 4 * (name in DPOLY)))
                seq.append([op, name, n + [0] * (ar - len(n)), draw(st.sampled_from([1.0, 1.09, 0.83]))]
                           + ([draw(st.integers(0, 9))] if op == 'deriv' else []))
        out.append(seq)
    return {'threads': out, 'times': draw(st.sampled_from([50, 100, 200])), 'switch': draw(st.sampled_from([1e-6, 1e-6, 1e-5]))}


def subs(tier):
    q = tier == 'quick'
    # every function against itself
    pinned = []
    for name in sorted({p[0] for p in POOL}):
        js = [0.15, 0.4] if name in NEEDS_JUMPS else []
        ns = [p[1] for p in POOL if p[0] == name]
        pinned.append({'threads': [[['formula', name, n, js] for n in (ns[i:] + ns[:i])[:3]] for i in range(3)], 'switch': 1e-6})
    for name in sorted(ORDERS):
        pinned.append({'threads': [[['numeric', name, i + j, i, (i + j) % 3] for j in range(3)] for i in range(3)], 'switch': 1e-6})
    ev = []
    for i in range(len(HELPERS)):  # each next to its neighbours
        near = [j for j, h in enumerate(HELPERS) if h[0] == HELPERS[i][0]]
        ev.append({'threads': [[['helper', i]], [['helper', near[(near.index(i) + 1) % len(near)]]], [['helper', i]],
                               [['helper', j] for j in near]], 'times': 300, 'switch': 1e-6})
    for name in EVAL:
        ar = FORMULAS[name][0]
        ns = [[3], [2], [1]] if ar == 1 else [[2, 1] + [0] * (ar - 2), [1, 1] + [0] * (ar - 2), [1, 0] + [0] * (ar - 2)]
        ns = [n for n in ns if sum(n) <= FORMULAS[name][1]]
        ev.append({'threads': [[['eval', name, n, f] for n in ns] for f in (1.0, 1.09, 0.83)], 'times': 60, 'switch': 1e-6})
        if name in DPOLY:
            m = len(wrts(name))
            ev.append({'threads': [[['deriv', name, n, 1.0, (i + j) % m] for j, n in enumerate(ns * 2)] for i in range(min(m, 4))],
                       'times': 60, 'switch': 1e-6})
    return [Sub('evaluations', evaluations(), eval_body, 160 if q else 4000, lambda c: len(c['threads']) >= 2, pinned=tuple(ev), shards=6,
                shrink_s=20),
            Sub('threads', threads(), body, 240 if q else 4000, nontrivial, pinned=tuple(pinned), shards=6, shrink_s=20)]
