"""Calls have no effect but their result: the rest of the program stays as it was."""
import builtins
import contextlib
import decimal
import fractions
import gc
import io
import itertools
import json
import locale
import math
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from catalog import FORMULAS, JUMPS, LISTS, beyond, derive_fresh
from checks.p28 import ORDERS, SEEDED, numeric_value, par_for, sample
from checks.p36 import SIM, sim_arguments, sim_case
from gen import edges
from simul import seed_all
from harness import REPO_SRC, Sub, bare, call, ensure, load

PROPERTY = 'P41'
RULE = ('every operation on polynomials, every deriving, numeric and derivative function at random orders and parameters, every simulator, after random '
        'states of the random generators; every module imported in a new process. Before and after, the state of the '
        'process is compared: generators, output streams, files of the working directory, environment, recursion limit, '
        'switch interval, warning filters, numpy error handling and printing, decimal context, locale, signal handlers, '
        'module search path, threads, and the names in builtins, math, itertools and fractions; non-trivial: total order '
        'of at least 2, or a simulator')
ASSUMPTIONS = ['numpy itself may change the process when it is imported, so it is imported before']


def state(rng=True):
    s = {
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'warning filters': [tuple(map(str, f)) for f in warnings.filters], 'numpy error handling': np.geterr(),
        'numpy printing': repr(np.get_printoptions()), 'decimal context': repr(decimal.getcontext()),
        'locale': locale.setlocale(locale.LC_ALL), 'working directory': os.getcwd(), 'files': sorted(os.listdir('.')),
        'environment': dict(os.environ), 'module search path': list(sys.path), 'collector': (gc.isenabled(), gc.get_threshold()),
        'threads': threading.active_count(), 'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'signal handlers': [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        'digits of an int': sys.get_int_max_str_digits(), 'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        'tracing': (sys.gettrace(), sys.getprofile()),
        'file mode mask': umask(),
    }
    for m in (builtins, math, itertools, fractions):
        s[f'names in {m.__name__}'] = {k: id(v) for k, v in vars(m).items() if k != '_'}
    if rng:
        s['random numbers of Python'] = random.getstate()
        a = np.random.get_state()
        s['random numbers of numpy'] = (a[0], a[1].tobytes()) + tuple(a[2:])
    return s


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def differs(a, b):
    return [k for k in a if a[k] != b[k]]


@contextlib.contextmanager
def elsewhere():
    """an empty scratch directory as the working directory"""
    d, back = tempfile.mkdtemp(prefix='p41-'), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d, ignore_errors=True)


def untouched(what, f, rng=True, seed=0):
    """run f; nothing but its result may show"""
    random.seed(seed)
    np.random.seed(seed)
    out, err = io.StringIO(), io.StringIO()
    with elsewhere(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), bare():
        before = state(rng)
        f()
        after = state(rng)
    d = differs(before, after)
    ensure(not d, lambda: f'{what} changes the {d[0]} of the program' + ('' if 'names' not in d[0] and d[0] not in (
        'recursion limit', 'files', 'switch interval') else f': {changes(before[d[0]], after[d[0]])}'))
    ensure(not out.getvalue() and not err.getvalue(), lambda: f'{what} prints {(out.getvalue() + err.getvalue())[:80]!r}')


def changes(a, b):
    if isinstance(a, dict):
        return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[:4]
    if isinstance(a, list):
        return [x for x in b if x not in a][:4] or [x for x in a if x not in b][:4]
    return f'{a} -> {b}'


def formula_body(c):
    name, n = c['name'], c['n']
    untouched(f'{name}{tuple(n)}', lambda: derive_fresh(name, n, c['jumps']), seed=c['seed'])


def numeric_body(c):
    name = c['name']
    order = ORDERS[name][c['i'] % len(ORDERS[name])]
    par = c['par'] if 'par' in c else par_for(name, c['variant'])
    untouched(f'{name}{order}', lambda: numeric_value(name, order, c['wrt'], par), seed=c['seed'])


def poly(items):
    p = load('poly').Poly({tuple(k): Fraction(*v) for k, v in items})
    p.set_keyfor(['a', 'b', 'sqrt(1-rho^2)'])
    return p


OPERATIONS = {
    'p + q': lambda p, q: p + q, 'p - q': lambda p, q: p - q, 'p * q': lambda p, q: p * q, 'c * p': lambda p, q: 3 * p,
    'p ** 3': lambda p, q: p ** 3, 'p.merge(q)': lambda p, q: p.merge(q),
    'p.mul_poly(q)': lambda p, q: p.mul_poly(q, [[0, 1, 2], [1, -1, 0]], ['x', 'y', 'z']),
    'p.add_keyval': lambda p, q: p.add_keyval((1, 1, 2), Fraction(1, 3)), 'p.remove_zero()': lambda p, q: p.remove_zero(),
    'p.is_exact_type(q)': lambda p, q: p.is_exact_type(q), 'repr(p)': lambda p, q: repr(p),
    'simplify_rho(p)': lambda p, q: load('utils').simplify_rho(p, 2),
    'p.write_to_txt': lambda p, q: p.write_to_txt('file'), 'p.write_to_csv': lambda p, q: p.write_to_csv('file'),
    'write_to_txt of a name': lambda p, q: p.write_to_txt('x.y.txt'), 'write_to_csv of a name': lambda p, q: p.write_to_csv('x.y.csv'),
}


def poly_body(c):
    """operations on polynomials; writing one makes one file and says so"""
    p, q = poly(c['p']), poly(c['q'])
    op = c['op']
    file = None
    if 'write' in op:
        file = ('file' if 'name' not in op else 'x.y') + ('.txt' if 'txt' in op else '.csv')

    def f():
        out = io.StringIO()
        with contextlib.redirect_stdout(out) if file else contextlib.nullcontext():
            OPERATIONS[op](p, q)
        if file:
            ensure(os.path.isfile(file), f'{op} writes no file {file}')
            os.remove(file)
    untouched(op, f, seed=c['seed'])


@st.composite
def pair(draw):
    big = st.sampled_from([10 ** 310, -7 ** 900, 3 ** 2000 + 1])
    coef = st.tuples(st.one_of(st.integers(-9, 9), st.integers(-10 ** 30, 10 ** 30), big), st.sampled_from([1, 1, 2, 3, 2 ** 70, 11 ** 400]))
    key = st.tuples(st.integers(-3, 6), st.integers(-3, 6), st.integers(0, 6).map(lambda x: 2 * x))
    items = st.lists(st.tuples(key.map(list), coef.map(list)).map(list), max_size=5)
    return {'p': draw(items), 'q': draw(items), 'op': draw(st.sampled_from(sorted(OPERATIONS))), 'seed': draw(st.integers(0, 999))}


def simulator_body(c):
    name = c['f'] if 'f' in c else c['name']

    def f():
        with contextlib.redirect_stdout(io.StringIO()):  # the simulators may announce the jumps
            if 'f' in c:
                seed_all(c['seed'], *SEEDED)
                mod, fn = name.rsplit('.', 1)
                call(name, getattr(load(mod), fn), *sim_arguments(c))
            else:
                sample(name, c['variant'])  # seeds what it draws from
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')  # numpy may warn of extreme parameters
        untouched(f'{name} (simulation)', f, rng=False, seed=c['seed'])


MODULES = sorted(os.path.relpath(os.path.join(d, f), REPO_SRC)[:-3].replace(os.sep, '.').replace('.__init__', '')
                 for d, _, fs in os.walk(os.path.join(REPO_SRC, 'ajdmom')) for f in fs if f.endswith('.py'))

PROBE = '''
import sys
sys.path[:0] = json_paths
sys.dont_write_bytecode = True
import random, importlib, io, contextlib
import numpy as np
from checks import p41
random.seed(5); np.random.seed(5)
out, err = io.StringIO(), io.StringIO()
for m in [x for x in sys.modules if x == 'ajdmom' or x.startswith('ajdmom.')]:
    del sys.modules[m]
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
    a = p41.state()
    importlib.import_module(name)
    b = p41.state()
d = p41.differs(a, b)
if d:
    sys.stdout.write('@@changes the ' + d[0] + ' of the program')
elif out.getvalue() or err.getvalue():
    sys.stdout.write('@@prints ' + repr((out.getvalue() + err.getvalue())[:80]))
else:
    sys.stdout.write('@@')
'''


def import_body(c):
    name = c['module']
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = f'name = {name!r}\njson_paths = {[here, os.path.join(here, "lib"), REPO_SRC]!r}\n' + PROBE
    with elsewhere() as d:
        r = subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, cwd=d,
                           env=dict(os.environ, VERIF_REPO_SRC=REPO_SRC, PYTHONDONTWRITEBYTECODE='1'), timeout=200)
        left = os.listdir(d)
    ensure('@@' in r.stdout, lambda: f'import {name} fails: {(r.stderr.strip().splitlines() or ["?"])[-1][:200]}')
    said = r.stdout.split('@@', 1)[1]
    ensure(not said, lambda: f'import {name} {said}')
    ensure(not left, lambda: f'import {name} leaves {left} in the working directory')


SIM_EDGES = ({'v0': [0.0, 0.0]}, {'h': 1e-4, 'times': [2e-5, 7e-5]}, {'times': [0.5, 0.5]}, {'times': [0.5, 0.5004]}, {'times': [0.0, 0.7]}, {'h': 1e-4}, {'h': 12.0},
             {'times': [0.3, 1.0]}, {'times': [0.0, 1.0]}, {'times': [0.5 + 1e-9, 0.5 + 2e-9]}, {'n': 1, 'N': 1}, {'n': 40, 'N': 30},
             {'times': [0.05 * i for i in range(1, 18)], 'sizes': [0.1] * 17})


def sim_edge(base, o):
    c = dict(base, **o)
    c['v0'] = c['v0'][:len(base['v0'])]
    return c


def as_lists(par):
    return {k: list(v) if isinstance(v, tuple) else v for k, v in par.items()}


@st.composite
def formula(draw):
    name = draw(st.sampled_from(sorted(FORMULAS) + sorted(LISTS)))
    k, top = FORMULAS.get(name, (1, LISTS.get(name)))
    n = [draw(st.integers(0, top)) for _ in range(k)]
    while sum(n) > top:
        n[n.index(max(n))] -= 1
    return {'name': name, 'n': n, 'jumps': list(draw(st.sampled_from(JUMPS))), 'seed': draw(st.integers(0, 999))}


def subs(tier):
    q = tier == 'quick'
    N = 240 if q else 4000
    hi = lambda c: sum(c['n']) >= 2
    pin_f = tuple({'name': n, 'n': ([2] if k == 1 else [1, 1] + [0] * (k - 2)), 'jumps': [0.15, 0.4], 'seed': 3}
                  for n, k in [(n, FORMULAS[n][0]) for n in sorted(FORMULAS)] + [(n, 1) for n in sorted(LISTS)])
    pin_f += tuple({'name': n, 'n': o, 'jumps': [0.15, 0.4], 'seed': 3} for n in list(sorted(FORMULAS)) + sorted(LISTS) for o in beyond(n))
    num = st.sampled_from(sorted(ORDERS)).flatmap(lambda n: st.fixed_dictionaries(
        {'name': st.just(n), 'i': st.integers(0, 3), 'wrt': st.integers(0, 10), 'variant': st.integers(0, 16),
         'seed': st.integers(0, 999)}))
    pin_n = tuple({'name': n, 'i': i, 'wrt': 1, 'variant': v, 'seed': 3} for n in sorted(ORDERS) for i, v in ((1, 0), (2, 2)))
    pin_n += tuple({'name': n, 'i': 0 if len(ORDERS[n][0]) > 2 else 1, 'wrt': 1, 'par': p, 'seed': 3} for n in sorted(ORDERS)
                   for p in edges(as_lists(par_for(n, 0))))
    sim = st.fixed_dictionaries({'name': st.sampled_from(sorted(SIM)), 'variant': st.integers(0, 2), 'seed': st.integers(0, 999)})
    pin_s = tuple({'name': n, 'variant': v, 'seed': 3} for n in sorted(SIM) for v in range(3))
    pin_s += tuple(sim_edge({'f': n, 'N': 3, 'n': 3, 'seed': 3, 'h': 1.0, 'sizes': [0.15, 0.4], 'times': [0.2, 0.7],
                         'v0': [0.3, 0.2] if '2fsv' in n else [0.3],
                         'par': as_lists(par_for('mdl_2fsv.mom.dm' if '2fsv' in n else 'mdl_1fsv.mom.dm', 0))}, o)
                   for n in sorted(SIM) for o in SIM_EDGES if not ('times' in o and 'fsv' in n))
    pin_p = tuple({'p': a, 'q': b, 'op': o, 'seed': 3} for o in sorted(OPERATIONS) for a, b in (
        ([], [[[0, 1, 2], [1, 2]]]), ([[[1, 1, 4], [3 ** 2000, 2]], [[2, 0, 0], [1, 3]]], [[[1, 1, 4], [-3 ** 2000, 2]]]),
        ([[[i, j, 2 * j], [i + 1, 7]] for i in range(8) for j in range(5)], [[[i, 1, 2], [i + 1, 7]] for i in range(9)])))
    return [Sub('polynomials', pair(), poly_body, 200 if q else 4000, lambda c: len(c['p']) >= 2, pinned=pin_p),
            Sub('formulas', formula(), formula_body, N, hi, pinned=pin_f, meta={'cost': 5}, shards=3),
            Sub('numbers', num, numeric_body, N, lambda c: c['i'] >= 2, pinned=pin_n, meta={'cost': 3}, shards=2),
            Sub('simulators', st.one_of(sim, sim_case()), simulator_body, 120 if q else 2000, pinned=pin_s),
            Sub('imports', None, import_body, 0, pinned=tuple({'module': m} for m in MODULES), shards=3)]
