"""The comparison scripts of the paper tabulate derived and sample moments."""
import contextlib
import inspect
import io
import math
import os
import re
import runpy
import sys

import numpy as np
from hypothesis import strategies as st

from gen import dec, mix
from harness import REPO_SRC, Sub, Violation, ensure, load

PROPERTY = 'P42'
RULE = ('a comparison script of scripts/ is run as a program with the simulator replaced by one that returns a generated series '
        'and, in one half of the cases, the moment functions by ones that return generated numbers; every row of every table '
        'printed is recomputed from these; non-trivial: a series that is not constant')
ASSUMPTIONS = ['the numbers of the moment functions and of the simulators themselves are judged by the other checks',
               'the simulators are asked for millions of samples and give a few']
SCRIPTS = os.path.join(os.path.dirname(REPO_SRC), 'scripts')
if not os.path.isdir(SCRIPTS):
    SCRIPTS = '/repo/scripts'

FIVE = [(n,) for n in (1, 2, 3, 4, 5)]
PAIRS = [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3), (4, 1), (3, 2), (2, 3), (1, 4)]
ALL = [('moment', FIVE), ('cmoment', FIVE), ('cov', PAIRS)]
# script -> (model, simulator, tables it prints)
COMPARE = {f'mdl_{m}_comp': (f'mdl_{m}', 'r' + m.upper(), ALL) for m in ('1fsv', '1fsvj', '2fsv', '2fsvj')}
COMPARE['mdl_srjd_comp'] = ('mdl_srjd', 'rSRJD', ALL[:2] * 4)
COMPARE['experiment1'] = ('mdl_1fsvj', 'r1FSVJ', ALL[:1])
COMPARE['experiment2'] = ('mdl_1fsvj', 'r1FSVJ', ALL[2:])
FUNCTIONS = {'moment': ('mom', 'm'), 'cmoment': ('cmom', 'cm'), 'cov': ('cov', 'cov')}


def snapshot(p):
    return {k: tuple(v) if isinstance(v, (list, tuple, np.ndarray)) else float(v) for k, v in dict(p).items()}


_known = {}


def known(f, n, par):
    key = (f.__module__, f.__name__, tuple(n), repr(sorted(snapshot(par).items())))
    if key not in _known:
        _known[key] = f(*n, par)
    return _known[key]


def run(c):
    """printed text, calls of the simulator (arguments, series), calls of the moment functions (kind, orders, par, value)"""
    name = c['script']
    model, sim, _ = COMPARE[name]
    drawn, asked, undo = [], [], []
    rng = np.random.default_rng([c['seed'], 42])

    def patch(mod, attr, new):
        mod = load(f'{model}.{mod}')
        undo.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, new(getattr(mod, attr)))

    def series():
        n = c['N']
        y = {'normal': rng.standard_normal(n), 'constant': np.full(n, 0.5), 'zero': np.zeros(n), 'skew': rng.exponential(1, n),
             'walk': np.cumsum(rng.standard_normal(n)) * 0.1, 'alternating': (-1.0) ** np.arange(n) * rng.uniform(0.5, 1.5, n)}[c['kind']]
        return np.clip(c['at'] + c['scale'] * y, -5, 5)

    def simulator(old):
        def f(*a, **kw):
            args = inspect.signature(old).bind(*a, **kw)
            args.apply_defaults()
            args = dict(args.arguments)
            if c['real']:
                k = 'n' if 'n' in args else 'N'
                y = old(**dict(args, **{k: max(2, c['N'])}))
            else:
                y = series()
            args.update({k: snapshot(v) for k, v in args.items() if isinstance(v, dict)})
            drawn.append((args, np.array(y, dtype=float)))
            return y
        return f

    def formula(kind):
        def new(old):
            def f(*a, **kw):
                args = inspect.signature(old).bind(*a, **kw).arguments
                *n, par = args.values()
                real = c['real'] and (c.get('deep') or kind != 'cov' or '2f' not in model or sum(n) <= 3)  # slow otherwise
                v = known(old, n, par) if real else c['values'][(7 * sum(n) + 3 * n[0] + len(asked)) % len(c['values'])]
                asked.append((kind, tuple(n), snapshot(par), v, len(drawn)))
                return v
            return f
        return new

    cond = 'cond2_' if model == 'mdl_srjd' else ''
    out, cwd, path, argv = io.StringIO(), os.getcwd(), list(sys.path), list(sys.argv)
    mods = set(sys.modules)
    try:
        patch('euler', sim, simulator)
        for kind in sorted({k for k, _ in COMPARE[name][2]}):
            mod, fn = FUNCTIONS[kind]
            patch(cond + mod, fn, formula(kind))
        os.chdir(SCRIPTS)
        sys.argv = [name + '.py']
        sys.path.insert(0, SCRIPTS)
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(os.path.join(SCRIPTS, name + '.py'), run_name='__main__')
            except SystemExit as e:
                ensure(not e.code, f'scripts/{name}.py ends with {e.code}')
            except Exception as e:
                raise Violation(f'scripts/{name}.py fails with {type(e).__name__}: {str(e)[:200]}')
    finally:
        for mod, attr, old in reversed(undo):
            setattr(mod, attr, old)
        os.chdir(cwd)
        sys.path[:], sys.argv[:] = path, argv
        for m in set(sys.modules) - mods:
            if getattr(sys.modules[m], '__file__', None) and os.path.dirname(sys.modules[m].__file__ or '') == SCRIPTS:
                del sys.modules[m]
    return out.getvalue(), drawn, asked


ROW = re.compile(r'^(moment|cmoment|cov)\(([\d, ]+)\)\s*(\S+)\s+(\S+)\s+(\S+)\s+(\S+)%\s*$', re.M)
HEAD = re.compile(r'^\s*derived moment\s+sample moment\s+diff\s+diff\(in %\)\s*$', re.M)


def sample_value(kind, n, y):
    N = len(y)
    y = [float(x) for x in y]
    if kind == 'moment':
        return math.fsum(x ** n[0] for x in y) / N
    if kind == 'cmoment':
        m = math.fsum(y) / N
        return math.fsum((x - m) ** n[0] for x in y) / N
    a, b = [x ** n[0] for x in y[:-1]], [x ** n[1] for x in y[1:]]
    ma, mb = math.fsum(a) / (N - 1), math.fsum(b) / (N - 1)
    return math.fsum((p - ma) * (q - mb) for p, q in zip(a, b)) / (N - 2)


def same_model(what, model, par, args):
    """the formulas and the simulator get the same model, started at the mean"""
    def agree(k, a, b):
        ensure(a == b, f'{what}: the formulas take {k} = {a}, the simulator {b}')
    if model == 'mdl_srjd':
        for k, b in (('v0', 'v0'), ('k', 'k'), ('theta', 'theta'), ('sigma', 'sigma'), ('h', 'T')):
            agree(k, par[k], float(args[b]))
        for k in ('jumpsize', 'jumptime'):
            agree(k, par[k], tuple(float(x) for x in args[k]))
        ensure(list(par['jumptime']) == sorted(par['jumptime']) and all(0 <= t <= par['h'] for t in par['jumptime']) and
               len(par['jumptime']) == len(par['jumpsize']), f'{what}: jumps at {par["jumptime"]} of sizes {par["jumpsize"]}')
        return
    for k in sorted(par):
        if k != 'h':
            agree(k, par[k], args['par'].get(k))
    agree('h', par['h'], float(args['h']))
    v0 = tuple(float(x) for x in args['v0']) if isinstance(args['v0'], (tuple, list)) else (float(args['v0']),)
    mean = (par['theta1'], par['theta2']) if '2fsv' in model else (par['theta'],)
    ensure(v0 == mean, f'{what}: the simulation starts at {v0}, not at the mean {mean}')


def body(c):
    name = c['script']
    model, sim, tables = COMPARE[name]
    what = f'scripts/{name}.py'
    text, drawn, asked = run(c)
    heads = [m.start() for m in HEAD.finditer(text)]
    ensure(len(heads) == len(tables), f'{what} prints {len(heads)} tables, not {len(tables)}')
    ensure(len(drawn) == (4 if model == 'mdl_srjd' else 1), f'{what} simulates {len(drawn)} series')
    if model == 'mdl_srjd':
        counts = [len(a['jumptime']) for a, _ in drawn]
        ensure(counts == [0, 1, 2, 3], f'{what} takes {counts} jumps')
    for i, (kind, orders) in enumerate(tables):
        part = text[heads[i]:heads[i + 1] if i + 1 < len(heads) else len(text)]
        rows = [(m.group(1), tuple(int(x) for x in m.group(2).split(',')), m.groups()[2:]) for m in ROW.finditer(part)]
        ensure([(k, n) for k, n, _ in rows] == [(kind, n) for n in orders],
               f'{what}, table {i + 1}: rows {[(k, n) for k, n, _ in rows]}, not {kind} of {orders}')
        args, y = drawn[i // 2 if model == 'mdl_srjd' else 0]
        for k, n, cells in rows:
            label = f'{what}, {k}{n}'
            calls = [a for a in asked if a[:2] == (k, n) and (model != 'mdl_srjd' or a[4] == i // 2 + 1)]
            ensure(calls, f'{label}: the package is not asked for it')
            for a in calls:
                same_model(label, model, a[2], args)
            sm = sample_value(k, n, y)
            shown = [float(x) for x in cells]
            near = lambda a, b, u: abs(a - b) <= 0.5 * u * 1.02 + 1e-9 * abs(b)
            tms = [float(a[3]) for a in calls]
            tm = [t for t in tms if near(shown[0], t, 1e-4)]
            ensure(tm, f'{label}: derived moment {shown[0]}, the package gives {tms}')
            ensure(near(shown[1], sm, 1e-4), f'{label}: sample moment {shown[1]}, the series has {sm}')
            ensure(any(near(shown[2], abs(t - sm), 1e-4) for t in tm), f'{label}: diff {shown[2]} of {tm} and {sm}')

            def percent(t):
                if t == 0:
                    return math.isnan(shown[3])
                r = 100 * abs(t - sm) / abs(t)
                slack = 100 * 1e-12 * (abs(sm) + abs(t)) / abs(t)  # rounding of the sample moment
                return abs(shown[3] - r) <= 0.51 + 1e-9 * r + slack
            ensure(any(percent(t) for t in tm), f'{label}: diff {cells[3]}% of {tm} and {sm}')


VALUE = mix(dec(-3.0, 3.0, 4).filter(lambda x: abs(x) >= 1e-3), 0.0, 0, 1.0, -0.001, 100.0)


@st.composite
def case(draw):
    return {'script': draw(st.sampled_from(sorted(COMPARE))), 'real': False, 'N': draw(mix(st.integers(3, 60), 3, 4, 200)),
            'kind': draw(st.sampled_from(['normal', 'normal', 'skew', 'walk', 'alternating', 'constant', 'zero'])),
            'at': draw(mix(dec(-1.0, 1.0, 2), 0.0)), 'scale': draw(mix(dec(0.05, 1.0, 2), 1.0)),
            'values': draw(st.lists(VALUE, min_size=1, max_size=12)), 'seed': draw(st.integers(0, 10 ** 6))}


def subs(tier):
    q = tier == 'quick'
    base = {'real': False, 'N': 30, 'kind': 'skew', 'at': -0.3, 'scale': 0.8, 'seed': 3,
            'values': [0.7, -1.3, 0.0, 2.1, 0.013, -0.4, 1.9]}
    pin = tuple(dict(base, script=s, **o) for s in sorted(COMPARE) for o in ({}, {'values': [0.0]}, {'kind': 'zero', 'at': 0.0}, {'N': 3}))
    real = tuple(dict(base, script=s, real=True, deep=not q, N=400 if q else 4000) for s in sorted(COMPARE))
    return [Sub('tables', case(), body, 300 if q else 6000, lambda c: c['kind'] not in ('constant', 'zero'), pinned=pin, shards=2),
            Sub('real', case().filter(lambda c: '2fsv' not in c['script']).map(lambda c: dict(c, real=True, N=max(c['N'], 50))), body, 6 if q else 150, lambda c: True,
                pinned=real, shards=4, meta={'cost': 20})]
