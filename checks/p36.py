"""The way arguments are passed does not matter, and arguments are left alone."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

import gen
from gen import dec, mix
from harness import Sub, Violation, call, ensure, load
from scalars import SCALARS
from simul import seed_all

PROPERTY = 'P36'
RULE = ('random numeric function of the package (moments, covariances, derivatives, simulators), orders and parameters; '
        'the value is compared over the ways of passing the same arguments: by position and by documented name, whole '
        'numbers as int and float, numpy scalars, jumps as tuple, list and array, parameters in another order, read-only '
        'and next to unrelated entries; arguments must come back unchanged. Non-trivial: at least one whole-number '
        'parameter or one jump')
ASSUMPTIONS = ['the documented parameter names and their order are recorded in this check',
               'the value itself is compared with the models by the other checks']

# function -> names of the arguments before par
NAMES = {}
for _f in SCALARS:
    if _f.endswith(('m_ieziziz', 'm_ieii_ieziziz')):
        NAMES[_f] = ('order',)
    elif 'ie_iez' in _f and _f.endswith('m_ie_iez'):
        NAMES[_f] = ('n1', 'n2')
    elif _f.endswith('.cov'):
        NAMES[_f] = ('l1', 'l2')
    elif _f.startswith('mdl_srjd') and 'cond2' not in _f or _f.startswith('mdl_svcj') and 'cond2' not in _f:
        NAMES[_f] = ('n',)
    else:
        NAMES[_f] = ('l',)

WRT = {1: ['mu', 'k', 'theta', 'sigma_v', 'rho'], 2: ['mu', 'k1', 'theta1', 'sigma_v1', 'k2', 'theta2', 'sigma_v2']}
DERIV = {}
for _m in ('1fsv', '1fsvj', '2fsv', '2fsvj'):
    _w = WRT[int(_m[0])] + (['lambda', 'mu_j', 'sigma_j'] if _m.endswith('j') else [])
    DERIV[f'mdl_{_m}.mom.dm'] = (('l',), _w)
    DERIV[f'mdl_{_m}.cmom.dcm'] = (('l',), _w)
    DERIV[f'mdl_{_m}.cov.dcov'] = (('l1', 'l2'), _w)

# a whole number now and then, in every place
WHOLE = {'rho': (0.0, 1.0, -1.0), 'mu': (0.0, 1.0, -2.0), 'k1': (), 'k2': (), 'lb': (0.0,), 'ub': (2.0, 3.0),
         'mu_j': (0.0, -1.0), 'mu_s': (0.0, -1.0), 'rhoJ': (0.0, 1.0), 'rho_J': (0.0, -1.0), 'h': (1.0, 2.0),
         'k': (1.0, 2.0)}


@st.composite
def par_of(draw, name):
    base = SCALARS[name][1] if name in SCALARS else SCALARS[name.replace('.dm', '.m').replace('.dcm', '.cm')
                                                           .replace('.dcov', '.cov')][1]
    if 'k1' in base:
        p = draw(gen.sv2(True))
    elif 'jumptime' in base:
        p = draw(gen.cond2('svcj', maxj=3))
        p['lmbd_s'] = draw(gen.LAMBDA)
    elif 'lmbd' in base:
        p = draw(gen.svcj())
        p['lb'] = draw(mix(dec(0.0, 1.0), 0.0))
        p['ub'] = round(p['lb'] + draw(dec(0.1, 1.5)), 3)
    else:
        p = draw(gen.sv1(True))
        p['v0'] = draw(gen.near_theta(p['theta']))
    for k in sorted(p):
        w = WHOLE.get(k, (1.0, 2.0))
        if isinstance(p[k], (int, float)) and w and draw(st.integers(0, 3)) == 0 and not (k == 'h' and p.get('jumptime')) \
                and not (k in ('k', 'h') and p.get('k', 1) * p.get('h', 1) > 5):
            p[k] = draw(st.sampled_from(w))
    for k, v in p.items():
        if isinstance(v, int):
            p[k] = float(v)
        elif isinstance(v, list):
            p[k] = [float(x) for x in v]
    return p


@st.composite
def scalar_case(draw):
    name = draw(st.sampled_from(sorted(SCALARS) + sorted(DERIV)))
    if name in DERIV:
        names, wrt = DERIV[name]
        n = draw(st.sampled_from([[1], [2], [3]] if len(names) == 1 else [[1, 0], [1, 1], [2, 1]]))
        return {'f': name, 'n': n, 'wrt': draw(st.sampled_from(wrt)), 'par': draw(par_of(name))}
    args = draw(st.sampled_from(SCALARS[name][0]))
    return {'f': name, 'n': [list(a) if isinstance(a, tuple) else a for a in args], 'par': draw(par_of(name))}


FOREIGN = {n: v for par in [SCALARS[f][1] for f in sorted(SCALARS)] for n, v in par.items()}
FOREIGN.update({n: 1.7 for n in ('theta', 'sigma', 'v', 'tau', 'dt', 'n', 't', 'T', 'rho1', 'rho2', 'lambda1', 'gamma', 'mu_v', 'rhoJ',
                                 'rho_J', 'lmbd', 'lmbd_s', 'lmbd_v', 'sigma_v', 'v0', 'v_0', 'y0', 'E[v]', 'x', 'delta', 'order', 'l')
                if n not in FOREIGN})
FOREIGN = {n: tuple(1.3 * x for x in v) if isinstance(v, tuple) else 1.3 * v + 0.1 for n, v in FOREIGN.items()}


class Frozen:
    """a mapping that can be read by its documented keys and not written"""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def get(self, k, default=None):
        return self._d.get(k, default)

    def keys(self):
        return self._d.keys()

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def items(self):
        return self._d.items()

    def values(self):
        return self._d.values()

    def copy(self):
        return dict(self._d)


def foreign(names):
    """entries of the other models, under names that this function does not document"""
    return {n: v for n, v in FOREIGN.items() if n not in names}


def forms(par):
    """the same parameters, passed differently"""
    def each(f, seq):
        return {k: (seq(v) if isinstance(v, list) else f(v)) for k, v in par.items()}
    whole = lambda v: int(v) if v == int(v) else v
    yield 'ints for whole numbers', each(whole, lambda s: tuple(whole(x) for x in s))
    yield 'numpy scalars', each(np.float64, lambda s: tuple(np.float64(x) for x in s))
    yield 'jumps as lists', each(float, list)
    yield 'jumps as arrays', each(float, np.array)
    p = each(float, tuple)
    yield 'unrelated entries, reversed order', dict([('zzz', 'text'), ('sigma_x', None)] + list(reversed(list(p.items()))))
    yield 'parameters of other models next to its own', dict(foreign(p), **p)
    yield 'read-only parameters', Frozen(p)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def snapshot(p):
    return {k: copy.deepcopy(v) for k, v in p.items()}


def untouched(what, p, before):
    ensure(list(p) == list(before) and all(equal(p[k], before[k]) for k in before),
           lambda: f'{what} changes the parameters it is given: {before} became {dict(p.items())}')


def close(what, a, b):
    try:
        x, y = float(a), float(b)
    except Exception:
        raise Violation(f'{what}: {b!r} instead of {a!r}')
    ensure(abs(x - y) <= 1e-12 * max(abs(x), abs(y)) + 1e-300 or math.isnan(x) and math.isnan(y),
           f'{what}: {y!r} instead of {x!r}')


def scalar_body(c):
    name = c['f']
    mod, fn = name.rsplit('.', 1)
    f = getattr(load(mod), fn)
    n = tuple(tuple(a) if isinstance(a, list) else a for a in c['n'])
    names = DERIV[name][0] if name in DERIV else NAMES[name]
    tail = (c['wrt'],) if name in DERIV else ()
    kw = {'wrt': c['wrt']} if name in DERIV else {}
    p0 = {k: tuple(v) if isinstance(v, list) else v for k, v in c['par'].items()}
    what = f'{name}{n}'
    keep = snapshot(p0)
    want = call(what, f, *n, p0, *tail)
    untouched(what, p0, keep)
    close(f'{what} with arguments passed by name', want, call(f'{what} by name', f, par=p0, **dict(zip(names, n)), **kw))
    for how, p in forms(c['par']):
        keep = snapshot(p)
        close(f'{what} with {how}', want, call(f'{what} with {how}', f, *n, p, *tail))
        untouched(f'{what} with {how}', p, keep)


# ------------------------------------------------------------ simulators
SIM = {
    'mdl_1fsv.euler.r1FSV': ('v0', 'par', 'N', 'n_segment', 'h'), 'mdl_1fsv.euler.r1FSV_iid': ('v0', 'par', 'N', 'n_segment', 'tau'),
    'mdl_1fsvj.euler.r1FSVJ': ('v0', 'par', 'N', 'n_segment', 'h'), 'mdl_2fsv.euler.r2FSV': ('v0', 'par', 'N', 'n_segment', 'h'),
    'mdl_2fsvj.euler.r2FSVJ': ('v0', 'par', 'N', 'n_segment', 'h'),
    'mdl_srjd.euler.rSRD': ('v0', 'tau', 'k', 'theta', 'sigma'),
    'mdl_srjd.euler.rSRJD': ('v0', 'k', 'theta', 'sigma', 'T', 'jumpsize', 'jumptime', 'n'),
    'mdl_svvj.euler.rSVVJ': ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'T', 'jumpsize', 'jumptime', 'n', 'n_segment'),
    'mdl_svij.euler.rSVIJ': ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'T', 'jsize_v', 'jtime_v', 'lmbd_s', 'mu_s', 'sigma_s',
                             'n', 'n_seqment'),
    'mdl_svcj.euler.rSVCJ': ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'T', 'jsize_v', 'jtime_v', 'mu_s', 'sigma_s', 'rho_J',
                             'n', 'n_segment'),
}
SEEDED = ('mdl_svvj.euler', 'mdl_svij.euler', 'mdl_svcj.euler', 'mdl_srjd.euler', 'mdl_1fsv.euler', 'mdl_1fsvj.euler',
          'mdl_2fsv.euler', 'mdl_2fsvj.euler')


@st.composite
def sim_case(draw):
    name = draw(st.sampled_from(sorted(SIM)))
    two = '2fsv' in name
    par = draw(par_of('mdl_2fsv.mom.m' if two else 'mdl_1fsv.mom.m'))
    par['k' if not two else 'k1'] = min(par['k' if not two else 'k1'], 3.0)
    h = draw(mix(dec(0.1, 2.0, 2), 1.0, 2.0))
    t, s = draw(gen.jump_path(h, 3))
    return {'f': name, 'par': {k: v for k, v in par.items() if k not in ('h', 'v0')},
            'v0': [draw(mix(dec(0.1, 1.0, 2), 1.0)) for _ in range(2 if two else 1)], 'h': h, 'times': t, 'sizes': s,
            'N': draw(st.integers(1, 6)), 'n': draw(st.integers(1, 5)), 'seed': draw(st.integers(0, 10 ** 6))}


def sim_arguments(c, num=float, seq=tuple):
    """the arguments of the simulator c['f'], by position"""
    p = c['par']
    v = {'v0': num(c['v0'][0]) if len(c['v0']) == 1 else seq([num(x) for x in c['v0']]),
         'par': {k: num(x) for k, x in p.items()}, 'N': c['N'], 'n': c['N'], 'n_segment': c['n'], 'n_seqment': c['n'],
         'h': num(c['h']), 'tau': num(c['h']), 'T': num(c['h'])}
    for a in ('jumpsize', 'jsize_v'):
        v[a] = seq([num(x) for x in c['sizes']])
    for a in ('jumptime', 'jtime_v'):
        v[a] = seq([num(x) for x in c['times']])
    for a, b in (('mu', 'mu'), ('k', 'k'), ('theta', 'theta'), ('sigma', 'sigma_v'), ('rho', 'rho'), ('lmbd_s', 'lambda'),
                 ('mu_s', 'mu_j'), ('sigma_s', 'sigma_j'), ('rho_J', 'rho')):
        if b in p:
            v[a] = num(p[b])
    return [v[a] for a in SIM[c['f']]]


def sim_body(c):
    name = c['f']
    mod, fn = name.rsplit('.', 1)
    f = getattr(load(mod), fn)

    def arguments(num, seq):
        return sim_arguments(c, num, seq)

    def run(args, how, named=False):
        seed_all(c['seed'], *SEEDED)
        keep = copy.deepcopy(args)
        r = call(f'{name} with {how}', f, *(() if named else args), **(dict(zip(SIM[name], args)) if named else {}))
        for a, b, k in zip(args, keep, SIM[name]):
            same = equal(a, b) if not isinstance(a, dict) else list(a) == list(b) and all(equal(a[x], b[x]) for x in a)
            ensure(same, f'{name} with {how} changes its argument {k}')
        return np.atleast_1d(np.asarray(r, dtype=float))

    whole = lambda v: int(v) if v == int(v) else v
    want = run(arguments(float, tuple), 'tuples')
    for how, args, named in (('arguments passed by name', arguments(float, tuple), True),
                             ('ints for whole numbers', arguments(whole, tuple), False),
                             ('numpy scalars', arguments(np.float64, tuple), False),
                             ('lists', arguments(float, list), False), ('arrays', arguments(float, np.array), False)):
        got = run(args, how, named)
        ensure(got.shape == want.shape and bool(np.allclose(got, want, rtol=1e-12, atol=1e-15, equal_nan=True)),
               lambda: f'{name} with {how}: {got[:3]} instead of {want[:3]} from the same random numbers')


def subs(tier):
    q = tier == 'quick'
    nt = lambda c: any(isinstance(v, float) and v == int(v) for v in c['par'].values()) or bool(c['par'].get('jumptime'))
    pinned = []
    for name in sorted(SCALARS):
        args = SCALARS[name][0][-1]
        par = {k: list(v) if isinstance(v, tuple) else v for k, v in SCALARS[name][1].items()}
        pinned.append({'f': name, 'n': [list(a) if isinstance(a, tuple) else a for a in args],
                       'par': dict(par, theta=1.0) if 'theta' in par else dict(par, theta1=1.0)})
    return [Sub('values', scalar_case(), scalar_body, 600 if q else 12000, nt, pinned=tuple(pinned), shards=6,
                meta={'cost': 5}),
            Sub('samples', sim_case(), sim_body, 300 if q else 6000,
                lambda c: bool(c['times']) or any(v == int(v) for v in c['par'].values()))]
