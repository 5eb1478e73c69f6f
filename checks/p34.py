"""Simulators given the jumps of the variance."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from euler_ref import hermite, path_moment
from gen import dec, mix
from harness import Sub, call, ensure, load
from oracle import central_from_raw, srjd_cond2_moments
from simul import array, matches, ref_given_jumps, same_law, seed_all
from unseeded import new_each_process, new_each_time, samples

PROPERTY = 'P34'
RULE = ('random parameters and jump paths (0..12 jumps, ties and end points included), interval length and number of '
        'segments; thousands of samples drawn with a recorded seed are compared with the exact moments (of the square-'
        'root diffusion between the jumps, or of the Euler scheme on the grid cut at the jump times) within 7 standard '
        'errors; whole laws are compared with those of a reference simulator, also where the variance is often truncated at '
        'zero (Kolmogorov-Smirnov at 1e-13); jump sums are compared exactly; non-trivial: at least one jump')
ASSUMPTIONS = ['statistical: a defect that moves every compared moment by less than 7 standard errors is not seen',
               'parameters of the moment comparison keep the variance well above zero, where the truncation at zero '
               'does not act; the truncated region is compared with the reference simulator of lib/simul.py']

SV = 'mdl_svvj.euler'


def jumps(case):
    return tuple(case['sizes']), tuple(case['times'])


# ------------------------------------------------------------ sums over the jumps
def sums_body(case):
    J, T = jumps(case)
    mod = load(SV)
    t, k = case['t'], case['k']
    z = call('IZ', mod.IZ, t, J, T)
    want = math.fsum(s for s, u in zip(J, T) if u <= t)
    ensure(abs(z - want) <= 1e-12 * (1 + want), f'IZ({t}) = {z}, the jumps up to there sum to {want}')
    z = call('IEZ', mod.IEZ, t, J, T, k)
    want = math.fsum(math.exp(k * u) * s for s, u in zip(J, T) if u <= t)
    ensure(abs(z - want) <= 1e-12 * (1 + want), f'IEZ({t}) = {z}, should be {want}')


# ------------------------------------------------------------ square-root diffusion
def srd_body(case):
    mod = load('mdl_srjd.euler')
    R = case['R']
    seed_all(case['seed'], 'mdl_srjd.euler')
    p = case['par']
    if case['jumps'] is None:
        what = 'mdl_srjd.euler.rSRD'
        x = np.array([call(what, mod.rSRD, p['v0'], p['h'], p['k'], p['theta'], p['sigma']) for _ in range(R)])
        q = dict(p, jumptime=[], jumpsize=[])
    else:
        what = 'mdl_srjd.euler.rSRJD'
        T, J = case['jumps']
        if case['tuples']:
            T, J = tuple(T), tuple(J)
        x = call(what, mod.rSRJD, p['v0'], p['k'], p['theta'], p['sigma'], p['h'], J, T, R)
        q = dict(p, jumptime=list(T), jumpsize=list(J))
    array(what, x, R)
    ensure(bool((x >= 0).all()), f'{what}: negative samples')
    raw = srjd_cond2_moments(q, 4)
    c = central_from_raw(raw)
    matches(f'{what}: mean', x, float(raw[1]), float(c[2]))
    d = x - float(raw[1])
    for i in (2, 3):
        matches(f'{what}: central moment {i}', d ** i, float(c[i]))
    s = d ** 2 - float(c[2])
    matches(f'{what}: covariance of successive samples', d[1:] * d[:-1], 0.0)
    matches(f'{what}: covariance of successive squares', s[1:] * s[:-1], 0.0)


# ------------------------------------------------------------ Euler along the path
def iei_body(case):
    p, R = case['par'], case['R']
    J, T = jumps(case)
    mod = load(SV)
    seed_all(case['seed'], SV)
    out = np.array([call('rIEII', mod.rIEII, p['v0'], p['k'], p['theta'], p['sigma'], case['h'], J, T, case['n'])
                    for _ in range(R)], dtype=float)
    ensure(out.shape == (R, 3) and bool(np.isfinite(out).all()), 'rIEII: not three finite numbers')
    for A, B, C in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 0), (0.5, 1, 1), (0, 1, -1)):
        y = A * out[:, 0] + B * out[:, 1] + C * out[:, 2]
        sq = path_moment(p['v0'], p['k'], p['theta'], p['sigma'], case['h'], J, T, case['n'], A, B, C, 2)
        for i in (1, 2, 3):
            want = path_moment(p['v0'], p['k'], p['theta'], p['sigma'], case['h'], J, T, case['n'], A, B, C, i)
            matches(f'rIEII: E[({A} IE + {B} I + {C} I*)^{i}]', y ** i, want, sq - want ** 2 if i == 1 else None)


def price_jump_moments(model, p, h, J, N):
    """raw moments of the sum of the price jumps"""
    def nm(mu, s):
        return [sum(math.comb(n, r) * mu ** (n - r) * s ** r * hermite(r) for r in range(n + 1)) for n in range(N + 1)]
    if model == 'svvj':
        return [1.0] + [0.0] * N
    if model == 'svij':
        lam, e = p['lmbd_s'] * h, nm(p['mu_s'], p['sigma_s'])
        m = [1.0]
        for n in range(1, N + 1):
            m.append(lam * sum(math.comb(n - 1, i) * e[i + 1] * m[n - 1 - i] for i in range(n)))
        return m
    return nm(sum(p['mu_s'] + p['rho_J'] * z for z in J), p['sigma_s'] * math.sqrt(len(J)))


def simulate(model, case, seed, R, over=None, n=None):
    p = dict(case['par'], **(over or {}))
    J, T = jumps(case)
    mod = f'mdl_{model}.euler'
    f = getattr(load(mod), {'svvj': 'rSVVJ', 'svij': 'rSVIJ', 'svcj': 'rSVCJ'}[model])
    seed_all(seed, SV, mod) if model != 'svvj' else seed_all(seed, SV)
    extra = {'svvj': (), 'svij': ('lmbd_s', 'mu_s', 'sigma_s'), 'svcj': ('mu_s', 'sigma_s', 'rho_J')}[model]
    return call(f'{mod}.{f.__name__}', f, p['v0'], p['mu'], p['k'], p['theta'], p['sigma'], p['rho'], case['h'], J, T,
                *(p[e] for e in extra), R, n or case['n'])


def return_body(model):
    def body(case):
        p, h, R = case['par'], case['h'], case['R']
        J, T = jumps(case)
        what = f'mdl_{model}.euler'
        y = simulate(model, case, case['seed'], R)
        array(what, y, R)
        k, th = p['k'], p['theta']
        # E y exactly: mu h - (1/2) int E v, plus the price jumps
        iv = th * h + (p['v0'] - th) * (1 - math.exp(-k * h)) / k
        iv += sum(z * (1 - math.exp(-k * (h - t))) / k for z, t in zip(J, T))
        c = p['mu'] * h - iv / 2
        jm = price_jump_moments(model, p, h, J, 3)
        A = p['sigma'] * math.exp(-k * h) / (2 * k)
        B = p['rho'] - p['sigma'] / (2 * k)
        C = math.sqrt(1 - p['rho'] ** 2)
        dm = [path_moment(p['v0'], k, th, p['sigma'], h, J, T, case['n'], A, B, C, i) for i in range(4)]
        raw = [sum(math.comb(i, a) * dm[a] * jm[i - a] for a in range(i + 1)) for i in range(4)]
        m = c + raw[1]
        matches(f'{what}: mean', y, m, raw[2] - raw[1] ** 2)
        for i in (2, 3):
            want = sum(math.comb(i, a) * raw[a] * (-raw[1]) ** (i - a) for a in range(i + 1))
            matches(f'{what}: central moment {i}', (y - m) ** i, want)
        d = y - m
        matches(f'{what}: covariance of successive samples', d[1:] * d[:-1], 0.0)
        s = d ** 2 - d.var()
        matches(f'{what}: covariance of successive squares', s[1:] * s[:-1], 0.0)
    return body


def shape_body(model):
    def body(case):
        what = f'mdl_{model}.euler'
        N = case['N']
        y = simulate(model, case, case['seed'], N)
        array(what, y, N)
        z = simulate(model, case, case['seed'], N, {'mu': case['par']['mu'] + 0.5})
        if hasattr(load(SV), 'rng'):
            ensure(np.allclose(z - y, 0.5 * case['h'], rtol=0, atol=1e-9 * (1 + float(np.abs(y).max()))),
                   f'{what}: mu + 0.5 does not shift the samples by 0.5 h')
    return body


def law_body(model):
    """the whole law, also where the variance is truncated at zero, against a reference simulator"""
    def body(case):
        what = f'mdl_{model}.euler'
        rng = np.random.default_rng([case['seed'], 77])
        ref = ref_given_jumps(model, case['par'], case['h'], case['n'], case['sizes'], case['times'], 3 * case['R'], rng)
        y = simulate(model, case, case['seed'], case['R'])
        array(what, y, case['R'])
        same_law(what, y, ref)
        same_law(f'{what}, sum of successive samples', y[1::2] + y[:-1:2], ref[1::2] + ref[:-1:2])
        same_law(f'{what}, difference of successive samples', y[1::2] - y[:-1:2], ref[1::2] - ref[:-1:2])
    return body


def unseeded_body(model):
    """as users call it: nothing seeded, several calls in a process of their own"""
    def body(case):
        mod, fn = f'mdl_{model}.euler', {'svvj': 'rSVVJ', 'svij': 'rSVIJ', 'svcj': 'rSVCJ'}[model]
        p, R = case['par'], case['R'] // 3
        J, T = jumps(case)
        extra = {'svvj': (), 'svij': ('lmbd_s', 'mu_s', 'sigma_s'), 'svcj': ('mu_s', 'sigma_s', 'rho_J')}[model]
        args = [p['v0'], p['mu'], p['k'], p['theta'], p['sigma'], p['rho'], case['h'], J, T, *(p[e] for e in extra), R, case['n']]
        ys = samples(mod, fn, args, {}, 3)
        what = f'{mod}.{fn}, unseeded'
        if p['v0'] > 0 and abs(p['rho']) < 1:  # otherwise samples may repeat
            new_each_time(what, ys)
        rng = np.random.default_rng([case['seed'], 77])
        ref = ref_given_jumps(model, p, case['h'], case['n'], case['sizes'], case['times'], 3 * R, rng)
        for i, y in enumerate(ys):
            array(what, y, R)
            same_law(f'{what}, call {i + 1}', y, ref)
        same_law(f'{what}, difference of the samples of two calls', ys[0] - ys[1], ref[:R] - ref[R:2 * R])
        y = ys[2]
        same_law(f'{what}, sum of successive samples', y[1::2] + y[:-1:2], ref[1::2] + ref[:-1:2])
    return body


def processes_body(case):
    m, J, T = case['model'], case['sizes'], case['times']
    extra = {'srjd': (), 'svvj': (), 'svij': (0.8, -0.1, 0.2), 'svcj': (-0.1, 0.2, 0.3)}[m]
    mod, fn = f'mdl_{m}.euler', 'r' + m.upper()
    if m == 'srjd':
        args = [0.3, 0.7, 0.2, 0.4, 1.0, J, T, case['N']]
    else:
        args = [0.3, 0.1, 0.7, 0.2, 0.4, -0.5, 1.0, J, T, *extra, case['N'], case['n']]
    new_each_process(f'{mod}.{fn}, unseeded', mod, fn, args, {})


@st.composite
def rough(draw, model, work):
    """any parameters, mostly such that the variance is often truncated"""
    h, n = draw(mix(dec(0.05, 3.0, 2), 1.0)), draw(st.sampled_from([1, 2, 3, 4, 6, 10, 13]))
    p = {'mu': draw(dec(-0.5, 0.5, 2)), 'k': draw(mix(dec(0.1, 3.0, 2), 6.0)), 'theta': draw(dec(0.02, 0.8, 2)),
         'v0': draw(mix(dec(0.0, 1.0, 2), 0.0)), 'rho': draw(mix(dec(-0.95, 0.95, 2), 0.0, 1.0, -1.0))}
    p['sigma'] = round(math.sqrt(2 * p['k'] * p['theta']) * draw(dec(0.3, 2.5, 2)), 4)
    if model == 'svij':
        p.update(lmbd_s=draw(mix(dec(0.05, 4.0, 2), 0.0, 12.0, 30.0)), mu_s=draw(dec(-0.5, 0.5, 2)), sigma_s=draw(mix(dec(0.05, 0.6, 2), 0.0)))
    if model == 'svcj':
        p.update(mu_s=draw(dec(-0.5, 0.5, 2)), sigma_s=draw(mix(dec(0.05, 0.6, 2), 0.0)), rho_J=draw(mix(dec(-0.8, 0.8, 2), 0.0)))
    J, T = draw(path(h, 12))
    return {'par': p, 'h': h, 'n': n, 'sizes': J, 'times': T, 'seed': draw(st.integers(0, 10 ** 6)),
            'R': max(2000, work // (n + len(T)))}


@st.composite
def path(draw, h, maxj=3, scale=1.0):
    t, s = draw(gen.jump_path(h, maxj))
    return [round(x * scale, 4) for x in s], t


@st.composite
def calm(draw, model, R):
    h = draw(dec(0.4, 1.6, 2))
    n = draw(st.sampled_from([1, 2, 3, 4, 5]))
    theta = draw(dec(0.3, 1.0, 2))
    v0 = round(theta * draw(st.sampled_from([1.0, 1.5, 2.5, 0.8])), 3)
    p = {'mu': draw(dec(-0.5, 0.5, 2)), 'k': min(draw(dec(0.1, 1.0, 2)), round(0.5 * n / h, 3)), 'theta': theta, 'v0': v0,
         'sigma': round(0.2 * math.sqrt(min(theta, v0) / h) * draw(dec(0.5, 1.0, 2)), 4),
         'rho': draw(mix(dec(-0.95, 0.95, 2), 0.0, 0.9))}
    if model == 'svij':
        p.update(lmbd_s=draw(mix(dec(0.3, 2.0, 2), 0.0)), mu_s=draw(dec(-0.5, 0.5, 2)), sigma_s=draw(dec(0.05, 0.6, 2)))
    if model == 'svcj':
        p.update(mu_s=draw(dec(-0.5, 0.5, 2)), sigma_s=draw(dec(0.05, 0.6, 2)), rho_J=draw(dec(-0.8, 0.8, 2)))
    J, T = draw(path(h, 8))
    return {'par': p, 'h': h, 'n': n, 'sizes': J, 'times': T, 'seed': draw(st.integers(0, 10 ** 6)), 'R': R}


@st.composite
def wild(draw, model):
    p = draw(gen.cond2(model))
    h, J, T = p.pop('h'), p.pop('jumpsize'), p.pop('jumptime')
    p['v0'] = draw(mix(dec(0.0, 0.6), 0.0))
    return {'par': p, 'h': h, 'n': draw(st.integers(1, 12)), 'sizes': J, 'times': T,
            'seed': draw(st.integers(0, 10 ** 6)), 'N': draw(st.integers(1, 30))}


@st.composite
def srd(draw, with_jumps, R):
    p = {'k': draw(dec(0.2, 2.5)), 'theta': draw(dec(0.1, 0.6)), 'h': draw(dec(0.3, 2.0, 2))}
    p['sigma'] = round(math.sqrt(2 * p['k'] * p['theta']) * draw(dec(0.3, 1.3, 2)), 4)
    p['v0'] = draw(dec(0.05, 1.0))
    j = None
    if with_jumps:
        J, T = draw(path(p['h'], 8))
        j = [T, J]
    return {'par': p, 'jumps': j, 'tuples': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)), 'R': R}


def sums_case():
    return st.floats(0.2, 2.0).flatmap(lambda h: path(round(h, 2), 12)).flatmap(
        lambda jt: st.fixed_dictionaries({'sizes': st.just(jt[0]), 'times': st.just(jt[1]),
                                          't': st.one_of(dec(0.0, 2.5), st.sampled_from(jt[1] or [0.5])),
                                          'k': dec(0.1, 2.0)}))


FIX = {'par': {'mu': 0.1, 'k': 0.6, 'theta': 0.4, 'v0': 1.0, 'sigma': 0.15, 'rho': -0.9, 'lmbd_s': 1.3, 'mu_s': -0.4,
               'sigma_s': 0.3, 'rho_J': 0.6}, 'h': 1.3, 'n': 3, 'sizes': [0.8, 0.5, 0.6], 'times': [0.2, 0.3, 1.0],
       'seed': 5}


def subs(tier):
    q = tier == 'quick'
    R = 40000 if q else 150000
    N = 10 if q else 40
    some = lambda c: len(c['times']) > 0
    out = [Sub('jump-sums', sums_case(), sums_body, 300 if q else 5000, some),
           Sub('rSRD', srd(False, R), srd_body, N, shrink_s=15),
           Sub('rSRJD', srd(True, R), srd_body, 2 * N, lambda c: len(c['jumps'][0]) > 0, shrink_s=15, pinned=tuple(
               {'par': {'k': 0.7, 'theta': 0.3, 'sigma': 0.5, 'v0': 0.6, 'h': 1.2}, 'jumps': j, 'tuples': True, 'seed': 3,
                'R': R} for j in ([[], []], [[0.4], [0.5]], [[0.2, 0.5, 1.1], [0.3, 0.6, 0.2]], [[0, 0.6, 0.6], [0.3, 0.1, 0.2]],
                                  [[0.6, 1.2], [0.3, 0.4]]))),
           Sub('rIEII', calm('svvj', R), iei_body, N, some, pinned=(dict(FIX, R=R),), shrink_s=15, meta={'cost': 10})]
    for m in ('svvj', 'svij', 'svcj'):
        out.append(Sub('moments-' + m, calm(m, R), return_body(m), 2 * N, some, shrink_s=15, meta={'cost': 10},
                       pinned=(dict(FIX, R=2 * R), dict(FIX, R=R, sizes=[], times=[]))))
        out.append(Sub('unseeded-' + m, rough(m, 60000 if q else 300000), unseeded_body(m), 4 if q else 40, some,
                       shrink_s=10, meta={'cost': 8}))
        out.append(Sub('law-' + m, rough(m, 120000 if q else 600000), law_body(m), 24 if q else 200, some,
                       shrink_s=15, shards=2, meta={'cost': 8}))
        out.append(Sub('samples-' + m, wild(m), shape_body(m), 60 if q else 600, some))
    out.append(Sub('processes', gen.cases(model=st.sampled_from(['srjd', 'svvj', 'svij', 'svcj']), N=st.integers(2, 9),
                                          n=st.integers(1, 12), sizes=st.just([0.3, 0.1]), times=st.just([0.2, 0.7])),
                   processes_body, 0 if q else 30, lambda c: c['sizes'] != [],
                   pinned=tuple({'model': m, 'N': 4, 'n': 3, 'sizes': j, 'times': t} for m in ('srjd', 'svvj', 'svij', 'svcj')
                                for j, t in (([0.3, 0.1], [0.2, 0.7]), ([], [])))))
    return out
