"""Euler simulators of the stochastic volatility models observed through y."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from euler_ref import add_jumps, heston_pair, twofactor_pair
from gen import dec, mix
from harness import Sub, call, ensure, load
from simul import array, matches, ref_returns, same_law, seed_all
from unseeded import new_each_process, new_each_time, samples

PROPERTY = 'P33'
RULE = ('random parameters, initial variance, interval length and number of segments; thousands of two-interval '
        'trajectories (or one long one) are sampled with a recorded seed and their means, second and third central '
        'moments and cross moments compared with the exact moments of the Euler scheme within 7 standard errors; the laws of returns, their '
        'sums, differences and products compared with those of a reference simulator, also where the variance is often '
        'truncated at zero (Kolmogorov-Smirnov at 1e-13); '
        'non-trivial: at least 2 segments')
ASSUMPTIONS = ['statistical: a defect that moves every compared moment by less than 7 standard errors is not seen',
               'parameters of the moment comparison keep the variance well above zero, where the truncation at zero '
               'does not act; the truncated region is compared with the reference simulator of lib/simul.py']

SIM = {'1fsv': ('mdl_1fsv.euler', 'r1FSV'), '1fsv-iid': ('mdl_1fsv.euler', 'r1FSV_iid'),
       '1fsvj': ('mdl_1fsvj.euler', 'r1FSVJ'), '2fsv': ('mdl_2fsv.euler', 'r2FSV'),
       '2fsvj': ('mdl_2fsvj.euler', 'r2FSVJ')}


def run(model, case, N, seed, **over):
    mod, fn = SIM[model]
    par = dict(case['par'])
    v0 = tuple(case['v0']) if isinstance(case['v0'], list) else case['v0']
    seed_all(seed, mod)
    args = dict({'n_segment': case['n'], ('tau' if model == '1fsv-iid' else 'h'): case['h']}, **over)
    return call(f'{mod}.{fn}', getattr(load(mod), fn), v0, par, N, **args), par


def exact(model, case):
    par, v0, h, n = case['par'], case['v0'], case['h'], case['n']
    memo = {}
    base = heston_pair if model[0] == '1' else twofactor_pair

    def pair(i, j):
        if (i, j) not in memo:
            memo[i, j] = base(par, v0, h, n, i, j)
        return memo[i, j]
    return add_jumps(pair, par, h) if 'lambda' in par else pair


def central(pair, i, j):
    """E[(y1 - Ey1)^i (y2 - Ey2)^j]"""
    m1, m2 = pair(1, 0), pair(0, 1)
    return sum(math.comb(i, a) * math.comb(j, b) * (-m1) ** (i - a) * (-m2) ** (j - b) * pair(a, b)
               for a in range(i + 1) for b in range(j + 1))


STATS = ((1, 0), (0, 1), (2, 0), (0, 2), (3, 0), (0, 3), (1, 1), (1, 2), (2, 1))


def moments_body(model):
    def body(case):
        R = case['R']
        mod, fn = SIM[model]
        what = f'{mod}.{fn}'
        pair = exact(model, case)
        if model == '1fsv-iid':
            y, _ = run(model, case, R, case['seed'])
            array(what, y, R)
            m = pair(1, 0)
            for i in (1, 2, 3):
                matches(f'{what}: central moment {i}' if i > 1 else f'{what}: mean', (y - m) ** i if i > 1 else y,
                        central(pair, i, 0) if i > 1 else m, central(pair, 2, 0) if i == 1 else None)
            # i.i.d.: successive samples are uncorrelated, also their squares
            d = y - m
            matches(f'{what}: covariance of successive samples', d[1:] * d[:-1], 0.0)
            s = d ** 2 - central(pair, 2, 0)
            matches(f'{what}: covariance of successive squares', s[1:] * s[:-1], 0.0)
            return
        ys = np.empty((R, 2))
        f = getattr(load(mod), fn)
        v0 = tuple(case['v0']) if isinstance(case['v0'], list) else case['v0']
        par = dict(case['par'])
        seed_all(case['seed'], mod)
        for r in range(R):
            y = call(what, f, v0, par, 2, n_segment=case['n'], h=case['h'])
            if r == 0:
                array(what, y, 2)
            ys[r] = y
        ensure(par == case['par'], f'{what} changes the parameters it is given')
        d = ys - np.array([pair(1, 0), pair(0, 1)])
        for i, j in STATS:
            w = 0.0 if i + j == 1 else central(pair, i, j)
            matches(f'{what}: E[(y1 - Ey1)^{i} (y2 - Ey2)^{j}]', d[:, 0] ** i * d[:, 1] ** j, w,
                    central(pair, 2 * i, 2 * j) if i + j == 1 else None)
    return body


def shape_body(model):
    """finite samples, right shape, reproducible, also where the variance is often truncated at zero"""
    def body(case):
        mod, fn = SIM[model]
        what = f'{mod}.{fn}'
        N = case['N']
        y, par = run(model, case, N, case['seed'])
        array(what, y, N)
        ensure(par == case['par'], f'{what} changes the parameters it is given')
        z, _ = run(model, case, N, case['seed'])
        ensure(np.array_equal(y, z), f'{what}: the same seed gives other samples')
        # mu only shifts
        c2 = dict(case, par=dict(case['par'], mu=case['par']['mu'] + 0.5))
        z, _ = run(model, c2, N, case['seed'])
        ensure(np.allclose(z - y, 0.5 * case['h'], rtol=0, atol=1e-9 * (1 + float(np.abs(y).max()))), f'{what}: mu + 0.5 does not shift the samples by 0.5 h')
        # the defaults: 10 segments, unit interval
        v0 = tuple(case['v0']) if isinstance(case['v0'], list) else case['v0']
        seed_all(case['seed'], mod)
        a = call(what, getattr(load(mod), fn), v0, dict(case['par']), N)
        b, _ = run(model, dict(case, n=10, h=1), N, case['seed'])
        ensure(np.array_equal(a, b), f'{what}: the defaults are not 10 segments of a unit interval')
    return body


def law_body(model):
    """the whole law, also where the variance is truncated at zero, against a reference simulator"""
    def body(case):
        mod, fn = SIM[model]
        what = f'{mod}.{fn}'
        R, N = case['R'], case['N']
        rng = np.random.default_rng([case['seed'], 77])
        ref = ref_returns(model, case['par'], case['v0'], case['h'], case['n'], 1 if model == '1fsv-iid' else N, 3 * R, rng)
        if model == '1fsv-iid':
            y, _ = run(model, case, R, case['seed'])
            same_law(what, y, ref[:, 0])
            same_law(f'{what}, sum of successive samples', y[1::2] + y[:-1:2], ref[1::2, 0] + ref[:-1:2, 0])
            return
        f = getattr(load(mod), fn)
        v0 = tuple(case['v0']) if isinstance(case['v0'], list) else case['v0']
        par = dict(case['par'])
        seed_all(case['seed'], mod)
        y = np.array([call(what, f, v0, par, N, n_segment=case['n'], h=case['h']) for _ in range(R)])
        for i in range(N):
            same_law(f'{what}, return {i + 1} of {N}', y[:, i], ref[:, i])
        if N > 1:
            same_law(f'{what}, sum of the last two returns', y[:, -1] + y[:, -2], ref[:, -1] + ref[:, -2])
            same_law(f'{what}, difference of the last two returns', y[:, -1] - y[:, -2], ref[:, -1] - ref[:, -2])
            d = y - ref.mean(axis=0)
            e = ref - ref.mean(axis=0)
            same_law(f'{what}, product of the last two returns', d[:, -1] * d[:, -2], e[:, -1] * e[:, -2])
    return body


def unseeded_body(model):
    """as users call it: nothing seeded, several calls in a process of their own"""
    def body(case):
        mod, fn = SIM[model]
        what = f'{mod}.{fn}, unseeded'
        R, N, par = case['R'], case['N'], case['par']
        iid = model == '1fsv-iid'
        kw = {'n_segment': case['n'], ('tau' if iid else 'h'): case['h']}
        ys = samples(mod, fn, [case['v0'], par, R if iid else N], kw, 3 if iid else R)
        v0 = case['v0'] if isinstance(case['v0'], list) else [case['v0']]
        if sum(v0) > 0 and abs(par.get('rho', 0)) < 1:
            new_each_time(what, ys[:20])
        rng = np.random.default_rng([case['seed'], 77])
        ref = ref_returns(model, par, case['v0'], case['h'], case['n'], 1 if iid else N, 3 * R, rng)
        y = np.concatenate(ys)[:, None] if iid else np.array(ys)
        same_law(what, y[:, -1], ref[:, -1])
        same_law(f'{what}, sum of successive calls', y[1::2, -1] + y[:-1:2, -1], ref[1::2, -1] + ref[:-1:2, -1])
        same_law(f'{what}, difference of successive calls', y[1::2, -1] - y[:-1:2, -1], ref[1::2, -1] - ref[:-1:2, -1])
    return body


def processes_body(case):
    mod, fn = SIM[case['model']]
    iid = case['model'] == '1fsv-iid'
    two = '2f' in case['model']
    par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.3, 'rho': -0.5, 'k1': 0.7, 'theta1': 0.2, 'sigma_v1': 0.3, 'k2': 0.9,
           'theta2': 0.1, 'sigma_v2': 0.2, 'lambda': 0.5, 'mu_j': -0.1, 'sigma_j': 0.2}
    new_each_process(f'{mod}.{fn}, unseeded', mod, fn, [[0.3, 0.2] if two else 0.3, par, case['N']],
                     {'n_segment': case['n'], ('tau' if iid else 'h'): 1.0})


def long_body(model):
    """one long series whose variance forgets its past in about one interval: all along, the law is the stationary one"""
    def body(case):
        mod, fn = SIM[model]
        what = f'{mod}.{fn}'
        N = case['N']
        y, par = run(model, case, N, case['seed'])
        array(what, y, N)
        rng = np.random.default_rng([case['seed'], 77])
        ref = ref_returns(model, par, case['v0'], case['h'], case['n'], 5, 3 * N, rng)
        part = N // 3
        for name, a, b in (('first', 4, part), ('middle', part, 2 * part), ('last', 2 * part, N)):
            x = y[a:b]
            x = x[:len(x) // 3 * 3]
            same_law(f'{what}, {name} third of a series of {N}', x[::3], ref[:, 4])
            same_law(f'{what}, sums of two, {name} third of a series of {N}', x[::3] + x[1::3], ref[:, 3] + ref[:, 4])
            same_law(f'{what}, differences of two, {name} third of a series of {N}', x[::3] - x[1::3], ref[:, 3] - ref[:, 4])
    return body


@st.composite
def forgetful(draw, factors, jump, N):
    h = draw(dec(0.5, 2.0, 2))
    n = draw(st.sampled_from([6, 8, 11]))
    p, v0 = {'mu': draw(dec(-0.5, 0.5, 2))}, []
    for s in ('',) if factors == 1 else ('1', '2'):
        p['k' + s], p['theta' + s] = round(draw(dec(3.0, 4.5, 2)) / h, 3), draw(dec(0.1, 0.8, 2))
        p['sigma_v' + s] = round(math.sqrt(2 * p['k' + s] * p['theta' + s]) * draw(dec(0.3, 1.5, 2)), 4)
        v0.append(draw(dec(0.0, 1.0, 2)))
    if factors == 1:
        p['rho'] = draw(dec(-0.95, 0.95, 2))
    if jump:
        p.update({'lambda': draw(dec(0.05, 4.0, 2)), 'mu_j': draw(dec(-0.5, 0.5, 2)), 'sigma_j': draw(dec(0.05, 0.6, 2))})
    return {'par': p, 'v0': v0[0] if factors == 1 else v0, 'h': h, 'n': n, 'N': N, 'seed': draw(st.integers(0, 10 ** 6))}


@st.composite
def rough(draw, factors, jump, work):
    """any parameters, mostly such that the variance is often truncated"""
    h, n, N = draw(mix(dec(0.05, 3.0, 2), 1.0)), draw(st.sampled_from([1, 2, 3, 4, 6, 10, 13])), draw(st.sampled_from([1, 2, 2, 3, 4, 7, 12]))
    p, v0 = {'mu': draw(dec(-0.5, 0.5, 2))}, []
    for s in ('',) if factors == 1 else ('1', '2'):
        p['k' + s], p['theta' + s] = draw(mix(dec(0.1, 3.0, 2), 8.0)), draw(dec(0.02, 0.8, 2))
        p['sigma_v' + s] = round(math.sqrt(2 * p['k' + s] * p['theta' + s]) * draw(dec(0.3, 2.5, 2)), 4)
        v0.append(draw(mix(dec(0.0, 1.0, 2), 0.0)))
    if factors == 1:
        p['rho'] = draw(mix(dec(-0.95, 0.95, 2), 0.0, 1.0, -1.0))
    if jump:
        p.update({'lambda': draw(mix(dec(0.05, 4.0, 2), 0.0, 12.0, 30.0)), 'mu_j': draw(mix(dec(-0.5, 0.5, 2), 0.0)),
                  'sigma_j': draw(mix(dec(0.05, 0.6, 2), 0.0))})
    return {'par': p, 'v0': v0[0] if factors == 1 else v0, 'h': h, 'n': n, 'N': N, 'seed': draw(st.integers(0, 10 ** 6)),
            'R': max(1500, work // (n * N))}


def calm(factors, jump):
    """parameters that keep v away from zero"""
    @st.composite
    def s(draw):
        h = draw(dec(0.4, 1.6, 2))
        n = draw(st.sampled_from([1, 2, 3, 3, 4, 5]))
        dt = h / n
        K = dec(0.1, 1.0, 2)
        p = {'mu': draw(dec(-0.5, 0.5, 2))}
        v0 = []
        for i in (1, 2)[:factors]:
            t = '' if factors == 1 else str(i)
            theta = draw(dec(0.3, 1.0, 2))
            k = min(draw(K), round(0.5 / dt, 3))
            lo = theta * draw(st.sampled_from([1.0, 1.5, 2.5, 0.8]))
            sig = 0.2 * math.sqrt(min(theta, lo) / (2 * h))  # sd of v over both intervals: about a fifth of it
            p.update({f'k{t}': k, f'theta{t}': theta, f'sigma_v{t}': round(sig * draw(dec(0.5, 1.0, 2)), 4)})
            v0.append(round(lo, 3))
        if factors == 1:
            p['rho'] = draw(mix(dec(-0.95, 0.95, 2), 0.0, 0.9, -0.9))
        if jump:
            p.update({'lambda': draw(mix(dec(0.3, 2.0, 2), 0.0)), 'mu_j': draw(dec(-0.5, 0.5, 2)),
                      'sigma_j': draw(dec(0.05, 0.6, 2))})
        return {'par': p, 'v0': v0[0] if factors == 1 else v0, 'h': h, 'n': n, 'seed': draw(st.integers(0, 10 ** 6))}
    return s()


def wild(factors, jump):
    par = gen.sv1(jump) if factors == 1 else gen.sv2(jump)
    v = mix(dec(0.0, 0.6), 0.0, 0)
    return gen.cases(par=par.map(lambda p: {k: x for k, x in p.items() if k != 'h'}),
                     v0=v if factors == 1 else st.lists(v, min_size=2, max_size=2), h=dec(0.05, 3.0, 2),
                     n=st.integers(1, 12), N=st.integers(1, 30), seed=st.integers(0, 10 ** 6))


FIX1 = {'par': {'mu': 0.1, 'k': 0.6, 'theta': 0.4, 'sigma_v': 0.1, 'rho': -0.9}, 'v0': 1.0, 'h': 1.2, 'n': 3, 'seed': 5}
FIX2 = {'par': {'mu': 0.1, 'k1': 0.6, 'theta1': 0.4, 'sigma_v1': 0.1, 'k2': 0.2, 'theta2': 0.9, 'sigma_v2': 0.15},
        'v0': [1.0, 0.6], 'h': 1.2, 'n': 3, 'seed': 5}
JUMP = {'lambda': 1.3, 'mu_j': -0.4, 'sigma_j': 0.3}


def subs(tier):
    q = tier == 'quick'
    R = 40000 if q else 150000
    N = 10 if q else 40
    out = []
    for m in SIM:
        f = int(m[0])
        jump = 'j' in m
        g = st.tuples(calm(f, jump), st.just(R)).map(lambda t: dict(t[0], R=t[1]))
        fix = FIX1 if f == 1 else FIX2
        fix = dict(fix, R=2 * R, par=dict(fix['par'], **(JUMP if jump else {})))
        out.append(Sub('moments-' + m, g, moments_body(m), N, lambda c: c['n'] >= 2, pinned=(fix,), shrink_s=20,
                       meta={'cost': 10}))
        busy = tuple(dict(fix, R=12000, N=2, par=dict(fix['par'], **{'lambda': x})) for x in (9.0, 25.0, 60.0)) if jump else ()
        out.append(Sub('law-' + m, rough(f, jump, 120000 if q else 600000), law_body(m), 14 if q else 120, lambda c: c['n'] >= 2, pinned=busy,
                       shrink_s=15, shards=2, meta={'cost': 8}))
        out.append(Sub('unseeded-' + m, rough(f, jump, 60000 if q else 300000), unseeded_body(m), 4 if q else 40, lambda c: c['n'] >= 2,
                       shrink_s=10, meta={'cost': 8}))
        if m != '1fsv-iid':
            out.append(Sub('long-' + m, forgetful(f, jump, 12000 if q else 50000), long_body(m), 6 if q else 60, lambda c: True,
                           shrink_s=15, shards=2, meta={'cost': 8}))
        out.append(Sub('samples-' + m, wild(f, jump), shape_body(m), 60 if q else 600, lambda c: c['n'] >= 2 and c['N'] >= 2))
    out.append(Sub('processes', gen.cases(model=st.sampled_from(sorted(SIM)), N=st.integers(2, 9), n=st.integers(1, 12)),
                   processes_body, 0 if q else 30, pinned=tuple({'model': m, 'N': 4, 'n': 3} for m in sorted(SIM))))
    return out
