"""SVCJ: stationary return moments."""
from hypothesis import strategies as st

import gen
from formula import check_formula, derive
from harness import Sub, call, ensure, expect_raises, load
from oracle import central_from_raw, stationary_v, svcj_moments, M
from orders import order_sub

PROPERTY = 'P26'
RULE = ('random order and random SVCJ parameters (with boundary values) plus every order at one fixed point; '
        'non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of (v, y) with simultaneous correlated jumps, started from the '
               'stationary moments of the variance, in 60+ digit arithmetic']
FIX = {'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877,
       'mu': 0.137, 'rho': -0.43, 'rhoJ': 0.37, 'mu_s': -0.119, 'sigma_s': 0.233}


def theta_moment(n, p):
    """E[(v - theta)^n] under the stationary law"""
    import math
    raw = stationary_v(n, p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'])
    return sum(math.comb(n, i) * (-M(p['theta'])) ** (n - i) * raw[i] for i in range(n + 1))


def no_mu_body(case):
    """the central moments do not depend on mu: its column can be dropped"""
    n, par = case['n'], case['par']
    mod = load('mdl_svcj.cmom')
    poly = derive('mdl_svcj.cmom', 'cmoment_y', n).copy()
    f = getattr(mod, 'remove_mu_column', None)
    if f is None:
        return
    r = call(f'remove_mu_column(cmoment_y({n}))', f, poly)
    ensure('mu' not in r.keyfor, 'the column of mu is still there')
    check_formula(f'remove_mu_column(cmoment_y({n}))', r, central_from_raw(svcj_moments(par, n))[n], par)
    kept = derive('mdl_svcj.cmom', 'cmoment_y', n)
    k = list(next(iter(kept)))
    k[list(kept.keyfor).index('mu')] += 1
    with_mu = kept.copy()
    with_mu.add_keyval(tuple(k), 1)
    expect_raises('remove_mu_column of a poly with a power of mu', Exception, f, with_mu)


def subs(tier):
    q = tier == 'quick'
    n, top = (200, 4) if q else (800, 4)
    orders = list(range(top + 1))
    m, c = 'mdl_svcj.mom', 'mdl_svcj.cmom'
    par = gen.svcj(v0=False)
    return [
        order_sub('moment_y', m, 'moment_y', orders, par, FIX, lambda i, p: svcj_moments(p, i)[i], n,
                  (m, 'unm_y', False), cap=3, cost=5),
        order_sub('cmoment_y', c, 'cmoment_y', orders, par, FIX, lambda i, p: central_from_raw(svcj_moments(p, i))[i],
                  n, (c, 'cm_y', False), poly2num=m, cap=3, cost=6),
        order_sub('moment_y-high', m, 'moment_y', [5], par, FIX, lambda i, p: svcj_moments(p, i)[i], 30 if q else 200,
                  cost=50),
        order_sub('cmoment_y-high', c, 'cmoment_y', [5], par, FIX, lambda i, p: central_from_raw(svcj_moments(p, i))[i],
                  30 if q else 200, poly2num=m, cost=60),
        order_sub('moment_v_theta', m, 'moment_v_theta', list(range(8)), par, FIX, theta_moment, n, poly2num=False),
        Sub('remove_mu_column', gen.cases(n=st.integers(2, 3), par=par), no_mu_body, n // 2),
    ]
