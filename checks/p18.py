"""SRJD: stationary moments of the variance."""
import math

from hypothesis import strategies as st

import gen
from formula import check_formula, derive
from harness import Sub, call, load
from oracle import M, central_from_raw, srjd_cond_moments, stationary_v
from orders import order_sub

PROPERTY = 'P18'
RULE = ('random order and random SRJD parameters (with boundary values) plus every order at one fixed point; '
        'non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the moment recursion of the stationary law, in 60+ digit arithmetic']
FIX = {'v0': 0.391, 'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877}


def stat(n, p):
    return stationary_v(n, p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'])


def about_mean(n, p):
    """E[(v_h - E[v])^n | v0], E[v] the stationary mean"""
    raw = srjd_cond_moments(p, n)
    ev = M(p['theta']) + M(p['lmbd']) * M(p['mu_v']) / M(p['k'])
    return sum(math.comb(n, i) * (-ev) ** (n - i) * raw[i] for i in range(n + 1))


def unsimplified(case):
    n, par = case['n'], case['par']
    poly = call(f'moment_v({n}, simplify=False)', load('mdl_srjd.mom').moment_v, n, simplify=False)
    check_formula(f'mdl_srjd.mom.moment_v({n}, simplify=False)', poly, stat(n, par)[n], par)


def subs(tier):
    q = tier == 'quick'
    n, top = (240, 9) if q else (1200, 10)
    orders = list(range(top + 1))
    return [
        order_sub('moment_v', 'mdl_srjd.mom', 'moment_v', orders, gen.srjd(), FIX, lambda i, p: stat(i, p)[i], n,
                  poly2num=False, cost=5),
        order_sub('cmoment_v', 'mdl_srjd.cmom', 'cmoment_v', orders, gen.srjd(), FIX,
                  lambda i, p: central_from_raw(stat(i, p))[i], n, poly2num=False, cost=5),
        order_sub('cond_cmoment_v', 'mdl_srjd.cmom', 'cond_cmoment_v', orders[:9], gen.srjd(), FIX, about_mean, n,
                  poly2num=False, cost=5),
        Sub('moment_v-unsimplified', gen.cases(n=st.integers(0, 5), par=gen.srjd()), unsimplified, n // 2,
            lambda c: c['n'] >= 2),
    ]
