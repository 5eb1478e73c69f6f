"""SRJD: moments of the variance given the initial variance."""
import math

import gen
from oracle import M, central_from_raw, moment_joint, srjd_cond_moments
from orders import order_sub

PROPERTY = 'P17'
RULE = ('random order and random SRJD parameters (with boundary values) plus every order at one fixed point; '
        'non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of the square-root jump-diffusion in 60+ digit arithmetic']
FIX = {'v0': 0.391, 'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877}


def x_raw(n, p):
    """x = sigma IE + IEZ"""
    return [sum(math.comb(m, i) * M(p['sigma']) ** i *
                moment_joint(i, 0, 0, m - i, 0, 0, p['h'], p['v0'], p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'])
                for i in range(m + 1)) for m in range(n + 1)]


def subs(tier):
    q = tier == 'quick'
    n, top = (240, 8) if q else (1500, 10)
    orders = list(range(top + 1))
    xo = list(range((7 if q else 8) + 1))
    m, c = 'mdl_srjd.cond_mom', 'mdl_srjd.cond_cmom'
    return [
        order_sub('moment_v', m, 'moment_v', orders, gen.srjd(), FIX, lambda i, p: srjd_cond_moments(p, i)[i], n,
                  (m, 'm', False), cap=6, cost=5),
        order_sub('cmoment_v', c, 'cmoment_v', orders, gen.srjd(), FIX,
                  lambda i, p: central_from_raw(srjd_cond_moments(p, i))[i], n, (c, 'cm', False), cap=6, cost=5),
        order_sub('moment_x', m, 'moment_x', xo, gen.srjd(), FIX, lambda i, p: x_raw(i, p)[i], n // 2,
                  (m, 'm_x', False), cap=6, cost=5),
        order_sub('cmoment_x', c, 'cmoment_x', xo, gen.srjd(), FIX, lambda i, p: central_from_raw(x_raw(i, p))[i],
                  n // 2, (c, 'cm_x', False), cap=6, cost=5),
    ]
