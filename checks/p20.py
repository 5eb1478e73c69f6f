"""SRJD: moments of IEZ over an interval, and joint moments of IE and IEZ."""
import math

import mpmath

import gen
from oracle import M, central_from_raw, moment_joint
from orders import order_sub, upto

PROPERTY = 'P20'
RULE = ('random orders, parameters and intervals plus every order (pair) at one fixed point; non-trivial: total '
        'order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of (v, IE, IEZ) in 60+ digit arithmetic; it gives the moments '
               'over (0, tau], moments over (s, s + tau] follow by the factor e^{n k s}']
FIX = {'v0': 0.391, 'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877}
FIXI = {'k': 0.613, 'lmbd': 0.571, 'mu_v': 0.233, 'lb': 0.31, 'ub': 1.17}


def iez_raw(n, p):
    k, tau = M(p['k']), M(p['ub']) - M(p['lb'])
    return [mpmath.exp(m * k * M(p['lb'])) * moment_joint(0, 0, 0, m, 0, 0, tau, 0, k, 0, 0, p['lmbd'], p['mu_v'])
            for m in range(n + 1)]


def ie_iez(i, j, p):
    return moment_joint(i, 0, 0, j, 0, 0, p['h'], p['v0'], p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'])


def ie_ciez(i, j, p):
    """IEZ about its mean"""
    mean = ie_iez(0, 1, p)
    return sum(math.comb(j, a) * (-mean) ** (j - a) * ie_iez(i, a, p) for a in range(j + 1))


def subs(tier):
    q = tier == 'quick'
    n, top, tj = (240, 9, 6) if q else (1500, 12, 9)
    orders, pairs = list(range(top + 1)), upto(2, tj)
    m, c = 'mdl_srjd.iez_mom', 'mdl_srjd.iez_cmom'
    jm, jc = 'mdl_srjd.cond_ie_iez_mom', 'mdl_srjd.cond_ie_iez_cmom'
    ie = lambda i, p: ie_iez(i, 0, p)
    hi, he = (list(range(10, 17)), [9, 10]) if q else (list(range(13, 20)), [12])
    return [
        order_sub('moment_IEZ-high', m, 'moment_IEZ', hi, gen.interval(), FIXI, lambda i, p: iez_raw(i, p)[i], n // 6),
        order_sub('cmoment_IEZ-high', c, 'cmoment_IEZ', hi, gen.interval(), FIXI,
                  lambda i, p: central_from_raw(iez_raw(i, p))[i], n // 6, poly2num=m, cost=4),
        order_sub('moment_ie-high', jm, 'moment_ie', he, gen.srjd(), FIX, ie, n // 10, cost=5),
        order_sub('moment_ie-high-about-stationary-mean', jc, 'moment_ie', he, gen.srjd(), FIX, ie, n // 10, cost=5),
        order_sub('moment_IEZ', m, 'moment_IEZ', orders, gen.interval(), FIXI, lambda i, p: iez_raw(i, p)[i], n,
                  (m, 'm', False)),
        order_sub('cmoment_IEZ', c, 'cmoment_IEZ', orders, gen.interval(), FIXI,
                  lambda i, p: central_from_raw(iez_raw(i, p))[i], n, (c, 'cm', False), poly2num=m),
        order_sub('moment_ie', jm, 'moment_ie', list(range(tj + 3)), gen.srjd(), FIX, ie, n, (jm, 'm_ie', False), cost=4),
        order_sub('moment_ie-about-stationary-mean', jc, 'moment_ie', list(range(tj + 3)), gen.srjd(), FIX, ie, n,
                  (jc, 'm_ie', False), cost=4),
        order_sub('moment_ie_iez', jm, 'moment_ie_iez', pairs, gen.srjd(), FIX, lambda o, p: ie_iez(*o, p), n,
                  (jm, 'm_ie_iez', False), cost=6),
        order_sub('cmoment_ie_iez', jc, 'cmoment_ie_iez', pairs, gen.srjd(), FIX, lambda o, p: ie_ciez(*o, p), n,
                  (jc, 'cm_ie_iez', False), cost=6),
    ]
