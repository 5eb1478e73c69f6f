"""SVCJ: return moments given the initial variance."""
import gen
from oracle import central_from_raw, svcj_moments
from orders import order_sub

PROPERTY = 'P24'
RULE = ('random order and random SVCJ parameters (with boundary values) plus every order at one fixed point; '
        'non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of (v, y) with simultaneous correlated jumps, in 60+ digit '
               'arithmetic']
FIX = {'v0': 0.391, 'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877,
       'mu': 0.137, 'rho': -0.43, 'rhoJ': 0.37, 'mu_s': -0.119, 'sigma_s': 0.233}


def subs(tier):
    q = tier == 'quick'
    n, top = (200, 4) if q else (800, 4)
    orders = list(range(top + 1))
    m, c = 'mdl_svcj.cond_mom', 'mdl_svcj.cond_cmom'
    out = [
        order_sub('moment_y', m, 'moment_y', orders, gen.svcj(), FIX, lambda i, p: svcj_moments(p, i, p['v0'])[i], n,
                  (m, 'm_y', False), cap=3, cost=5),
        order_sub('cmoment_y', c, 'cmoment_y', orders, gen.svcj(), FIX,
                  lambda i, p: central_from_raw(svcj_moments(p, i, p['v0']))[i], n, (c, 'cm_y', False), poly2num=m,
                  cap=3, cost=5),
        # one more order, derived once
        order_sub('moment_y-high', m, 'moment_y', [5], gen.svcj(), FIX, lambda i, p: svcj_moments(p, i, p['v0'])[i],
                  30 if q else 200, cost=50),
        order_sub('cmoment_y-high', c, 'cmoment_y', [5], gen.svcj(), FIX,
                  lambda i, p: central_from_raw(svcj_moments(p, i, p['v0']))[i], 30 if q else 200, poly2num=m, cost=50),
    ]
    return out
