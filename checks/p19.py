"""SRJD: moments of the variance given the initial variance and the jumps."""
import gen
from oracle import central_from_raw, srjd_cond2_moments
from orders import order_sub

PROPERTY = 'P19'
RULE = ('random order, parameters and jump paths (0..12 jumps, ties and end points included) plus every order at two '
        'fixed paths; non-trivial: order >= 2 and at least one jump')
ASSUMPTIONS = ['the oracle is the generator of the square-root diffusion between the jumps, in 60+ digit arithmetic']
FIX = [{'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'h': 1.3, 'v0': 0.391, 'jumptime': [0.2, 0.7, 1.1],
        'jumpsize': [0.15, 0.4, 0.25]},
       {'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'h': 1.3, 'v0': 0.391, 'jumptime': [], 'jumpsize': []}]


def subs(tier):
    q = tier == 'quick'
    n, top = (400, 8) if q else (2500, 9)
    orders = list(range(top + 1))
    nt = lambda c: c['n'] >= 2 and c['par']['jumptime'] != []
    m, c = 'mdl_srjd.cond2_mom', 'mdl_srjd.cond2_cmom'
    par = gen.cond2('srjd', 6)
    subs = [
        order_sub('moment_v', m, 'moment_v', orders, par, FIX, lambda i, p: srjd_cond2_moments(p, i)[i], n,
                  (m, 'm', False), nontrivial=nt, cost=5),
        order_sub('cmoment_v', c, 'cmoment_v', orders, par, FIX,
                  lambda i, p: central_from_raw(srjd_cond2_moments(p, i))[i], n, (c, 'cm', False), poly2num=m,
                  nontrivial=nt, cost=5),
    ]
    many = gen.cond2('srjd', 12, 7)
    subs += [
        order_sub('moment_v-many', m, 'moment_v', [1, 2, 3], many, FIX[:1], lambda i, p: srjd_cond2_moments(p, i)[i], n // 8,
                  (m, 'm', False), nontrivial=nt, cost=5),
        order_sub('cmoment_v-many', c, 'cmoment_v', [2, 3], many, FIX[:1],
                  lambda i, p: central_from_raw(srjd_cond2_moments(p, i))[i], n // 8, (c, 'cm', False), poly2num=m,
                  nontrivial=nt, cost=5)]
    few = gen.cond2('srjd', 2)
    one = dict(FIX[0], jumptime=[0.5], jumpsize=[0.3])
    hi = [9, 10, 11] if q else [10, 11, 12, 13]
    subs += [
        order_sub('moment_v-high', m, 'moment_v', hi, few, one, lambda i, p: srjd_cond2_moments(p, i)[i], n // 20,
                  nontrivial=nt, cost=6),
        order_sub('cmoment_v-high', c, 'cmoment_v', hi, few, one,
                  lambda i, p: central_from_raw(srjd_cond2_moments(p, i))[i], n // 20, poly2num=m, nontrivial=nt, cost=6)]
    for s in subs:
        s.shards = 3
    return subs
