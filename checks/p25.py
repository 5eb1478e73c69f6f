"""SVCJ: moments of IEZ, IZ, IZ* over an interval, and joint with IE, I, I*."""
import mpmath

import gen
from harness import Sub, call, ensure, load
from formula import decoded, derive, same_float
from oracle import M, moment_joint
from orders import order_sub, upto

PROPERTY = 'P25'
RULE = ('random order tuples, parameters and intervals, plus every order tuple of bounded sum at one fixed point; '
        'non-trivial: total order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of (v, IE, I, I*, IEZ, IZ, IZ*) in 60+ digit arithmetic']
FIX = {'v0': 0.391, 'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877,
       'mu_s': -0.119, 'sigma_s': 0.233}
FIXI = {'k': 0.613, 'lmbd': 0.571, 'mu_v': 0.233, 'lb': 0.31, 'ub': 1.17, 'mu_s': -0.119, 'sigma_s': 0.233}


def interval(o, p):
    k, tau = M(p['k']), M(p['ub']) - M(p['lb'])
    return mpmath.exp(o[0] * k * M(p['lb'])) * moment_joint(0, 0, 0, *o, tau, 0, k, 0, 0, p['lmbd'], p['mu_v'],
                                                            p['mu_s'], p['sigma_s'])


def joint(o, p):
    return moment_joint(*o, p['h'], p['v0'], p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'], p['mu_s'],
                        p['sigma_s'])


def scalar_body(case):
    """the scalar function is for the interval (0, h]"""
    o, par = tuple(case['n']), case['par']
    mod = load('mdl_svcj.ieziziz_mom')
    v, s, _ = decoded(f'moment_ieziziz{o}', derive('mdl_svcj.ieziziz_mom', 'moment_ieziziz', *o), par)
    x = call(f'm_ieziziz({o}, par)', mod.m_ieziziz, o, dict(par, h=par['ub']))
    same_float(f'm_ieziziz({o}, par)', x, v, s)


def scalar_sub(orders, n):
    from hypothesis import strategies as st
    strategy = gen.cases(n=st.sampled_from(orders), par=gen.interval(True).map(
        lambda p: dict(p, lb=0.0, ub=round(p['ub'] - p['lb'], 3))))
    f = dict(FIXI, lb=0.0)
    return Sub('m_ieziziz', strategy, scalar_body, n, lambda c: sum(c['n']) >= 2,
               pinned=tuple({'n': o, 'par': f} for o in orders))


def subs(tier):
    q = tier == 'quick'
    n, ti, tj = (240, 7, 4) if q else (1500, 8, 6)
    m, j = 'mdl_svcj.ieziziz_mom', 'mdl_svcj.cond_ieii_ieziziz_mom'
    js = upto(6, tj)
    low = [o for o in js if sum(o) <= 3]
    out = [order_sub('moment_ieziziz', m, 'moment_ieziziz', upto(3, ti), gen.interval(True), FIXI, interval, n,
                     poly2num=False, cost=4),
           scalar_sub(upto(3, 4), n),
           order_sub('moment_ieii_ieziziz', j, 'moment_ieii_ieziziz', low, gen.srjd().flatmap(
               lambda p: gen.cases(mu_s=gen.MUJ, sigma_s=gen.SIGJ).map(lambda x: dict(p, **x))), FIX, joint, n,
               (j, 'm_ieii_ieziziz', True), cap=2, cost=8)]
    high = [o for o in js if sum(o) > 3]
    for i in range(2 if q else 4):
        part = high[i::2 if q else 4]
        out.append(order_sub(f'moment_ieii_ieziziz-high-{i}', j, 'moment_ieii_ieziziz', part, gen.srjd().flatmap(
            lambda p: gen.cases(mu_s=gen.MUJ, sigma_s=gen.SIGJ).map(lambda x: dict(p, **x))), FIX, joint, n // 4,
            None, cost=10))
    if q:  # a sample of the orders beyond those that are all tried
        from hypothesis import strategies as st
        s = out[-1]
        more = gen.cases(n=st.sampled_from([o for o in upto(6, 6) if sum(o) > 4]), par=gen.srjd().flatmap(
            lambda p: gen.cases(mu_s=gen.MUJ, sigma_s=gen.SIGJ).map(lambda x: dict(p, **x))))
        out.append(Sub('moment_ieii_ieziziz-higher', more, s.body, 60, s.nontrivial, meta={'cost': 10}, shards=2))
    return out
