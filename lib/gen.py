"""Generators: JSON-able parameter dicts (floats are short decimals)."""
from functools import lru_cache

from hypothesis import strategies as st


def dec(lo, hi, digits=3):
    """a decimal in [lo, hi] with the given number of digits"""
    s = 10 ** digits
    return st.integers(round(lo * s), round(hi * s)).map(lambda i: i / s)


def mix(strategy, *special):
    """mostly `strategy`, now and then one of the special values"""
    if not special:
        return strategy
    return st.integers(0, 7).flatmap(lambda i: st.sampled_from(special) if i == 0 else strategy)


# the special values: boundaries of the domain, unit and integer values, and magnitudes
# of practical use away from one (daily steps, fast mean reversion, many jumps)
MU_S, K_S, THETA_S, SIGMA_S = (0, 0.0, -2.5, 1), (1, 1.0, 2.0, 0.02, 12.5), (1, 0.001, 4.0), (1, 0.005, 2.5)
RHO_S, H_S, LAMBDA_S, MUJ_S = (0, 0.0, 1.0, -1.0, 0.99, 1, -1), (1, 1.0, 0.004, 0.02, 10), (0, 0.0, 1, 12.5), (0.0, 0, 1, -2.5)
MUV_S, SIGJ_S, RHOJ_S, SIZE_S = (1, 0.001, 2.5), (0.0, 0, 1, 0.001, 2.5), (0.0, 1, -1.0), (1, 0.001, 4.0)
MU = mix(dec(-0.5, 0.5), *MU_S)
K = mix(dec(0.1, 3.0), *K_S)
THETA = mix(dec(0.02, 0.6), *THETA_S)
SIGMA = mix(dec(0.05, 0.9), *SIGMA_S)
RHO = mix(dec(-0.95, 0.95, 2), *RHO_S)
H = mix(dec(0.1, 3.0), *H_S)
# speed and interval together: small k*h (daily steps), and large
KH = ((0.02, 0.02), (0.02, 1.0), (2.0, 0.004), (0.5, 0.01), (12.5, 0.004), (0.02, 10), (12.5, 10), (1, 1), (12.5, 2.5), (3.0, 10))
LAMBDA = mix(dec(0.05, 2.0), *LAMBDA_S)
MUJ = mix(dec(-0.5, 0.5), *MUJ_S)
MUV = mix(dec(0.02, 0.6), *MUV_S)
SIGJ = mix(dec(0.05, 0.6), *SIGJ_S)


@st.composite
def near_theta(draw, theta):
    """an initial variance: equal to theta or clearly away from it"""
    special = draw(st.integers(0, 19))
    if special < 3:
        return (theta, theta, round(theta + 5, 3))[special]
    return round(max(0.0, theta + draw(st.sampled_from([-1, 1])) * draw(st.integers(5, 600)) / 1000), 3)


@st.composite
def k_h(draw, cap=40):
    """cap on k*h: e^{n k h} has to stay a double where the moments themselves grow so"""
    k, h = draw(st.sampled_from(KH)) if draw(st.integers(0, 7)) == 0 else (draw(K), draw(H))
    return k, (h if k * h <= cap else 2.5)


@st.composite
def sv1(draw, jump=False):
    k, h = draw(k_h(200))
    p = {'mu': draw(MU), 'k': k, 'theta': draw(THETA), 'sigma_v': draw(SIGMA), 'rho': draw(RHO), 'h': h}
    if jump:
        p.update({'lambda': draw(LAMBDA), 'mu_j': draw(MUJ), 'sigma_j': draw(SIGJ)})
    return p


RATIOS = (0.618034, 1.618034, 1.414214, 0.707107, 2.414214, 0.414214, 2.302776, 0.302776, 1.732051)


@st.composite
def k12(draw):
    """two mean-reversion speeds without a small integer relation n1 k1 + n2 k2 = 0
    (the formulas are documented for n1 k1 + n2 k2 != 0 only)"""
    k1 = draw(mix(dec(0.25, 1.5), 0.05, 4.0))
    k2 = round(k1 * draw(st.sampled_from(RATIOS)), 6)
    return k1, k2


@st.composite
def sv2(draw, jump=False):
    k1, k2 = draw(k12())
    p = {'mu': draw(MU), 'k1': k1, 'theta1': draw(THETA), 'sigma_v1': draw(SIGMA),
         'k2': k2, 'theta2': draw(THETA), 'sigma_v2': draw(SIGMA), 'h': draw(mix(dec(0.1, 2.5), 1, 0.02, 0.004, 4.0))}
    if jump:
        p.update({'lambda': draw(LAMBDA), 'mu_j': draw(MUJ), 'sigma_j': draw(SIGJ)})
    return p


@st.composite
def sv1_cond(draw):
    p = draw(sv1())
    p['v0'] = draw(near_theta(p['theta']))
    return p


@st.composite
def ito1(draw, sig='sigma_v', offset=True):
    k, h = draw(k_h())
    p = {'k': k, 'theta': draw(THETA), sig: draw(SIGMA), 'h': h}
    p['v0'] = draw(near_theta(p['theta']))
    if offset:
        p['offset'] = draw(mix(dec(0.0, 3.0), 0.0))
    return p


@st.composite
def ito2(draw):
    k1, k2 = draw(k12())
    p = {'k1': k1, 'theta1': draw(THETA), 'sigma_v1': draw(SIGMA), 'k2': k2, 'theta2': draw(THETA),
         'sigma_v2': draw(SIGMA), 'h': draw(mix(dec(0.1, 2.0), 1, 0.02, 4.0)), 'offset': draw(mix(dec(0.0, 2.0), 0.0))}
    p['v1'] = draw(near_theta(p['theta1']))
    p['v2'] = draw(near_theta(p['theta2']))
    return p


@st.composite
def jump_path(draw, h, maxj=3, minj=0):
    """increasing jump times in [0, h] (ties and end points now and then) and sizes"""
    n = draw(st.sampled_from([x for x in (0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12) if minj <= x <= maxj]))
    times = sorted(draw(st.lists(st.integers(0, 100), min_size=n, max_size=n)))
    times = [h if t == 100 else round(h * t / 100, 6) for t in times]
    sizes = [draw(mix(dec(0.02, 0.6), *SIZE_S)) for _ in range(n)]
    return times, sizes


@st.composite
def cond2(draw, kind='svvj', maxj=3, minj=0):
    """parameters of the models conditional on the variance jumps"""
    k, h = draw(k_h())
    p = {'k': k, 'theta': draw(THETA), 'sigma': draw(SIGMA), 'h': h}
    p['v0'] = draw(near_theta(p['theta']))
    if kind not in ('srjd', 'ito'):
        p['mu'] = draw(MU)
        p['rho'] = draw(RHO)
    t, s = draw(jump_path(h, maxj, minj))
    p['jumptime'], p['jumpsize'] = t, s
    if kind == 'svij':
        p.update(lmbd_s=draw(LAMBDA), mu_s=draw(MUJ), sigma_s=draw(SIGJ))
    if kind == 'svcj':
        p.update(mu_s=draw(MUJ), sigma_s=draw(SIGJ), rho_J=draw(mix(dec(-0.8, 0.8), *RHOJ_S)))
    return p


@st.composite
def srjd(draw, v0=True, h=True):
    k, t = draw(k_h())
    p = {'k': k, 'theta': draw(THETA), 'sigma': draw(SIGMA), 'lmbd': draw(LAMBDA), 'mu_v': draw(MUV)}
    if v0:
        p['v0'] = draw(near_theta(p['theta']))
    if h:
        p['h'] = t
    return p


@st.composite
def svcj(draw, v0=True):
    p = draw(srjd(v0=v0))
    p.update(mu=draw(MU), rho=draw(RHO), rhoJ=draw(mix(dec(-0.8, 0.8), *RHOJ_S)), mu_s=draw(MUJ), sigma_s=draw(SIGJ))
    return p


@st.composite
def interval(draw, joint=False):
    """parameters of integrals over (lb, ub]"""
    p = {'k': draw(K), 'lmbd': draw(LAMBDA), 'mu_v': draw(MUV), 'lb': draw(mix(dec(0.0, 1.5), 0))}
    p['ub'] = round(p['lb'] + draw(mix(dec(0.1, 2.0), 0.004, *((10,) if p['k'] <= 3 else ()))), 3)
    if joint:
        p.update(mu_s=draw(MUJ), sigma_s=draw(SIGJ))
    return p


def cases(**fields):
    """dict of strategies -> strategy of dicts"""
    return st.fixed_dictionaries(fields)


EDGE = {'mu': MU_S, 'k': K_S, 'theta': THETA_S, 'sigma': SIGMA_S, 'sigma_v': SIGMA_S, 'rho': RHO_S, 'h': H_S,
        'lambda': LAMBDA_S, 'lmbd': LAMBDA_S, 'lmbd_s': LAMBDA_S, 'mu_j': MUJ_S, 'mu_s': MUJ_S, 'mu_v': MUV_S,
        'sigma_j': SIGJ_S, 'sigma_s': SIGJ_S, 'rho_J': RHOJ_S, 'rhoJ': RHOJ_S, 'offset': (0.0,),
        'theta1': THETA_S, 'theta2': THETA_S, 'sigma_v1': SIGMA_S, 'sigma_v2': SIGMA_S}


def edges(base):
    """the point `base` with one parameter at a time at each of its special values"""
    out = [dict(base, **{n: v}) for n in base for v in EDGE.get(n, ())]
    if 'k' in base and 'h' in base:
        out += [dict(base, k=k, h=h) for k, h in KH if k * h <= 40]
    if 'v0' in base and 'theta' in base:
        t = base['theta']
        out += [dict(base, v0=v) for v in (t, 0.0, round(t + 5, 3))]
    for i in '12':
        if 'v' + i in base:
            t = base['theta' + i]
            out += [dict(base, **{'v' + i: v}) for v in (t, 0.0, round(t + 5, 3))]
    if 'k1' in base:
        out = [dict(p, h=4.0) if p['h'] == 10 else p for p in out]
    zero = [n for n in base if 0 in EDGE.get(n, ())]
    out += [dict(base, **{a: 0.0, b: 0}) for i, a in enumerate(zero) for b in zero[:i]]
    if len(zero) > 2:
        out.append(dict(base, **{n: 0.0 for n in zero}))
    if 'mu' in base and 'theta' in base:  # differences the formulas are written in
        out.append(dict(base, mu=0.125, theta=0.25))
    for n in ('sigma', 'sigma_v'):
        if n in base and 'rho' in base:
            out.append(dict(base, k=0.5, rho=0.5, **{n: 0.5}))
    if 'theta1' in base:
        out.append(dict(base, **{n[:-1] + i: base[n] for n in base if n[-1] == '1' and n != 'k1' for i in '12'}))
    if 'ub' in base:
        out += [dict(base, lb=0), dict(base, ub=round(base['lb'] + 0.004, 3)), dict(base, ub=base['lb'] + 10)]
    if 'jumptime' in base:
        h, n = base['h'], len(base['jumptime'])
        out = [dict(p, jumptime=[round(t * p['h'] / h, 9) for t in p['jumptime']]) if p['h'] != h else p for p in out]
        if n:
            ts = base['jumptime']
            out += [dict(base, jumptime=t) for t in ([0.0] + ts[1:], ts[:-1] + [h], [ts[0]] * n, [0.0] * n, [h] * n)]
            out += [dict(base, jumpsize=base['jumpsize'][:i] + [s] + base['jumpsize'][i + 1:])
                    for i in range(n) for s in SIZE_S]
            out += [dict(base, jumpsize=[s] * n) for s in SIZE_S]
    return out
