"""Laws that the moments of a process obey whatever its parameters."""
import math
from fractions import Fraction as F

from hypothesis import strategies as st
from mpmath import mpf

import gen
import sv
from formula import FLOOR
from harness import Sub, Violation
from oracle import M
from relate import REL, central, cond2, equal, polynomial, product, total, value

PROPERTY = 'P32'
RULE = ('random order and random parameters; the same law is evaluated through two formulas or at two parameter points '
        '(change of the time unit, shift of mu, central from raw moments, two intervals joined into one, v0 -> h -> 2h '
        'composed), or must satisfy the moment inequalities; non-trivial: total order >= 2')
ASSUMPTIONS = ['both sides are formulas derived by the package, evaluated in 60-digit arithmetic']

SVM = ('1fsv', '1fsvj', '2fsv', '2fsvj')


def fac(m):
    return 1 if m[0] == '1' else 2


# ------------------------------------------------------------ change of the time unit
RATE = {'k', 'k1', 'k2', 'theta', 'theta1', 'theta2', 'sigma', 'sigma_v', 'sigma_v1', 'sigma_v2', 'mu', 'lambda', 'lmbd',
        'lmbd_s', 'mu_v', 'v0', 'v1', 'v2'}
TIME = {'h', 'offset', 'lb', 'ub'}


def exact(par):
    """the decimals as written, not their nearest binary fractions"""
    return {n: [F(str(t)) for t in x] if isinstance(x, list) else F(str(x)) for n, x in par.items()}


def rescale(par, c):
    """parameters per unit of time -> per 1/c units: v and every rate get the factor c, lengths of time 1/c"""
    q = {}
    for n, x in par.items():
        if n == 'jumptime':
            q[n] = [t / c for t in x]
        elif n == 'jumpsize':
            q[n] = [t * c for t in x]
        else:
            q[n] = x * c if n in RATE else x / c if n in TIME else x
    if 'rho_J' in q:
        q['rho_J'] /= c
    if 'rhoJ' in q:
        q['rhoJ'] /= c
    return q


def time_unit_sv(c):
    m, p = c['model'], exact(c['par'])
    q = rescale(p, F(*c['c']))
    equal(f'mdl_{m}.{c["fn"]}{c["n"]} after a change of the time unit', value(f'mdl_{m}.{c["fn"]}', c['n'], p, fac(m)),
          value(f'mdl_{m}.{c["fn"]}', c['n'], q, fac(m)))


def time_unit_cond2(c):
    p = exact(c['par'])
    q = rescale(p, F(*c['c']))
    equal(f'{c["kind"]} moment {c["l"]} after a change of the time unit', cond2(c['kind'], c['central'], c['l'], p),
          cond2(c['kind'], c['central'], c['l'], q))


def time_unit_svcj(c):
    p, l = exact(c['par']), c['l']
    cc = F(*c['c'])
    q = rescale(p, cc)
    for f in ('cond_mom.moment_y', 'cond_cmom.cmoment_y', 'mom.moment_y', 'cmom.cmoment_y'):
        equal(f'mdl_svcj.{f}({l}) after a change of the time unit', value('mdl_svcj.' + f, (l,), p),
              value('mdl_svcj.' + f, (l,), q))
    for f in ('cond_mom.moment_v', 'cond_cmom.cmoment_v', 'mom.moment_v', 'cmom.cmoment_v'):
        x, s = value('mdl_srjd.' + f, (l,), p)
        u = M(cc) ** l
        equal(f'mdl_srjd.{f}({l}) after a change of the time unit', (x * u, s * u), value('mdl_srjd.' + f, (l,), q))


# ------------------------------------------------------------ central = raw, binomially
PAIRS = {
    'mdl_1fsv': ('mom.moment_y', 'cmom.cmoment_y'), 'mdl_1fsvj': ('mom.moment_y', 'cmom.cmoment_y'),
    'mdl_2fsv': ('mom.moment_y', 'cmom.cmoment_y'), 'mdl_2fsvj': ('mom.moment_y', 'cmom.cmoment_y'),
    'mdl_svcj-cond': ('cond_mom.moment_y', 'cond_cmom.cmoment_y'), 'mdl_svcj': ('mom.moment_y', 'cmom.cmoment_y'),
    'mdl_srjd-cond': ('cond_mom.moment_v', 'cond_cmom.cmoment_v'), 'mdl_srjd-x': ('cond_mom.moment_x', 'cond_cmom.cmoment_x'),
    'mdl_srjd': ('mom.moment_v', 'cmom.cmoment_v'), 'mdl_srjd-iez': ('iez_mom.moment_IEZ', 'iez_cmom.cmoment_IEZ'),
    'mdl_svvj-cond2': ('cond2_mom.moment_y', 'cond2_cmom.cmoment_y'),
    'mdl_svij-cond2': ('cond2_mom.moment_y', 'cond2_cmom.cmoment_y'),
    'mdl_svcj-cond2': ('cond2_mom.moment_y', 'cond2_cmom.cmoment_y'),
    'mdl_srjd-cond2': ('cond2_mom.moment_v', 'cond2_cmom.cmoment_v'),
}
TOP = {'mdl_1fsv': (7, 9), 'mdl_1fsvj': (7, 9), 'mdl_2fsv': (5, 6), 'mdl_2fsvj': (5, 6), 'mdl_svcj-cond': (4, 5),
       'mdl_svcj': (4, 5), 'mdl_srjd-cond': (7, 10), 'mdl_srjd-x': (5, 7), 'mdl_srjd': (8, 12), 'mdl_srjd-iez': (7, 10),
       'mdl_svvj-cond2': (5, 7), 'mdl_svij-cond2': (5, 6), 'mdl_svcj-cond2': (4, 5), 'mdl_srjd-cond2': (6, 7)}


def moments(fam, which, l, par):
    mod = fam.split('-')[0]
    if fam in ('mdl_svvj-cond2', 'mdl_svij-cond2', 'mdl_svcj-cond2'):
        return cond2(mod[4:], which == 1, l, par)
    return value(f'{mod}.{PAIRS[fam][which]}', (l,), par, 2 if mod[:5] == 'mdl_2' else 1)


def par_of(fam):
    return {'mdl_1fsv': gen.sv1(), 'mdl_1fsvj': gen.sv1(True), 'mdl_2fsv': gen.sv2(), 'mdl_2fsvj': gen.sv2(True),
            'mdl_svcj-cond': gen.svcj(), 'mdl_svcj': gen.svcj(v0=False), 'mdl_srjd-cond': gen.srjd(),
            'mdl_srjd-x': gen.srjd(), 'mdl_srjd': gen.srjd(), 'mdl_srjd-iez': gen.interval(),
            'mdl_svvj-cond2': gen.cond2('svvj'), 'mdl_svij-cond2': gen.cond2('svij'),
            'mdl_svcj-cond2': gen.cond2('svcj'), 'mdl_srjd-cond2': gen.cond2('srjd')}[fam]


def binomial(c):
    fam, l, p = c['fam'], c['l'], exact(c['par'])
    raws = [moments(fam, 0, i, p) for i in range(l + 1)]
    equal(f'{fam}: central moment {l} from the raw moments', central(raws), moments(fam, 1, l, p))


# ------------------------------------------------------------ mu
def shift_mu(c):
    fam, l, p = c['fam'], c['l'], exact(c['par'])
    d = F(*c['d'])
    q = dict(p, mu=p['mu'] + d)
    equal(f'{fam}: central moment {l} after a shift of mu', moments(fam, 1, l, p), moments(fam, 1, l, q))
    a = M(d) * M(p['h'])
    equal(f'{fam}: moment {l} after a shift of mu',
          total([(math.comb(l, i) * a ** (l - i), moments(fam, 0, i, p)) for i in range(l + 1)]), moments(fam, 0, l, q))


# ------------------------------------------------------------ two intervals of length h make one of 2h
def joined(c):
    m, n, p = c['model'], c['n'], exact(c['par'])
    q = dict(p, h=2 * p['h'])
    parts = [(math.comb(n, i), value(f'mdl_{m}.cov.moment_yy', (i, n - i), p, fac(m))) for i in range(n + 1)]
    equal(f'mdl_{m}: moment {n} over two intervals = over one of double length', total(parts),
          value(f'mdl_{m}.mom.moment_y', (n,), q, fac(m)))


def covariance(c):
    m, (a, b), p = c['model'], c['n'], exact(c['par'])
    x = value(f'mdl_{m}.cov.moment_yy', (a, b), p, fac(m))
    y = product(value(f'mdl_{m}.mom.moment_y', (a,), p, fac(m)), value(f'mdl_{m}.mom.moment_y', (b,), p, fac(m)))
    cov = value(f'mdl_{m}.cov.cov_yy', (a, b), p, fac(m))
    equal(f'mdl_{m}: cov({a},{b}) = E[y^{a} y\'^{b}] - E[y^{a}] E[y^{b}]', total([(1, x), (-1, y)]), cov)
    # |cov|^2 <= var var
    va, vb = (2 * i for i in (a, b))
    if max(va, vb) <= (8 if fac(m) == 1 else 4):
        A, B = (total([(1, value(f'mdl_{m}.mom.moment_y', (2 * i,), p, fac(m))),
                       (-1, product(*[value(f'mdl_{m}.mom.moment_y', (i,), p, fac(m))] * 2))]) for i in (a, b))
        slack = REL * (A[1] * B[1] + cov[1] ** 2) + FLOOR
        if cov[0] ** 2 > A[0] * B[0] + slack:
            raise Violation(f'mdl_{m}: cov({a},{b})^2 = {float(cov[0] ** 2)} exceeds the product of the variances '
                            f'{float(A[0] * B[0])}')


# ------------------------------------------------------------ moments of the variance compose over time
def compose(c):
    n, p = c['n'], exact(c['par'])
    h = p['h']
    a = h * F(*c['split'])
    co = polynomial(lambda v: value('mdl_srjd.cond_mom.moment_v', (n,), dict(p, v0=v, h=h - a)), n)
    parts = [product(x, value('mdl_srjd.cond_mom.moment_v', (i,), dict(p, h=a))) for i, x in enumerate(co)]
    equal(f'mdl_srjd.cond_mom.moment_v({n}) over a + b = over b after a', (sum(x[0] for x in parts), sum(x[1] for x in parts)),
          value('mdl_srjd.cond_mom.moment_v', (n,), p))


def compose_jumps(c):
    """given the jumps: the path can be cut anywhere between two jumps"""
    n, p = c['n'], exact(c['par'])
    h = p['h']
    a = h * F(*c['split'])
    J = [(t, z) for t, z in zip(p['jumptime'], p['jumpsize'])]
    if any(t == a for t, _ in J):
        return
    base = dict(p)
    one = dict(base, h=a, jumptime=[t for t, z in J if t < a], jumpsize=[z for t, z in J if t < a])
    two = dict(base, h=h - a, jumptime=[t - a for t, z in J if t > a], jumpsize=[z for t, z in J if t > a])
    f = 'mdl_srjd.cond2_mom.moment_v'
    co = polynomial(lambda v: value(f, (n,), dict(two, v0=v)), n)
    parts = [product(x, value(f, (i,), one)) for i, x in enumerate(co)]
    equal(f'{f}({n}) over a path = over its second part after the first',
          (sum(x[0] for x in parts), sum(x[1] for x in parts)), value(f, (n,), p))


# ------------------------------------------------------------ inequalities
def inequalities(c):
    """Hankel determinants of the moments 0..2n are not negative (n = 1, 2, 3)"""
    import mpmath
    fam, p = c['fam'], exact(c['par'])
    L = c['l'] // 2
    for which in (0, 1):
        m = [moments(fam, which, i, p) for i in range(2 * L + 1)]
        for n in range(1, L + 1):
            A = mpmath.matrix(n + 1, n + 1)
            # scaled by the size of the terms, so that the tolerance means the same for all entries
            sc = [max(mpf(10) ** -20, m[2 * i][1]) ** mpf('0.5') for i in range(n + 1)]
            for i in range(n + 1):
                for j in range(n + 1):
                    A[i, j] = m[i + j][0] / (sc[i] * sc[j])
            size = max([mpf(1)] + [m[i + j][1] / (sc[i] * sc[j]) for i in range(n + 1) for j in range(n + 1)])
            d = mpmath.det(A)
            if d < -REL * size ** (n + 1) * math.factorial(n + 2):
                raise Violation(f'{fam}: the {"central" if which else "raw"} moments 0..{2 * n} belong to no '
                                f'distribution, their Hankel determinant is {mpmath.nstr(d, 8)}')


def subs(tier):
    q = tier == 'quick'
    i = 0 if q else 1
    N = 24 if q else 250
    order = lambda c: sum(c['n']) >= 2
    ol = lambda c: c['l'] >= 2
    ratio = st.sampled_from([[2, 1], [1, 2], [3, 1], [252, 1], [1, 12], [5, 3]])
    out = []
    for m in SVM:
        g = gen.sv1('j' in m) if fac(m) == 1 else gen.sv2('j' in m)
        top = TOP['mdl_' + m][i]
        t2 = min(top, 4 if fac(m) == 1 else 3) + i
        pairs = [[a, b] for a in range(t2) for b in range(t2) if a + b <= t2]
        fns = st.one_of(
            st.tuples(st.sampled_from(['mom.moment_y', 'cmom.cmoment_y']), st.integers(0, top).map(lambda k: [k])),
            st.tuples(st.sampled_from(['cov.moment_yy', 'cov.cov_yy']), st.sampled_from(pairs)))
        out.append(Sub(f'time-unit-{m}', st.tuples(fns, gen.cases(model=st.just(m), c=ratio, par=g)).map(
            lambda t: dict(t[1], fn=t[0][0], n=t[0][1])), time_unit_sv, N, order, meta={'cost': 5}))
        G = sv.generic(m)
        out.append(Sub(f'joined-{m}', gen.cases(model=st.just(m), n=st.integers(0, t2), par=g), joined, N,
                       lambda c: c['n'] >= 2, meta={'cost': 5},
                       pinned=tuple({'model': m, 'n': k, 'par': G} for k in range(t2 + 1))))
        out.append(Sub(f'covariance-{m}', gen.cases(model=st.just(m), n=st.sampled_from(pairs), par=g), covariance, N,
                       order, meta={'cost': 5}, pinned=tuple({'model': m, 'n': k, 'par': G} for k in pairs)))
    for kind in ('svvj', 'svij', 'svcj'):
        out.append(Sub('time-unit-' + kind, gen.cases(kind=st.just(kind), l=st.integers(0, 4 + i), central=st.booleans(),
                                                      c=ratio, par=gen.cond2(kind)), time_unit_cond2, N, ol,
                       meta={'cost': 4}))
    out.append(Sub('time-unit-svcj-srjd', gen.cases(l=st.integers(0, 3 + i), c=ratio, par=gen.svcj()), time_unit_svcj, N,
                   ol, meta={'cost': 4}))
    for fam in sorted(PAIRS):
        top = TOP[fam][i]
        out.append(Sub('central-' + fam[4:], gen.cases(fam=st.just(fam), l=st.integers(0, top), par=par_of(fam)),
                       binomial, N, ol, meta={'cost': 4}))
        out.append(Sub('inequalities-' + fam[4:], gen.cases(fam=st.just(fam), l=st.sampled_from([2, 4, 6]).filter(
            lambda l, t=top: l <= t), par=par_of(fam)), inequalities, N, lambda c: c['l'] >= 4, meta={'cost': 4}))
        if PAIRS[fam][0].endswith('_y'):
            out.append(Sub('mu-' + fam[4:], gen.cases(fam=st.just(fam), l=st.integers(0, top),
                                                      d=st.sampled_from([[1, 3], [-7, 5], [10, 1]]), par=par_of(fam)),
                           shift_mu, N, ol, meta={'cost': 4}))
    split = st.sampled_from([[1, 2], [1, 3], [7, 10], [1, 97]])
    out.append(Sub('compose-srjd', gen.cases(n=st.integers(0, 6 + 2 * i), split=split, par=gen.srjd()), compose, N,
                   lambda c: c['n'] >= 2))
    out.append(Sub('compose-srjd-path', gen.cases(n=st.integers(0, 4 + i), split=split, par=gen.cond2('srjd', 4)),
                   compose_jumps, N, lambda c: c['n'] >= 2 and len(c['par']['jumptime']) > 0, meta={'cost': 4}))
    return out
