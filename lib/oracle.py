"""Reference model: moments of polynomial (affine jump) processes.

Nothing here is derived from the recursions in ajdmom.  A process is given by
its drift, its instantaneous covariance and its jumps; the extended generator
L maps monomials to polynomials of no larger (weighted) degree, so

    E[p(X_t) | X_0 = x] = (exp(tL) p)(x)

is a finite dimensional linear problem that is solved by a Taylor series in
multi-precision arithmetic.
"""
import math

import mpmath
from mpmath import mp, mpf

mp.dps = 60
EPS = mpf(10) ** (-66)


def M(x):
    """exact conversion of int/float/Fraction/str/mpf to mpf"""
    if isinstance(x, mpf):
        return x
    if hasattr(x, 'numerator') and hasattr(x, 'denominator') and not isinstance(x, float):
        return mpf(int(x.numerator)) / mpf(int(x.denominator))
    return mpf(x)


# ---------------------------------------------------------------- polynomials
# dict: exponent tuple -> mpf

def padd(p, e, c):
    if c:
        p[e] = p.get(e, 0) + c


def peval(p, x):
    s = mpf(0)
    for e, c in p.items():
        t = c
        for xi, ei in zip(x, e):
            if ei:
                t = t * xi ** ei
        s += t
    return s


def pmul(p, q):
    r = {}
    for e, c in p.items():
        for f, d in q.items():
            padd(r, tuple(a + b for a, b in zip(e, f)), c * d)
    return r


def mono(n, *idx):
    e = [0] * n
    for i in idx:
        e[i] += 1
    return tuple(e)


class Process:
    """n state variables.

    drift: list of n polynomials; cov: dict (i, j) i<=j -> polynomial
    (instantaneous covariance rate); jumps: list of (rate, moments) where
    moments(alpha) = E[J^alpha] for a multi-index alpha.
    """

    def __init__(self, n, drift, cov, jumps=()):
        self.n = n
        self.drift = drift
        self.cov = cov
        self.jumps = [(r, m) for r, m in jumps if r != 0]
        self._L = {}

    def gen(self, e):
        """L x^e"""
        if e in self._L:
            return self._L[e]
        n = self.n
        out = {}
        for i in range(n):
            if e[i]:
                base = list(e)
                base[i] -= 1
                for f, c in self.drift[i].items():
                    padd(out, tuple(a + b for a, b in zip(base, f)), e[i] * c)
        for (i, j), poly in self.cov.items():
            if i == j:
                if e[i] < 2:
                    continue
                coef = mpf(e[i] * (e[i] - 1)) / 2
            else:
                if not (e[i] and e[j]):
                    continue
                coef = mpf(e[i] * e[j])
            base = list(e)
            base[i] -= 1
            base[j] -= 1
            for f, c in poly.items():
                padd(out, tuple(a + b for a, b in zip(base, f)), coef * c)
        for rate, mom in self.jumps:
            for alpha in multi(e):
                if any(alpha):
                    c = 1
                    for a, b in zip(e, alpha):
                        c *= math.comb(a, b)
                    m = mom(alpha)
                    if m:
                        padd(out, tuple(a - b for a, b in zip(e, alpha)), rate * c * m)
        self._L[e] = out
        return out

    def L(self, p):
        out = {}
        for e, c in p.items():
            for f, d in self.gen(e).items():
                padd(out, f, c * d)
        return out

    def flow(self, p, t):
        """polynomial x -> E[p(X_t) | X_0 = x] (Taylor series of exp(tL) p)"""
        t = M(t)
        if t == 0:
            return dict(p)
        # the terms of the series grow like exp(rate t) before they decay: carry that
        # many digits more, so that the sum keeps the working precision
        todo, seen, rate = list(p), set(p), mpf(0)
        while todo:
            e = todo.pop()
            g = self.gen(e)
            rate = max(rate, sum((abs(c) for f, c in g.items() if f == e), mpf(0)))
            for f in g:
                if f not in seen:
                    seen.add(f)
                    todo.append(f)
        with mpmath.workdps(mpmath.mp.dps + int(rate * abs(t) * 0.9) + 5):
            return self._series(p, t)

    def _series(self, p, t):
        out = dict(p)
        cur = dict(p)
        k = 0
        small = 0
        while True:
            k += 1
            nxt = self.L(cur)
            cur = {e: c * t / k for e, c in nxt.items() if c}
            if not cur:
                break
            for e, c in cur.items():
                out[e] = out.get(e, 0) + c
            mx = max(abs(c) for c in cur.values())
            ref = max([abs(c) for c in out.values()] + [mpf(10) ** -40])
            if mx < EPS * ref:
                small += 1
                if small >= 3:
                    break
            else:
                small = 0
            if k > 4000:
                raise RuntimeError('oracle: Taylor series did not converge')
        return out


def multi(e):
    if not e:
        yield ()
        return
    for a in range(e[0] + 1):
        for r in multi(e[1:]):
            yield (a,) + r


def normal_moment(n, mu, var):
    """E[N(mu, var)^n] by Stein's recursion"""
    a, b = mpf(1), M(mu)
    if n == 0:
        return a
    for i in range(1, n):
        a, b = b, mu * b + i * var * a
    return b


def shift(p, i, amount):
    """p(x + amount e_i)"""
    out = {}
    for e, c in p.items():
        for a in range(e[i] + 1):
            f = list(e)
            f[i] = e[i] - a
            padd(out, tuple(f), c * math.comb(e[i], a) * amount ** a)
    return out


def normal_shift(p, i, mu, var):
    """E p(x + N(mu,var) e_i)"""
    out = {}
    for e, c in p.items():
        for a in range(e[i] + 1):
            f = list(e)
            f[i] = e[i] - a
            padd(out, tuple(f), c * math.comb(e[i], a) * normal_moment(a, mu, var))
    return out


def central_from_raw(raw):
    """raw = [1, m1, m2, ...] -> central moments of the same length"""
    m = raw[1] if len(raw) > 1 else mpf(0)
    out = []
    for n in range(len(raw)):
        out.append(sum((mpf(math.comb(n, i)) * (-m) ** (n - i) * raw[i] for i in range(n + 1)), mpf(0)))
    return out


# ------------------------------------------------------------- variance (CIR + exponential jumps)

def stationary_v(N, k, theta, sigma, lmbd=0, mu_v=0):
    """E[v^n], n = 0..N under the stationary law of
    dv = k(theta - v)dt + sigma sqrt(v) dw + dz, z compound Poisson(lmbd), Exp(mean mu_v)"""
    k, theta, sigma, lmbd, mu_v = map(M, (k, theta, sigma, lmbd, mu_v))
    m = [mpf(1)]
    for n in range(1, N + 1):
        s = (n * k * theta + mpf(n * (n - 1)) / 2 * sigma ** 2) * m[n - 1]
        for i in range(1, n + 1):
            s += lmbd * math.comb(n, i) * mpf(math.factorial(i)) * mu_v ** i * m[n - i]
        m.append(s / (n * k))
    return m


def integrate_out(p, i, moms):
    """replace x_i^a by moms[a] (x_i independent of the rest)"""
    out = {}
    for e, c in p.items():
        f = list(e)
        f[i] = 0
        padd(out, tuple(f), c * moms[e[i]])
    return out


def exp_jump(mu_v):
    return lambda i: mpf(math.factorial(i)) * M(mu_v) ** i


# ---- processes -------------------------------------------------------------

def heston(par, with_jump=False):
    """state (v, y): 1FSV / 1FSVJ"""
    k, th, s, rho, mu = (M(par[x]) for x in ('k', 'theta', 'sigma_v', 'rho', 'mu'))
    drift = [{(0, 0): k * th, (1, 0): -k}, {(0, 0): mu, (1, 0): mpf(-1) / 2}]
    cov = {(0, 0): {(1, 0): s * s}, (1, 1): {(1, 0): mpf(1)}, (0, 1): {(1, 0): rho * s}}
    jumps = []
    if with_jump:
        lm, mj, sj = (M(par[x]) for x in ('lambda', 'mu_j', 'sigma_j'))
        jumps = [(lm, lambda a: mpf(0) if a[0] else normal_moment(a[1], mj, sj * sj))]
    return Process(2, drift, cov, jumps)


def twofactor(par, with_jump=False):
    """state (v1, v2, y)"""
    k1, t1, s1, k2, t2, s2, mu = (M(par[x]) for x in
                                  ('k1', 'theta1', 'sigma_v1', 'k2', 'theta2', 'sigma_v2', 'mu'))
    drift = [{(0, 0, 0): k1 * t1, (1, 0, 0): -k1}, {(0, 0, 0): k2 * t2, (0, 1, 0): -k2},
             {(0, 0, 0): mu, (1, 0, 0): mpf(-1) / 2, (0, 1, 0): mpf(-1) / 2}]
    cov = {(0, 0): {(1, 0, 0): s1 * s1}, (1, 1): {(0, 1, 0): s2 * s2},
           (2, 2): {(1, 0, 0): mpf(1), (0, 1, 0): mpf(1)}}
    jumps = []
    if with_jump:
        lm, mj, sj = (M(par[x]) for x in ('lambda', 'mu_j', 'sigma_j'))
        jumps = [(lm, lambda a: mpf(0) if a[0] or a[1] else normal_moment(a[2], mj, sj * sj))]
    return Process(3, drift, cov, jumps)


def sv_moments(par, N, factors=1, jump=False):
    """[E y^0, ..., E y^N] under stationarity"""
    if factors == 1:
        P = heston(par, jump)
        st = [stationary_v(N, par['k'], par['theta'], par['sigma_v'])]
    else:
        P = twofactor(par, jump)
        st = [stationary_v(N, par['k1'], par['theta1'], par['sigma_v1']),
              stationary_v(N, par['k2'], par['theta2'], par['sigma_v2'])]
    out = []
    for n in range(N + 1):
        e = (0,) * factors + (n,)
        q = P.flow({e: mpf(1)}, par['h'])
        for i in range(factors):
            q = integrate_out(q, i, st[i])
        out.append(q.get((0,) * (factors + 1), mpf(0)))
    return out


def sv_comoment(par, l1, l2, factors=1, jump=False):
    """E[y_n^l1 y_{n+1}^l2] under stationarity"""
    if factors == 1:
        P = heston(par, jump)
        st = [stationary_v(l1 + l2, par['k'], par['theta'], par['sigma_v'])]
    else:
        P = twofactor(par, jump)
        st = [stationary_v(l1 + l2, par['k1'], par['theta1'], par['sigma_v1']),
              stationary_v(l1 + l2, par['k2'], par['theta2'], par['sigma_v2'])]
    z = (0,) * factors
    inner = P.flow({z + (l2,): mpf(1)}, par['h'])
    # y restarts at zero: keep the terms without y, multiply by y_n^l1
    q = {e[:factors] + (l1,): c for e, c in inner.items() if e[factors] == 0}
    q = P.flow(q, par['h'])
    for i in range(factors):
        q = integrate_out(q, i, st[i])
    return q.get((0,) * (factors + 1), mpf(0))


# ---- conditional on the variance jump path ------------------------------------

def along_jumps(P, p, h, jumps, on_jump):
    """backward evolution of p from h to 0; on_jump(p, i, J) applies the jump"""
    order = sorted(range(len(jumps)), key=lambda i: jumps[i][0])
    t = M(h)
    for i in reversed(order):
        s = M(jumps[i][0])
        p = P.flow(p, t - s)
        p = on_jump(p, i, M(jumps[i][1]))
        t = s
    return P.flow(p, t)


def svvj_process(par):
    """(v, y) without jumps; parameter names of the mdl_svvj family"""
    return heston({'k': par['k'], 'theta': par['theta'], 'sigma_v': par['sigma'],
                   'rho': par['rho'], 'mu': par['mu']})


def cond2_moments(par, N, kind):
    """E[y_h^n | v0, variance jumps], kind in svvj, svij, svcj"""
    pp = dict(par)
    pp.setdefault('mu', 0)
    P = svvj_process(pp)
    if kind == 'svij':
        lm, mj, sj = (M(pp[x]) for x in ('lmbd_s', 'mu_s', 'sigma_s'))
        P.jumps = [(lm, lambda a: mpf(0) if a[0] else normal_moment(a[1], mj, sj * sj))] if lm else []
    jumps = list(zip(pp['jumptime'], pp['jumpsize']))

    def on_jump(p, i, J):
        p = shift(p, 0, J)
        if kind == 'svcj':
            p = normal_shift(p, 1, M(pp['mu_s']) + M(pp['rho_J']) * J, M(pp['sigma_s']) ** 2)
        return p

    v0 = M(pp['v0'])
    out = []
    for n in range(N + 1):
        q = along_jumps(P, {(0, n): mpf(1)}, pp['h'], jumps, on_jump)
        out.append(peval(q, (v0, mpf(0))))
    return out


def srjd_cond2_moments(par, N):
    k, th, s = (M(par[x]) for x in ('k', 'theta', 'sigma'))
    P = Process(1, [{(0,): k * th, (1,): -k}], {(0, 0): {(1,): s * s}})
    jumps = list(zip(par['jumptime'], par['jumpsize']))
    out = []
    for n in range(N + 1):
        q = along_jumps(P, {(n,): mpf(1)}, par['h'], jumps, lambda p, i, J: shift(p, 0, J))
        out.append(peval(q, (M(par['v0']),)))
    return out


# ---- SRJD --------------------------------------------------------------------

def srjd_process(par):
    k, th, s, lm, mv = (M(par[x]) for x in ('k', 'theta', 'sigma', 'lmbd', 'mu_v'))
    ej = exp_jump(mv)
    return Process(1, [{(0,): k * th, (1,): -k}], {(0, 0): {(1,): s * s}}, [(lm, lambda a: ej(a[0]))])


def srjd_cond_moments(par, N):
    P = srjd_process(par)
    v0 = M(par['v0'])
    return [peval(P.flow({(n,): mpf(1)}, par['h']), (v0,)) for n in range(N + 1)]


# ---- SVCJ, unconditional on the jumps --------------------------------------------

def svcj_process(par):
    """(v, y) with contemporaneous jumps"""
    pp = dict(par)
    P = svvj_process(pp)
    lm, mv, rJ, ms, ss = (M(pp[x]) for x in ('lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s'))
    ej = exp_jump(mv)

    def mom(a):
        # E[Jv^a0 (mu_s + rhoJ Jv + sigma_s N)^a1]
        s = mpf(0)
        for i in range(a[1] + 1):
            s += math.comb(a[1], i) * rJ ** i * ej(a[0] + i) * normal_moment(a[1] - i, ms, ss * ss)
        return s

    P.jumps = [(lm, mom)] if lm else []
    P._L = {}
    return P


def svcj_moments(par, N, v0=None):
    """E[y^n | v0] or, with v0 None, the unconditional moments"""
    P = svcj_process(par)
    st = None
    if v0 is None:
        st = stationary_v(N, par['k'], par['theta'], par['sigma'], par['lmbd'], par['mu_v'])
    out = []
    for n in range(N + 1):
        q = P.flow({(0, n): mpf(1)}, par['h'])
        if st is not None:
            q = integrate_out(q, 0, st)
            out.append(q.get((0, 0), mpf(0)))
        else:
            out.append(peval(q, (M(v0), mpf(0))))
    return out


# ---- Ito process moments ------------------------------------------------------------

def ieii_process(k, theta, sigma):
    """(v, X, I, I*) with X_t = e^{-kt} IE_t"""
    k, th, s = map(M, (k, theta, sigma))
    V = {(1, 0, 0, 0): mpf(1)}
    sc = lambda c: {(1, 0, 0, 0): c}
    drift = [{(0, 0, 0, 0): k * th, (1, 0, 0, 0): -k}, {(0, 1, 0, 0): -k}, {}, {}]
    cov = {(0, 0): sc(s * s), (0, 1): sc(s), (0, 2): sc(s), (1, 1): V, (1, 2): V, (2, 2): V, (3, 3): V}
    return Process(4, drift, cov)


def moment_ieii(n3, n4, n5, tau, v0, k, theta, sigma, jumps=()):
    """E[IE^n3 I^n4 I*^n5 | v0 (, jumps)] over [0, tau]"""
    P = ieii_process(k, theta, sigma)
    q = along_jumps(P, {(0, n3, n4, n5): mpf(1)}, tau, jumps, lambda p, i, J: shift(p, 0, J))
    return mpmath.exp(n3 * M(k) * M(tau)) * peval(q, (M(v0), 0, 0, 0))


def ieii2_process(k1, th1, s1, k2, th2, s2):
    """(v1, v2, X1, I1, X2, I2, I*): two factor version; I* driven by sqrt(v1+v2)"""
    k1, th1, s1, k2, th2, s2 = map(M, (k1, th1, s1, k2, th2, s2))
    n = 7
    z = (0,) * n
    v1 = mono(n, 0)
    v2 = mono(n, 1)
    drift = [{z: k1 * th1, v1: -k1}, {z: k2 * th2, v2: -k2}, {mono(n, 2): -k1}, {}, {mono(n, 4): -k2}, {}, {}]
    one = mpf(1)
    cov = {(0, 0): {v1: s1 * s1}, (0, 2): {v1: s1}, (0, 3): {v1: s1}, (2, 2): {v1: one}, (2, 3): {v1: one},
           (3, 3): {v1: one},
           (1, 1): {v2: s2 * s2}, (1, 4): {v2: s2}, (1, 5): {v2: s2}, (4, 4): {v2: one}, (4, 5): {v2: one},
           (5, 5): {v2: one},
           (6, 6): {v1: one, v2: one}}
    return Process(n, drift, cov)


def moment_ieii2(n4, n5, n6, n7, n8, tau, v1, v2, k1, th1, s1, k2, th2, s2):
    """E[IE1^n4 I1^n5 IE2^n6 I2^n7 I*^n8 | v1, v2] over [0, tau]"""
    P = ieii2_process(k1, th1, s1, k2, th2, s2)
    q = P.flow({(0, 0, n4, n5, n6, n7, n8): mpf(1)}, tau)
    return mpmath.exp((n4 * M(k1) + n6 * M(k2)) * M(tau)) * peval(q, (M(v1), M(v2), 0, 0, 0, 0, 0))


def joint_process(k, theta, sigma, lmbd, mu_v, mu_s, sigma_s):
    """(v, X, I, I*, Z, IZ, IZ*): X = e^{-kt}IE, Z = e^{-kt}IEZ"""
    k, th, s, lm, mv, ms, ss = map(M, (k, theta, sigma, lmbd, mu_v, mu_s, sigma_s))
    n = 7
    z = (0,) * n
    v = mono(n, 0)
    one = mpf(1)
    drift = [{z: k * th, v: -k}, {mono(n, 1): -k}, {}, {}, {mono(n, 4): -k}, {}, {}]
    cov = {(0, 0): {v: s * s}, (0, 1): {v: s}, (0, 2): {v: s}, (1, 1): {v: one}, (1, 2): {v: one},
           (2, 2): {v: one}, (3, 3): {v: one}}
    ej = exp_jump(mv)

    def mom(a):
        if a[1] or a[2] or a[3]:
            return mpf(0)
        return ej(a[0] + a[4] + a[5]) * normal_moment(a[6], ms, ss * ss)

    return Process(n, drift, cov, [(lm, mom)])


def moment_joint(n1, n2, n3, n4, n5, n6, tau, v0, k, theta, sigma, lmbd, mu_v, mu_s=0, sigma_s=0):
    """E[IE^n1 I^n2 I*^n3 IEZ^n4 IZ^n5 IZ*^n6 | v0] over [0, tau]"""
    P = joint_process(k, theta, sigma, lmbd, mu_v, mu_s, sigma_s)
    q = P.flow({(0, n1, n2, n3, n4, n5, n6): mpf(1)}, tau)
    return mpmath.exp((n1 + n4) * M(k) * M(tau)) * peval(q, (M(v0), 0, 0, 0, 0, 0, 0))
