"""Exact moments of the Euler schemes: E[p(v, Y)] is carried backwards over the steps.

One step over dt of a variance v with the noises e, f ~ N(0, 1):
    v' = v + k (theta - v) dt + sigma sqrt(v dt) e
    Y' = Y + (a + b v) dt + sqrt(v dt) (d e + g f)
No truncation at zero: the checks keep v away from it.  Polynomials are dicts
(power of v, power of Y, power of Z) -> float, with Z the sum over an earlier interval.
"""
import math
from functools import lru_cache


def hermite(n):
    """E[N(0,1)^n]"""
    return 0 if n % 2 else math.prod(range(1, n, 2))


def polymul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            r[a + b] = r.get(a + b, 0.0) + x * y
    return r


def polypow(p, n):
    r = {0: 1.0}
    for _ in range(n):
        r = polymul(r, p)
    return r


def step(P, dt, k, theta, sigma, a, b, d, g):
    """E[P(v', Y', Z) | v, Y, Z]; P: dict (i, j, m)"""
    out = {}
    memo = {}

    def one(i, j):
        """E[v'^i Y'^j | v, Y] as dict (power of v, power of Y)"""
        key = (i, j)
        if key in memo:
            return memo[key]
        res = {}
        drift_v = {0: k * theta * dt, 1: 1 - k * dt}
        drift_y = {0: a * dt, 1: b * dt}
        for r in range(i + 1):  # (sigma sqrt(v dt) e)^r
            for y0 in range(j + 1):
                for s in range(j - y0 + 1):  # (d e)^s
                    for u in range(j - y0 - s + 1):  # (g f)^u
                        w = j - y0 - s - u  # drift of Y
                        E = hermite(r + s) * hermite(u)
                        if not E:
                            continue
                        c = (math.comb(i, r) * math.factorial(j) /
                             (math.factorial(y0) * math.factorial(s) * math.factorial(u) * math.factorial(w)))
                        c *= E * sigma ** r * d ** s * g ** u * dt ** ((r + s + u) / 2)
                        if not c:
                            continue
                        p = polymul(polypow(drift_v, i - r), polypow(drift_y, w))
                        for e, x in p.items():
                            kk = (e + (r + s + u) // 2, y0)
                            res[kk] = res.get(kk, 0.0) + c * x
        memo[key] = res
        return res

    for (i, j, m), c in P.items():
        for (e, y0), x in one(i, j).items():
            key = (e, y0, m)
            out[key] = out.get(key, 0.0) + c * x
    return out


def jump(P, z):
    """P(v + z, Y, Z)"""
    out = {}
    for (i, j, m), c in P.items():
        for r in range(i + 1):
            key = (r, j, m)
            out[key] = out.get(key, 0.0) + c * math.comb(i, r) * z ** (i - r)
    return out


def freeze(P):
    """the sum over the present interval becomes the sum of the earlier one, read backwards: at the start of the later
    interval Y = 0, and Z goes on as the running sum"""
    out = {}
    for (i, j, m), c in P.items():
        if j == 0:  # Y starts at zero
            key = (i, m, 0)
            out[key] = out.get(key, 0.0) + c
    return out


def start(P, v0):
    return sum(c * v0 ** i for (i, j, m), c in P.items() if j == 0 and m == 0)


def heston_pair(par, v0, h, n, i, j):
    """E[y1^i y2^j] of two successive intervals of the scheme"""
    dt = h / n
    args = (dt, par['k'], par['theta'], par['sigma_v'], par['mu'], -0.5, par['rho'], math.sqrt(1 - par['rho'] ** 2))
    P = {(0, j, i): 1.0}
    for _ in range(n):
        P = step(P, *args)
    P = freeze(P)
    for _ in range(n):
        P = step(P, *args)
    return start(P, v0)


def compound(par, h, N):
    """raw moments 0..N of a compound Poisson sum of normal jumps"""
    lam, mu, s = par['lambda'] * h, par['mu_j'], par['sigma_j']
    nm = [sum(math.comb(n, r) * mu ** (n - r) * s ** r * hermite(r) for r in range(n + 1)) for n in range(N + 1)]
    m = [1.0]
    for n in range(1, N + 1):
        m.append(lam * sum(math.comb(n - 1, i) * nm[i + 1] * m[n - 1 - i] for i in range(n)))
    return m


# ------------------------------------------------------------ two factors
def step2(P, dt, f1, f2, mu):
    """P: dict (power of v1, power of v2, power of Y, power of Z)"""
    out = {}

    @lru_cache(maxsize=None)
    def var(f, i):
        """E[v'^i | v]"""
        k, theta, sigma = f
        res = {}
        for r in range(0, i + 1, 2):
            c = math.comb(i, r) * hermite(r) * sigma ** r * dt ** (r / 2)
            for e, x in polypow({0: k * theta * dt, 1: 1 - k * dt}, i - r).items():
                res[e + r // 2] = res.get(e + r // 2, 0.0) + c * x
        return tuple(res.items())

    for (i1, i2, j, m), c in P.items():
        for e1, x1 in var(f1, i1):
            for e2, x2 in var(f2, i2):
                base = c * x1 * x2
                # Y' = Y + (mu - (v1 + v2)/2) dt + sqrt((v1 + v2) dt) f
                for y0 in range(j + 1):
                    for u in range(0, j - y0 + 1, 2):
                        w = j - y0 - u
                        cc = math.factorial(j) / (math.factorial(y0) * math.factorial(u) * math.factorial(w))
                        cc *= hermite(u) * dt ** (u / 2)
                        # (v1+v2)^{u/2} (mu dt - (v1+v2) dt/2)^w
                        for q in range(w + 1):
                            s = q + u // 2
                            ccc = cc * math.comb(w, q) * (mu * dt) ** (w - q) * (-dt / 2) ** q
                            for t in range(s + 1):
                                key = (e1 + t, e2 + s - t, y0, m)
                                out[key] = out.get(key, 0.0) + base * ccc * math.comb(s, t)
    return out


def twofactor_pair(par, v0, h, n, i, j):
    dt = h / n
    f1, f2 = ((par[f'k{a}'], par[f'theta{a}'], par[f'sigma_v{a}']) for a in (1, 2))
    P = {(0, 0, j, i): 1.0}
    for _ in range(n):
        P = step2(P, dt, f1, f2, par['mu'])
    Q = {}
    for (a, b, y, m), c in P.items():
        if y == 0:
            Q[(a, b, m, 0)] = Q.get((a, b, m, 0), 0.0) + c
    for _ in range(n):
        Q = step2(Q, dt, f1, f2, par['mu'])
    return sum(c * v0[0] ** a * v0[1] ** b for (a, b, y, m), c in Q.items() if y == 0 and m == 0)


def add_jumps(pair, par, h):
    """pair(i, j) -> the same with independent compound Poisson sums added to both"""
    def f(i, j):
        J = compound(par, h, max(i, j))
        return sum(math.comb(i, a) * math.comb(j, b) * pair(a, b) * J[i - a] * J[j - b]
                   for a in range(i + 1) for b in range(j + 1))
    return f


# ------------------------------------------------------------ along a jump path
def grid(h, n, times):
    """[(start, length, index of the jump at its end or None)] of the Euler grid cut at the jump times"""
    dt = h / n
    out, j = [], 0
    for i in range(n):
        t0, t = i * dt, (i + 1) * dt
        while j < len(times) and times[j] <= t:
            out.append((t0, times[j] - t0, j))
            t0 = times[j]
            j += 1
        if t0 < t:
            out.append((t0, t - t0, None))
    return out


def path_moment(v0, k, theta, sigma, h, sizes, times, n, A, B, C, m):
    """E[(A IE + B I + C I*)^m] of the Euler scheme along the path"""
    P = {(0, m, 0): 1.0}
    for t0, dt, j in reversed(grid(h, n, times)):
        if j is not None:
            P = jump(P, sizes[j])
        P = step(P, dt, k, theta, sigma, 0.0, 0.0, A * math.exp(k * t0) + B, C)
    return start(P, v0)
