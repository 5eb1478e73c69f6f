"""Independent reading of ajdmom's `Poly` objects.

A Poly is a sum over items of  value * prod_i base(keyfor[i]) ** key[i].  The
bases are looked up by their documented *names*, so any change of column
order, of term order or of how a formula is split into terms is invisible
here, while a wrong value is not.
"""
import math
from fractions import Fraction
from itertools import product

import mpmath
from mpmath import mpf

from oracle import M

T0 = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'


class Undecodable(Exception):
    pass


def fz(l, o, p, q, k, J):
    """sum over all index tuples, jumps J = [(time, size)]"""
    if len(l) == 0:
        return mpf(1)
    tot = mpf(0)
    for idx in product(range(len(J)), repeat=len(l)):
        f = mpf(1)
        mx = None
        for i, j in enumerate(idx):
            s, z = J[j]
            f *= z
            if l[i]:
                f *= mpmath.exp(l[i] * k * s)
            if o[i]:
                f *= s ** o[i]
            mx = s if mx is None else max(mx, s)
            if i:
                if p[i - 1]:
                    f *= mpmath.exp(p[i - 1] * k * mx)
                if q[i - 1]:
                    f *= mx ** q[i - 1]
        tot += f
    return tot


class FZ:
    """memoised fz; prefix dynamic programming over (index of running max)"""

    def __init__(self, k, jumps):
        self.k = k
        self.J = sorted(((M(s), M(z)) for s, z in jumps), key=lambda t: t[0])
        self.memo = {}
        self.pre = {}

    def e(self, m, s):
        key = (m, s)
        r = self.pre.get(key)
        if r is None:
            r = self.pre[key] = mpmath.exp(m * self.k * self.J[s][0])
        return r

    def __call__(self, l, o, p, q):
        if not l:
            return mpf(1)
        key = (l, o, p, q)
        r = self.memo.get(key)
        if r is not None:
            return r
        vec = self.vec(l, o, p, q)
        r = sum(vec, mpf(0))
        self.memo[key] = r
        return r

    def vec(self, l, o, p, q):
        """contribution by index of the running maximum"""
        key = ('v', l, o, p, q)
        r = self.memo.get(key)
        if r is not None:
            return r
        n = len(l)
        N = len(self.J)
        w = []
        for j in range(N):
            f = self.J[j][1]
            if l[-1]:
                f = f * self.e(l[-1], j)
            if o[-1]:
                f = f * self.J[j][0] ** o[-1]
            w.append(f)
        if n == 1:
            r = w
        else:
            prev = self.vec(l[:-1], o[:-1], p[:-1], q[:-1])
            r = [mpf(0)] * N
            for a in range(N):
                for b in range(N):
                    m = max(a, b)
                    r[m] += prev[a] * w[b]
            for m in range(N):
                if p[-1]:
                    r[m] = r[m] * self.e(p[-1], m)
                if q[-1]:
                    r[m] = r[m] * self.J[m][0] ** q[-1]
        self.memo[key] = r
        return r


def one_factor_env(par):
    """bases for every scalar column name used by the one-factor modules"""
    g = {n: M(v) for n, v in par.items() if not isinstance(v, (tuple, list))}
    k = g.get('k')
    h = g.get('h')
    env = {}

    def put(names, val):
        for n in names:
            env[n] = val

    if k is not None:
        put(['k^{-}'], 1 / k)
    if h is not None:
        put(['h', 't', '[t-(n-1)h]'], h)
        if k is not None:
            put(['e^{-kh}', 'e^{-kt}'], mpmath.exp(-k * h))
            put(['e^{kt}', 'e^{k[t-(n-1)h]}'], mpmath.exp(k * h))
            put(['beta_t'], (1 - mpmath.exp(-k * h)) / (2 * k))
    if 'offset' in g:  # (n-1)h
        put(['e^{k(n-1)h}'], mpmath.exp(k * g['offset']))
    if 'lb' in g:  # interval (s, t) = (lb, ub)
        put(['e^{ks}'], mpmath.exp(k * g['lb']))
        put(['e^{kt}'], mpmath.exp(k * g['ub']))
        put(['t-s'], g['ub'] - g['lb'])
    for n in ('mu', 'theta', 'rho', 'lambda', 'mu_j', 'sigma_j', 'lmbd', 'mu_v', 'mu_s', 'sigma_s',
              'lmbd_s', 'rho_J', 'rhoJ'):
        if n in g:
            env[n] = g[n]
    sig = g.get('sigma', g.get('sigma_v'))
    if sig is not None:
        put(['sigma', 'sigma_v'], sig)
        if k is not None:
            put(['sigma/2k'], sig / (2 * k))
            put(['sigma_v^2/k'], sig ** 2 / k)
            if 'rho' in g:
                put(['rho-sigma/2k'], g['rho'] - sig / (2 * k))
    if 'sigma' in g:
        put(['sigma^2'], g['sigma'] ** 2)
    if 'sigma_s' in g:
        put(['sigma_s^2'], g['sigma_s'] ** 2)
    if 'rho' in g:
        put(['sqrt(1-rho^2)'], mpmath.sqrt(1 - g['rho'] ** 2))
    if 'v0' in g:
        put(['v_{n-1}', 'v_0', 'v0'], g['v0'])
        if 'theta' in g:
            put(['v0-theta', 'v_0-theta'], g['v0'] - g['theta'])
    if 'mu' in g and 'theta' in g:
        put(['mu-theta/2'], g['mu'] - g['theta'] / 2)
    if 'lmbd' in g and 'mu_v' in g and k is not None and 'theta' in g:
        ev = g['theta'] + g['lmbd'] * g['mu_v'] / k
        put(['E[v]'], ev)
        if 'v0' in g:
            put(['v0-E[v]'], g['v0'] - ev)
    if 'lambda' in g and h is not None:
        put(['lambda*h'], g['lambda'] * h)
    if 'lmbd_s' in g and h is not None:
        put(['lmbd_s*h'], g['lmbd_s'] * h)
    return env


def two_factor_env(par):
    g = {n: M(v) for n, v in par.items() if not isinstance(v, (tuple, list))}
    env = {}
    for n in ('mu', 'theta1', 'theta2', 'sigma_v1', 'sigma_v2', 'lambda', 'mu_j', 'sigma_j', 'k1', 'k2'):
        if n in g:
            env[n] = g[n]
    env['h'] = env['[t-(n-1)h]'] = g['h']
    if 'v1' in g:
        env['v_{1,n-1}'] = g['v1']
        env['v_{2,n-1}'] = g['v2']
    env['__k'] = (g['k1'], g['k2'])
    env['__off'] = g.get('offset', mpf(0))
    return env


class Decoder:
    """decode(poly) -> (value, sum of |terms|, number of terms)"""

    def __init__(self, par, factors=1):
        self.par = par
        self.env = one_factor_env(par) if factors == 1 else two_factor_env(par)
        self.k = M(par['k']) if 'k' in par else None
        self.fz = None
        if 'jumpsize' in par:
            self.jumps = list(zip(par['jumptime'], par['jumpsize']))
            self.fz = FZ(self.k, self.jumps)
        self.pw = {}

    def power(self, name, base, e):
        if e == 0:
            return None
        key = (name, e)
        r = self.pw.get(key)
        if r is None:
            r = self.pw[key] = base ** e
        return r

    def column(self, name):
        """returns (kind, base)"""
        env = self.env
        if name in env:
            return 'pow', env[name]
        if name in (T0, '((n_1m,n_2m,i_m),...,(n_11,n_21,i_1))'):
            return 't0', None
        if name == '(n1*k1+n2*k2)^{-}':
            return 't0one', None
        if name == 'e^{-(n1*k1+n2*k2)h}':
            return 'pairexp', (-1, env['h'])
        if name in ('e^{(j_1*k1+j_2*k2)[t-(n-1)h]}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}'):
            return 'pairexp', (1, env['h'])
        if name == 'e^{(m_4*k1+m_6*k2)(n-1)h}':
            return 'pairexp', (1, env['__off'])
        if name == 'J_{1:n}':
            return 'sizes', None
        raise Undecodable(f'no meaning known for column {name!r}')

    def plan(self, keyfor):
        cols = []
        i = 0
        kf = list(keyfor)
        while i < len(kf):
            if kf[i] == 'l_{1:n}':
                if kf[i + 1:i + 4] == ['o_{1:n}', 'p_{2:n}', 'q_{2:n}']:
                    cols.append(('fz4', i, kf[i], None))
                    i += 4
                    continue
                if kf[i + 1:i + 2] == ['o_{2:n}']:
                    cols.append(('fz2', i, kf[i], None))
                    i += 2
                    continue
                raise Undecodable(f'jump columns {kf[i:]}')
            kind, base = self.column(kf[i])
            cols.append((kind, i, kf[i], base))
            i += 1
        return cols

    def terms(self, poly):
        kf = poly.keyfor
        cols = self.plan(kf)
        nk = len(kf)
        k12 = self.env.get('__k')
        for key, val in poly.items():
            if not isinstance(key, tuple) or len(key) != nk:
                raise Undecodable(f'key {key!r} has {len(key)} components, keyfor has {nk}: {kf}')
            t = M(val)
            for kind, i, name, base in cols:
                e = key[i]
                if kind == 'pow':
                    f = self.power(name, base, e)
                    if f is not None:
                        t = t * f
                elif kind == 'fz4':
                    t = t * self.fz(key[i], key[i + 1], key[i + 2], key[i + 3])
                elif kind == 'fz2':
                    l, o = key[i], key[i + 1]
                    z = (0,) * len(l)
                    t = t * self.fz(l, z, o, z[1:])
                elif kind in ('t0', 't0one'):
                    for n1, n2, ii in ([e] if kind == 't0one' else e):
                        if ii:
                            f = self.power(('t0', n1, n2), n1 * k12[0] + n2 * k12[1], -ii)
                            t = t * f
                elif kind == 'pairexp':
                    sg, tt = base
                    a = sg * (e[0] * k12[0] + e[1] * k12[1]) * tt
                    if a:
                        r = self.pw.get((name, e))
                        if r is None:
                            r = self.pw[(name, e)] = mpmath.exp(a)
                        t = t * r
                elif kind == 'sizes':
                    for (s, z), ei in zip(self.jumps, e):
                        if ei:
                            t = t * M(z) ** ei
            yield key, t

    def __call__(self, poly):
        s = mpf(0)
        a = mpf(0)
        n = 0
        for _, t in self.terms(poly):
            s += t
            a += abs(t)
            n += 1
        return s, a, n


def agree(x, y, scale, rel=mpf(10) ** -28):
    return abs(x - y) <= rel * (abs(scale) + abs(y) + abs(x))
