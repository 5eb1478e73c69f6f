"""The documented integrals and moments that the formulas are built from."""
import math
from fractions import Fraction as F

import mpmath
from hypothesis import strategies as st
from mpmath import mpf

from gen import dec, mix
from harness import Sub, Violation, call, ensure, load
from oracle import M

PROPERTY = 'P37'
RULE = ('random exponents and powers (also negative exponents and powers beyond those the derivations of the tests meet), '
        'speeds, interval ends and jumps: the returned polynomial is evaluated by the documented names of its columns and '
        'compared with the integral, or moment, itself in 60-digit arithmetic; non-trivial: power of time, or order, of at '
        'least 2')
ASSUMPTIONS = ['trusts the closed form of the integral of s^m e^{as} in this check (a sum of positive terms is not needed: '
               '60 digits cover the cancellation, and the value is cross-checked by a power series)']

ITO1 = ('e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'k^{-}')
FZ = ('e^{kt}', 't', 'k^{-}', 'e^{k(s_i1 v...v s_in)}', '(s_i1 v...v s_in)')


def integral(a, m, lo, hi):
    """int_lo^hi e^{as} s^m ds by its power series in a, with the digits that the alternation of signs may cost"""
    with mpmath.workdps(mpmath.mp.dps + int(abs(a) * hi) + 10):
        tot = series(a, m, lo, hi)
    return +tot


def series(a, m, lo, hi):
    tot, term, j = mpf(0), mpf(1), 0
    while True:
        add = term * (hi ** (m + j + 1) - lo ** (m + j + 1)) / (m + j + 1)
        tot += add
        j += 1
        term = term * a / j
        if j > abs(a) * hi + 5 and abs(term) * max(hi, 1) ** (m + j + 1) < mpf(10) ** -60 * (abs(tot) + mpf(10) ** -40):
            return tot


def value(what, p, cols, base):
    ensure(isinstance(p, load('poly').Poly), f'{what} returns a {type(p).__name__}')
    ensure(tuple(p.keyfor) == tuple(cols), f'{what}: keyfor is {p.keyfor}, documented {cols}')
    tot, scale = mpf(0), mpf(0)
    for key, v in p.items():
        ensure(isinstance(key, tuple) and len(key) == len(cols), f'{what}: key {key} does not match {cols}')
        x = base(key) * M(F(v))
        tot += x
        scale += abs(x)
    return tot, scale


def compare(what, got, want):
    v, s = got
    ensure(abs(v - want) <= mpf(10) ** -30 * (s + abs(want)) + mpf(10) ** -45,
           lambda: f'{what}: formula gives {mpmath.nstr(v, 15)}, the integral is {mpmath.nstr(want, 15)}')


def one_body(c):
    f = getattr(load('ito_mom'), 'int_et', None)
    if f is None:
        return
    n, m, k, t = c['n'], c['m'], M(c['k']), M(c['t'])
    p = call(f'ito_mom.int_et({n}, {m})', f, n, m)
    compare(f'ito_mom.int_et({n}, {m})', value(f'ito_mom.int_et({n}, {m})', p, ITO1,
            lambda q: mpmath.exp(q[0] * k * t) * t ** q[1] * k ** -q[2]), integral(n * k, m, mpf(0), t))


def two_body(c):
    f = getattr(load('itos_mom'), 'int_et', None)
    if f is None:
        return
    a, b, m, k1, k2, t = c['n1'], c['n2'], c['m'], M(c['k1']), M(c['k2']), M(c['t'])
    if (a or b) and abs(a * k1 + b * k2) < mpf(10) ** -9:
        return  # documented for n1 k1 + n2 k2 != 0 only
    what = f'itos_mom.int_et({a}, {b}, {m})'
    p = call(what, f, a, b, m)

    def base(q):
        x = mpf(1)
        t0 = q[0]
        parts = t0 if t0 and isinstance(t0[0], tuple) else (t0,) if t0 else ()
        for n1, n2, i in parts:
            if i:
                x *= (n1 * k1 + n2 * k2) ** -i
        return x * mpmath.exp((q[1][0] * k1 + q[1][1] * k2) * t) * t ** q[2]
    cols = ('(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]')
    compare(what, value(what, p, cols, base), integral(a * k1 + b * k2, m, mpf(0), t))


def jumps_body(c):
    f = getattr(load('ito_cond_mom'), 'int_et_fZ', None)
    if f is None:
        return
    n, m, N, k, t, s = c['n'], c['m'], c['N'], M(c['k']), M(c['t']), M(c['s'])
    s = s * t
    what = f'ito_cond_mom.int_et_fZ({n}, {m}, {N})'
    p = call(what, f, n, m, N)
    got = value(what, p, FZ, lambda q: mpmath.exp(q[0] * k * t) * t ** q[1] * k ** -q[2] * mpmath.exp(q[3] * k * s) * s ** q[4])
    compare(what, got, integral(n * k, m, s if N else mpf(0), t))


def gauss(i):
    return 0 if i % 2 else math.prod(range(1, i, 2))


def normal_moment(n, mu, var):
    return sum(math.comb(n, i) * mu ** (n - i) * gauss(i) * var ** (i // 2) for i in range(0, n + 1, 2))


def sums_body(c):
    """moments of the sum of the price jumps given the variance jumps"""
    J, n = tuple(c['J']), c['n']
    mu, r, s = F(c['mu_s']).limit_denominator(1000), F(c['rho_J']).limit_denominator(1000), F(c['sigma_s']).limit_denominator(1000)
    JF = [F(x).limit_denominator(1000) for x in J]
    mean = sum(mu + r * z for z in JF)
    var = s * s * len(J)
    f = getattr(load('mdl_svcj.cond2_mom'), 'moment_IZs', None)
    if f is not None:
        what = f'moment_IZs({n}, {J})'
        p = call(what, f, n, J)
        ensure(tuple(p.keyfor) == ('mu_s', 'rho_J', 'sigma_s', 'J_{1:n}'), f'{what}: keyfor is {p.keyfor}')
        got = F(0)
        for q, v in p.items():
            x = F(v) * mu ** q[0] * r ** q[1] * s ** q[2]
            ensure(len(q[3]) in (0, len(J)), f'{what}: key {q} for {len(J)} jumps')
            for z, e in zip(JF, q[3]):
                x *= z ** e
            got += x
        ensure(got == normal_moment(n, mean, var), f'{what}: formula gives {float(got)}, should be {float(normal_moment(n, mean, var))}')
    f = getattr(load('mdl_svcj.cond2_cmom'), 'cmoment_IZs', None)
    if f is not None:
        what = f'cmoment_IZs({n}, {J})'
        p = call(what, f, n, J)
        ensure(tuple(p.keyfor) == ('sigma_s',), f'{what}: keyfor is {p.keyfor}')
        got = sum((F(v) * s ** q[0] for q, v in p.items()), F(0))
        ensure(got == normal_moment(n, F(0), var), f'{what}: formula gives {float(got)}, should be {float(normal_moment(n, F(0), var))}')


def rates_body(c):
    """t_mul_t0: the product of 1/(n1 k1 + n2 k2)^i and a product of such quants"""
    f = getattr(load('itos_mom'), 't_mul_t0', None)
    if f is None:
        return
    k1, k2 = M(c['k1']), M(c['k2'])
    t, t0 = tuple(c['t']), tuple(tuple(x) for x in c['t0'])
    if any((a or b) and abs(a * k1 + b * k2) < mpf(10) ** -9 for a, b, i in (t,) + t0):
        return  # documented for n1 k1 + n2 k2 != 0 only

    def val(t0):
        x = mpf(1)
        for n1, n2, i in t0:
            if i:
                x *= (n1 * k1 + n2 * k2) ** -i
        return x
    what = f't_mul_t0({t}, {t0})'
    r = call(what, f, t, t0)
    ensure(isinstance(r, tuple) and all(isinstance(x, tuple) and len(x) == 3 for x in r), lambda: f'{what} = {r!r} is not a '
           'tuple of triples')
    got, want = val(r), val([t]) * val(t0)
    ensure(abs(got - want) <= mpf(10) ** -40 * abs(want), lambda: f'{what} = {r}, which is {mpmath.nstr(got, 15)} at '
           f'k1 = {c["k1"]}, k2 = {c["k2"]} and not {mpmath.nstr(want, 15)}')


@st.composite
def rates(draw):
    pair = st.tuples(st.integers(-3, 3), st.integers(-3, 3)).filter(any)
    ps = draw(st.lists(pair, max_size=4, unique=True))
    t0 = [[a, b, draw(st.integers(1, 4))] for a, b in ps] or [[0, 0, 0]]
    a, b = draw(st.one_of(pair, st.sampled_from(ps), st.sampled_from(ps).map(lambda p: (-p[0], -p[1])),
                          st.sampled_from(ps).map(lambda p: (2 * p[0], 2 * p[1])),
                          st.sampled_from(ps).map(lambda p: (p[1], p[0])))) if ps else draw(pair)
    return {'t': [a, b, draw(st.integers(0, 4))], 't0': t0, 'k1': draw(dec(0.25, 1.5)),
            'k2': draw(dec(0.25, 1.5).map(lambda x: round(x * 0.618034, 6)))}


@st.composite
def one(draw):
    n = draw(st.integers(-8, 14))
    return {'n': n, 'm': draw(st.integers(0, 14)), 'k': draw(mix(dec(0.05, 3.0), 1, 12.5)), 't': draw(mix(dec(0.02, 2.5), 0, 1, 0.004))}


@st.composite
def two(draw):
    return {'n1': draw(st.integers(-6, 8)), 'n2': draw(st.integers(-6, 8)), 'm': draw(st.integers(0, 12)),
            'k1': draw(dec(0.25, 1.5)), 'k2': draw(dec(0.25, 1.5).map(lambda x: round(x * 0.618034, 6))),
            't': draw(mix(dec(0.02, 2.5), 1))}


@st.composite
def with_jumps(draw):
    return {'n': draw(st.integers(-8, 14)), 'm': draw(st.integers(0, 14)), 'N': draw(st.integers(0, 4)),
            'k': draw(mix(dec(0.05, 3.0), 1)), 't': draw(mix(dec(0.02, 2.5), 1)), 's': draw(mix(dec(0.0, 1.0), 0, 1))}


@st.composite
def sums(draw):
    J = draw(st.lists(mix(dec(0.02, 0.9), 1), max_size=5))
    n = draw(st.integers(0, 8))
    while math.comb(n + len(J), n) > 200:
        n -= 1
    return {'J': J, 'n': n, 'mu_s': draw(mix(dec(-0.5, 0.5), 0.0, 1)), 'rho_J': draw(mix(dec(-0.8, 0.8), 0.0)),
            'sigma_s': draw(mix(dec(0.05, 0.6), 0.0, 1))}


def subs(tier):
    N = 400 if tier == 'quick' else 20000
    hi = lambda c: c['m'] >= 2
    grid1 = tuple({'n': n, 'm': m, 'k': 0.613, 't': 1.3} for n in range(-3, 7) for m in range(7))
    grid2 = tuple({'n1': a, 'n2': b, 'm': m, 'k1': 0.613, 'k2': 0.377, 't': 1.3} for a in range(-2, 4) for b in range(-2, 4)
                  for m in range(4) if (a * 0.613 + b * 0.377) or not (a or b))
    grid3 = tuple({'n': n, 'm': m, 'N': J, 'k': 0.613, 't': 1.3, 's': 0.4} for n in range(-2, 5) for m in range(5) for J in (0, 1, 3))
    grid4 = tuple({'J': [0.15, 0.4, 0.25, 0.3][:j], 'n': n, 'mu_s': -0.119, 'rho_J': 0.37, 'sigma_s': 0.233}
                  for j in range(5) for n in range(7))
    grid5 = tuple({'t': [a, b, i], 't0': t0, 'k1': 0.613, 'k2': 0.377} for a, b in ((1, 0), (0, 1), (1, 1), (-1, 0), (1, -1), (2, 1))
                  for i in range(4) for t0 in ([[0, 0, 0]], [[1, 0, 1]], [[1, 0, 2]], [[-1, 0, 2], [0, 1, 1]],
                                               [[2, 1, 1], [1, 1, 3]], [[1, -1, 1], [-1, 1, 2]], [[2, 0, 1], [1, 2, 1], [0, 1, 2]]))
    return [Sub('one-factor', one(), one_body, N, hi, pinned=grid1), Sub('two-factor', two(), two_body, N, hi, pinned=grid2),
            Sub('given-jumps', with_jumps(), jumps_body, N, hi, pinned=grid3),
            Sub('rates', rates(), rates_body, N, lambda c: len(c['t0']) >= 2, pinned=grid5),
            Sub('price-jumps', sums(), sums_body, N, lambda c: c['n'] >= 2 and c['J'], pinned=grid4)]
