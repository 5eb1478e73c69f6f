"""Relations between formulas of the package: both sides are derived by the package, and evaluated exactly."""
import math

from mpmath import mpf

from formula import FLOOR, decoded, derive
from harness import Violation, call, load
from oracle import M

REL = mpf(10) ** -25


def value(name, orders, par, factors=1, index=None, extra=()):
    """(value, sum of |terms|) of the formula name(*orders, *extra) at par; index picks from a list of formulas"""
    mod, fn = name.rsplit('.', 1)
    p = derive(mod, fn, *orders, *extra)
    what = f'{name}{tuple(orders)}'
    if index is not None:
        if len(p) <= index:
            raise Violation(f'{what} returns {len(p)} formulas')
        p = p[index]
    v, s, _ = decoded(what, p, par, factors)
    return v, s


def cond2(kind, central, l, par):
    """a return moment given the variance jumps, of svvj, svij or svcj"""
    mod = f'mdl_{kind}.cond2_' + ('cmom' if central else 'mom')
    fn = 'cmoment_y' if central else 'moment_y'
    return value(f'{mod}.{fn}', (l,), par, extra=(tuple(par['jumpsize']),) if kind == 'svcj' else ())


def equal(what, a, b):
    (x, s), (y, t) = a, b
    if not abs(x - y) <= REL * (s + t) + FLOOR:
        raise Violation(f'{what}: {float(x)!r} on one side, {float(y)!r} on the other')


def total(parts):
    """sum of coefficient * (value, scale)"""
    v = s = mpf(0)
    for c, (x, t) in parts:
        v += c * x
        s += abs(c) * t
    return v, s


def central(raws):
    """central moment of the last order from (value, scale) of the raw ones; scale is the sum of |parts|"""
    n = len(raws) - 1
    m, ms = raws[1] if n else (mpf(0), mpf(0))
    b = abs(m) + ms  # a bound of the size of the mean's terms
    v = s = mpf(0)
    for i, (x, t) in enumerate(raws):
        v += math.comb(n, i) * (-m) ** (n - i) * x
        s += math.comb(n, i) * b ** (n - i) * t
    return v, s


def polynomial(f, n):
    """coefficients of the polynomial of degree <= n through f(0), ..., f(n): [(coefficient, scale)]"""
    import mpmath
    vals = [f(mpf(j) / 2) for j in range(n + 1)]
    A = mpmath.matrix(n + 1, n + 1)
    for j in range(n + 1):
        for i in range(n + 1):
            A[j, i] = (mpf(j) / 2) ** i
    inv = A ** -1
    out = []
    for i in range(n + 1):
        out.append((sum(inv[i, j] * vals[j][0] for j in range(n + 1)),
                    sum(abs(inv[i, j]) * vals[j][1] for j in range(n + 1))))
    return out


def product(a, b):
    return a[0] * b[0], (abs(a[0]) + a[1]) * (abs(b[0]) + b[1])
