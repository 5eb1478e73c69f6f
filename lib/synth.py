"""Synthetic polynomials: JSON-able case <-> Poly <-> plain dict model."""
from fractions import Fraction as F

from hypothesis import strategies as st

from harness import load


def num(lo=-6, hi=6):
    """[numerator, denominator]"""
    return st.one_of(
        st.tuples(st.integers(lo, hi), st.sampled_from([1, 1, 1, 2, 3, 4, 6])),
        st.tuples(st.integers(-10 ** 12, 10 ** 12), st.integers(1, 10 ** 6)),
        st.tuples(st.integers(-10 ** 40, 10 ** 40), st.sampled_from([1, 2 ** 70 + 1, 3 ** 50]))).map(list)


def val(nd):
    n, d = nd
    return n if d == 1 and n % 2 else F(n, d)  # ints and Fractions both occur


def frac(nd):
    return F(nd[0], nd[1])


def key_of(k):
    """JSON key -> tuple key (inner lists become tuples)"""
    return tuple(tuple(key_inner(x) for x in c) if isinstance(c, list) else c for c in k)


def key_inner(x):
    return tuple(x) if isinstance(x, list) else x


def make(items, keyfor):
    """Poly from [[key, [num, den]], ...]; later items of one key win"""
    p = load('poly').Poly({key_of(k): val(v) for k, v in items})
    p.set_keyfor(list(keyfor))
    return p


def bulk(seed, terms, shape, spread=6):
    """items of a large polynomial: shape lists, per column, None (an integer) or the lengths of a nested tuple"""
    import random
    r = random.Random(seed)
    e = lambda: r.randint(-spread, spread)
    one = lambda s: e() if s is None else [[e() for _ in range(x)] if x else e() for x in s]
    coef = lambda: [r.choice([r.randint(-9, 9), r.randint(-10 ** 12, 10 ** 12)]) or 1, r.choice([1, 1, 2, 3, 4, 6, 10 ** 6 + 3])]
    return [[[one(s) for s in shape], coef()] for _ in range(terms)]


def model(items):
    return {key_of(k): frac(v) for k, v in items}


def clean(d):
    return {k: v for k, v in d.items() if v != 0}


def plain(poly):
    return {k: F(poly[k]) for k in poly}
