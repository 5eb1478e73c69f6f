"""Combinatorial utilities against enumeration."""
import contextlib
import io
import math
from itertools import product

import mpmath
from hypothesis import strategies as st
from mpmath import mpf

import gen
from decode import fz
from formula import same_float
from harness import Sub, Violation, call, ensure, load
from oracle import M

PROPERTY = 'P30'
RULE = ('random arguments of the combinatorial helpers against exhaustive enumeration, multinomials from factorials '
        'and 60-digit evaluation of the multiple sums over jumps; non-trivial: at least two parts / levels / jumps')
ASSUMPTIONS = []


def comb_body(case):
    ns = case['ns']
    n = sum(ns)
    want = math.factorial(n)
    for x in ns:
        want //= math.factorial(x)
    got = call(f'comb({n},{ns})', load('utils').comb, n, ns)
    ensure(got == want, f'comb({n}, {ns}) = {got}, should be {want}')


def lists(what, r, want):
    ensure(isinstance(r, list) and all(isinstance(x, (list, tuple)) for x in r), f'{what} is {str(r)[:100]}')
    got = [tuple(x) for x in r]
    ensure(len(got) == len(set(got)), f'{what} repeats an index')
    ensure(set(got) == want, f'{what}: {len(got)} indexes, should be {len(want)}; missing '
                             f'{sorted(want - set(got))[:3]}, superfluous {sorted(set(got) - want)[:3]}')


def listed(f, n, m, want):
    lists(f'{f}({n},{m})', call(f'{f}({n},{m})', getattr(load('utils'), f), n, m), want)
    if len(want) <= 400:  # printing on the way does not matter
        with contextlib.redirect_stdout(io.StringIO()):
            r = call(f'{f}({n},{m},show=True)', getattr(load('utils'), f), n, m, show=True)
        lists(f'{f}({n},{m},show=True)', r, want)


def index_body(case):
    n, m = case['n'], case['m']
    listed('multilevel_index', n, m, set(product(range(m), repeat=n)))


def split_body(case):
    n, m = case['n'], case['m']
    listed('multilevel_comb', n, m, {t for t in product(range(m + 1), repeat=n) if sum(t) == m})


def dbf_body(case):
    n = case['n']
    want = math.prod(range(n, 0, -2))
    got = call(f'dbfactorial({n})', load('utils').dbfactorial, n)
    ensure(got == want, f'dbfactorial({n}) = {got}, should be {want}')


@st.composite
def fzcase(draw, each=False):
    lev = draw(st.integers(1 if each else 0, 4))
    nj = draw(st.integers(1 if each else 0, (12, 12, 12, 5, 3)[lev]))
    e, o = st.integers(-3, 4), st.integers(0, 5)
    c = {'l': draw(st.lists(e, min_size=lev, max_size=lev)), 'o': draw(st.lists(o, min_size=lev, max_size=lev)),
         'p': draw(st.lists(e, min_size=max(0, lev - 1), max_size=max(0, lev - 1))),
         'q': draw(st.lists(o, min_size=max(0, lev - 1), max_size=max(0, lev - 1))),
         'k': draw(gen.dec(0.1, 2)),
         's': draw(st.lists(gen.dec(0, 2), min_size=nj, max_size=nj)),
         'J': draw(st.lists(gen.dec(0.01, 2.5), min_size=nj, max_size=nj))}
    if draw(st.booleans()):
        c['s'].sort()
    if each:
        c['index'] = draw(st.lists(st.integers(0, nj - 1), min_size=lev, max_size=lev))
    return c


def fz_body(case):
    l, o, p, q, s, J = (tuple(case[x]) for x in ('l', 'o', 'p', 'q', 's', 'J'))
    k = case['k']
    jumps = list(zip([M(x) for x in s], [M(x) for x in J]))
    want = fz(l, o, p, q, M(k), jumps) if l else mpf(1)
    got = call('fZ', load('utils').fZ, l, o, p, q, k, s, J)
    same_float('fZ', got, want, want)  # all terms are non-negative
    if l and J:  # the sum over all the indexes
        f = load('utils').fZ_each_index
        tot = sum(call('fZ_each_index', f, l, o, p, q, k, s, J, list(i)) for i in product(range(len(J)), repeat=len(l)))
        same_float('sum of fZ_each_index', tot, want, want)


def each_body(case):
    l, o, p, q, s, J = (tuple(case[x]) for x in ('l', 'o', 'p', 'q', 's', 'J'))
    k, idx = M(case['k']), case['index']
    f, mx = mpf(1), None
    for i, j in enumerate(idx):
        t = M(s[j])
        f *= mpmath.exp(l[i] * k * t) * M(J[j]) * t ** o[i]
        mx = t if mx is None else max(mx, t)
        if i:
            f *= mpmath.exp(p[i - 1] * k * mx) * mx ** q[i - 1]
    got = call('fZ_each_index', load('utils').fZ_each_index, l, o, p, q, case['k'], s, J, idx)
    same_float('fZ_each_index', got, f, f)


def subs(tier):
    q = tier == 'quick'
    k = 1 if q else 10
    small = st.integers(1, 7).flatmap(lambda n: gen.cases(n=st.just(n), m=st.integers(1, (30, 12, 6, 6, 4, 3, 2)[n - 1])))
    small0 = st.integers(1, 7).flatmap(lambda n: gen.cases(n=st.just(n), m=st.integers(0, (40, 40, 14, 9, 6, 4, 3)[n - 1])))
    return [
        Sub('comb', gen.cases(ns=st.one_of(st.lists(st.integers(0, 8), min_size=1, max_size=8),
                                 st.lists(st.integers(0, 40), min_size=1, max_size=14))), comb_body, 200 * k,
            lambda c: sum(x > 0 for x in c['ns']) >= 2),
        Sub('multilevel_index', small, index_body, 60, lambda c: c['n'] >= 2 and c['m'] >= 2),
        Sub('multilevel_comb', small0, split_body, 90, lambda c: c['n'] >= 2 and c['m'] >= 1),
        Sub('dbfactorial', gen.cases(n=st.integers(0, 400)), dbf_body, 200, lambda c: c['n'] >= 3, pinned=tuple({'n': n} for n in range(61))),
        Sub('fZ', fzcase(), fz_body, 200 * k, lambda c: len(c['l']) >= 2 and len(c['J']) >= 2, meta={'cost': 3}),
        Sub('fZ_each_index', fzcase(True), each_body, 200 * k, lambda c: len(c['l']) >= 2 and len(c['J']) >= 2),
    ]
