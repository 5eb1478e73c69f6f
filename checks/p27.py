"""Every derived formula is a well-formed polynomial of its documented layout."""
import json
import os
from fractions import Fraction

from hypothesis import strategies as st

from catalog import FORMULAS, LISTS, NEEDS_JUMPS, beyond, derive_fresh
from harness import Sub, call, ensure, load

PROPERTY = 'P27'
RULE = ('random deriving function of the package with random orders of bounded sum, and every function at its lowest '
        'orders; non-trivial: total order >= 2')
ASSUMPTIONS = ['the documented column layouts (lib/keyfor.json) were taken from the docstrings of the package']

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'keyfor.json')) as f:
    KEYFOR = {k: tuple(v) for k, v in json.load(f).items()}


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def check(what, name, p, njumps):
    Poly = load('poly').Poly
    ensure(isinstance(p, Poly), f'{what} returns {type(p).__name__}')
    kf = tuple(p.keyfor)
    ensure(kf == KEYFOR[name], f'{what}: keyfor {kf}, documented {KEYFOR[name]}')
    for k, v in p.items():
        ensure(isinstance(k, tuple) and len(k) == len(kf), f'{what}: key {k} for columns {kf}')
        ensure(isint(v) or isinstance(v, Fraction), f'{what}: coefficient {v!r} of {k} is not an exact rational')
        for name_, e in zip(kf, k):
            if isinstance(e, tuple):
                if name_ in ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'o_{2:n}', 'J_{1:n}') or name_.startswith('e^{'):
                    ok = all(isint(x) for x in e)
                else:  # tuple of triples
                    ok = name_.startswith('(') and all(isinstance(t, tuple) and len(t) in (2, 3) and
                                                       all(isint(x) for x in t) for t in e)
                ensure(ok, f'{what}: component {e!r} of column {name_!r}')
            else:
                ensure(isint(e), f'{what}: exponent {e!r} of column {name_!r} is not an integer')
        d = dict(zip(kf, k))
        if 'l_{1:n}' in d:
            n = len(d['l_{1:n}'])
            for c, m in (('o_{1:n}', n), ('o_{2:n}', max(0, n - 1)), ('p_{2:n}', max(0, n - 1)),
                         ('q_{2:n}', max(0, n - 1))):
                if c in d:
                    ensure(len(d[c]) == m, f'{what}: column {c} of key {k} has {len(d[c])} entries, l has {n}')
        if 'J_{1:n}' in d:
            ensure(len(d['J_{1:n}']) in (0, njumps), f'{what}: column J of key {k} for {njumps} jumps')


def body(case):
    name, jumps = case['f'], tuple(case['jumps'])
    what = f'{name}{tuple(case["n"])}'
    p = derive_fresh(name, case['n'], jumps)
    if name in LISTS:
        ensure(isinstance(p, list) and len(p) >= case['n'][0] + 1, f'{what}: list of {len(p)}')
        for i, q in enumerate(p):
            check(f'{what}[{i}]', name, q, len(jumps))
        p = p[-1]
    else:
        check(what, name, p, len(jumps))
    q = derive_fresh(name, case['m'], jumps)
    q = q[-1] if isinstance(q, list) else q
    ensure(p.is_exact_type(q) and q.is_exact_type(p), f'{what} and order {case["m"]} are not of the same type')
    call(f'{what} + {name}{tuple(case["m"])}', lambda: p + q)  # formulas of one function can be combined


@st.composite
def orders(draw, arity, top):
    o, left = [], top
    for i in range(arity):
        x = draw(st.integers(0, left))
        o.append(x)
        left -= x
    return draw(st.permutations(o)) if arity > 1 else o


def strategy(names):
    @st.composite
    def strat(draw):
        f = draw(st.sampled_from(names))
        ar, top = FORMULAS.get(f) or (1, LISTS[f])
        return {'f': f, 'n': draw(orders(ar, top)), 'm': draw(orders(ar, min(top, 2))),
                'jumps': draw(st.sampled_from([[], [0.15], [0.15, 0.4], [0.3, 0.1, 0.2]])) if f in NEEDS_JUMPS
                else [0.15, 0.4]}
    return strat()


def subs(tier):
    q = tier == 'quick'
    names = list(FORMULAS) + list(LISTS)
    out = []
    for j in range(4):
        part = names[j::4]
        pinned = []
        for f in part:
            ar = FORMULAS.get(f, (1, 0))[0]
            for n in range(3):
                o = [0] * ar
                o[0] = n
                pinned.append({'f': f, 'n': o, 'm': [0] * ar, 'jumps': [0.15, 0.4]})
            pinned += [{'f': f, 'n': o, 'm': [1] * ar, 'jumps': [0.15, 0.4]} for o in beyond(f)]
        out.append(Sub(f'formulas-{j}', strategy(part), body, 60 if q else 600, lambda c: sum(c['n']) >= 2,
                       pinned=tuple(pinned)))
    return out
