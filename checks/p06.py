"""Joint moments of the Ito processes of the two-factor model."""
from itertools import product

import mpmath
from hypothesis import strategies as st

import gen
from formula import check_formula, derive
from harness import Sub, call, ensure, load
from oracle import M, moment_ieii2

PROPERTY = 'P06'
RULE = ('random orders (n4..n8) with bounded sum and random parameters, initial variances, interval length and start '
        'of the interval, plus every order tuple of sum <= 5 at one fixed point; non-trivial: total order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of (v1, v2, IE1, I1, IE2, I2, I*) in 60+ digit arithmetic',
               'n1 k1 + n2 k2 != 0 for small integers, as documented']

FIX = {'k1': 0.613, 'theta1': 0.271, 'sigma_v1': 0.359, 'k2': 0.377, 'theta2': 0.131, 'sigma_v2': 0.217,
       'h': 0.877, 'v1': 0.391, 'v2': 0.093, 'offset': 0.7}


def want(n, par):
    f = mpmath.exp((n[0] * M(par['k1']) + n[2] * M(par['k2'])) * M(par['offset']))
    return f * moment_ieii2(*n, par['h'], par['v1'], par['v2'], par['k1'], par['theta1'], par['sigma_v1'],
                            par['k2'], par['theta2'], par['sigma_v2'])


def body(case):
    n, par = case['n'], case['par']
    check_formula(f'moment_IEI_IEII{tuple(n)}', derive('itos_mom', 'moment_IEI_IEII', *n), want(n, par), par, 2)


def body_all(case):
    """return_all: every moment returned is the moment its key says"""
    n, par = case['n'], case['par']
    f = load('itos_mom').moment_IEI_IEII
    d = call(f'moment_IEI_IEII{tuple(n)} return_all', f, *n, return_all=True)
    ensure(tuple(n) in d, f'return_all: {tuple(n)} is not among the moments returned')
    some = sorted(d)
    for i in range(min(12, len(some))):
        key = some[(case['pick'] * 7 + i * 11) % len(some)]
        check_formula(f'moment_IEI_IEII{tuple(n)} return_all[{key}]', d[key], want(key, par), par, 2)
    check_formula(f'moment_IEI_IEII{tuple(n)} return_all', d[tuple(n)], want(n, par), par, 2)


def tuples(lo, hi):
    return [list(t) for t in product(range(hi + 1), repeat=5) if lo <= sum(t) <= hi]


def subs(tier):
    q = tier == 'quick'
    nt = lambda c: sum(c['n']) >= 2
    low, high = tuples(0, 5), tuples(6, 6 if q else 7)
    third = len(low) // 3 + 1
    out = []
    edge = tuple({'n': n, 'par': p} for p in gen.edges(FIX) for n in ([1, 0, 0, 1, 2], [0, 1, 1, 1, 0]))
    for j in range(3):  # three parallel parts of the exhaustive fixed point
        part = low[j * third:(j + 1) * third]
        out.append(Sub(f'moment_IEI_IEII-{j}', gen.cases(n=st.sampled_from(part), par=gen.ito2()), body,
                       150 if q else 1000, nt, pinned=tuple({'n': n, 'par': FIX} for n in part) + (edge if j == 0 else ()), meta={'cost': 9}))
    out.append(Sub('moment_IEI_IEII-high', gen.cases(n=st.sampled_from(high), par=gen.ito2()), body,
                   60 if q else 240, nt, meta={'cost': 12}, shards=3))
    out.append(Sub('return_all', gen.cases(n=st.sampled_from(tuples(0, 4)), par=gen.ito2(), pick=st.integers(0, 30)),
                   body_all, 40 if q else 200, nt, meta={'cost': 9}))
    return out
