"""Joint moments of the Ito processes IE, I, I* of the one-factor model."""
import mpmath
from hypothesis import strategies as st

import gen
from formula import check_formula, derive
from harness import Sub
from oracle import M, moment_ieii, stationary_v

PROPERTY = 'P05'
RULE = ('random orders (n3, n4, n5) with bounded sum and random parameters, initial variance, interval length and '
        'start of the interval, plus every order triple at one fixed point; non-trivial: total order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of (v, IE, I, I*) in 60+ digit arithmetic']

FIX = {'k': 0.613, 'theta': 0.271, 'sigma_v': 0.359, 'h': 0.877, 'v0': 0.391, 'offset': 1.3}


def body(case):
    n, par = case['n'], case['par']
    want = mpmath.exp(n[0] * M(par['k']) * M(par['offset'])) * \
        moment_ieii(*n, par['h'], par['v0'], par['k'], par['theta'], par['sigma_v'])
    check_formula(f'moment_IEII{tuple(n)}', derive('ito_mom', 'moment_IEII', *n), want, par)


def body_v(case):
    n, par = case['n'], case['par']
    want = stationary_v(n, par['k'], par['theta'], par['sigma_v'])[n]
    check_formula(f'moment_v({n})', derive('ito_mom', 'moment_v', n), want, par)


def triples(top):
    return [[a, b, c] for a in range(top + 1) for b in range(top + 1 - a) for c in range(top + 1 - a - b)]


def subs(tier):
    q = tier == 'quick'
    small, top = (6, 8) if q else (9, 10)
    nt = lambda c: sum(c['n']) >= 2
    return [
        Sub('moment_IEII', gen.cases(n=st.sampled_from(triples(small)), par=gen.ito1()), body, 700 if q else 5000, nt,
            pinned=tuple({'n': n, 'par': FIX} for n in triples(small)) +
            tuple({'n': n, 'par': p} for p in gen.edges(FIX) for n in ([1, 1, 1], [0, 2, 0], [1, 2, 1])), meta={'cost': 9}, shards=3),
        Sub('moment_IEII-high', gen.cases(n=st.sampled_from([t for t in triples(top) if sum(t) > small]),
                                          par=gen.ito1()), body, 150 if q else 800, nt, meta={'cost': 9}, shards=3),
        Sub('moment_v', gen.cases(n=st.integers(0, 30), par=gen.ito1()), body_v, 200 if q else 1000,
            lambda c: c['n'] >= 2, pinned=tuple({'n': n, 'par': FIX} for n in range(31)) +
            tuple({'n': 3, 'par': p} for p in gen.edges(FIX))),
    ]
