"""Joint moments of IE, I, I* given the jumps of the variance."""
import math

from hypothesis import strategies as st

import gen
from formula import check_formula, derive
from harness import Sub, call, ensure, load
from oracle import moment_ieii

PROPERTY = 'P07'
RULE = ('random orders (n1, n2, n3) with bounded sum, random parameters and random jump paths (0..12 jumps, ties and '
        'end points included), plus every order triple of sum <= 4 at one fixed path; non-trivial: total order >= 2 '
        'and at least one jump')
ASSUMPTIONS = ['the oracle is the extended generator of (v, IE, I, I*) between the jumps, in 60+ digit arithmetic']

FIX = {'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'h': 1.3, 'v0': 0.391,
       'jumptime': [0.2, 0.7, 1.1], 'jumpsize': [0.15, 0.4, 0.25]}


def body(case):
    n, par = case['n'], case['par']
    want = moment_ieii(*n, par['h'], par['v0'], par['k'], par['theta'], par['sigma'],
                       list(zip(par['jumptime'], par['jumpsize'])))
    poly = derive('ito_cond_mom', 'moment_IEII', *n)
    check_formula(f'moment_IEII{tuple(n)}', poly, want, par)
    if sum(n) <= 4 and len(par['jumptime']) <= 5:
        numeric(n, poly, want, par)


def numeric(n, poly, want, par):
    """the same with the multiple sums over the jumps as the package computes them"""
    f, k, h = load('utils').fZ, par['k'], par['h']
    terms = []
    for K, c in poly.items():
        z = call('fZ', f, K[6], K[7], K[8], K[9], k, tuple(par['jumptime']), tuple(par['jumpsize']))
        terms.append(float(c) * math.exp(K[0] * k * h) * h ** K[1] / k ** K[2] * (par['v0'] - par['theta']) ** K[3]
                     * par['theta'] ** K[4] * par['sigma'] ** K[5] * z)
    got, scale = math.fsum(terms), math.fsum(map(abs, terms))
    ensure(abs(got - float(want)) <= 1e-9 * scale, lambda: f'moment_IEII{tuple(n)} evaluates to {got} with the sums of fZ, '
                                                           f'the true moment is {float(want)}')


def triples(lo, hi):
    return [[a, b, c] for a in range(hi + 1) for b in range(hi + 1 - a) for c in range(hi + 1 - a - b)
            if a + b + c >= lo]


def subs(tier):
    q = tier == 'quick'
    nt = lambda c: sum(c['n']) >= 2 and c['par']['jumptime'] != []
    maxj = 5
    return [
        Sub('moment_IEII', gen.cases(n=st.sampled_from(triples(2, 4)), par=gen.cond2('ito', maxj)), body,
            500 if q else 3000, nt, pinned=tuple({'n': n, 'par': FIX} for n in triples(0, 4)) +
            tuple({'n': n, 'par': p} for p in gen.edges(FIX) for n in ([1, 1, 1], [0, 2, 1])), meta={'cost': 9},
            shards=3),
        Sub('moment_IEII-high', gen.cases(n=st.sampled_from(triples(5, 7 if q else 8)), par=gen.cond2('ito', 4)), body,
            120 if q else 600, nt, meta={'cost': 9}, shards=4),
        Sub('moment_IEII-many', gen.cases(n=st.sampled_from(triples(2, 3)), par=gen.cond2('ito', 12, 6)), body,
            60 if q else 400, nt, meta={'cost': 9}),
    ]
