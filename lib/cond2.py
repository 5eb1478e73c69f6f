"""Shared by P21..P23: return moments given the initial variance and the variance jumps."""
import json
from functools import lru_cache

from hypothesis import strategies as st

import gen
from formula import check_formula, derive, derive_shown, same_float, tuplify
from harness import Sub, call, ensure, load
from oracle import central_from_raw, cond2_moments

BASE = {'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'h': 1.3, 'v0': 0.391, 'mu': 0.137, 'rho': -0.43,
        'lmbd_s': 0.571, 'mu_s': -0.119, 'sigma_s': 0.233, 'rho_J': 0.37}
PATHS = [{'jumptime': [0.2, 0.7, 1.1], 'jumpsize': [0.15, 0.4, 0.25]}, {'jumptime': [], 'jumpsize': []},
         {'jumptime': [0.5], 'jumpsize': [0.3]}]


@lru_cache(maxsize=8)
def _raw(key, N, kind):
    return cond2_moments(json.loads(key), N, kind)


def raw_moments(par, N, kind):
    return _raw(json.dumps(par, sort_keys=True), N, kind)


def cond2_sub(kind, central, top, n, maxj):
    mod = f'mdl_{kind}.cond2_' + ('cmom' if central else 'mom')
    one, many, scalar = ('cmoment_y', 'cmoments_y_to', 'cm') if central else ('moment_y', 'moments_y_to', 'm')

    def body(case):
        l, par = case['l'], case['par']
        raw = raw_moments(par, l, kind)
        want = central_from_raw(raw) if central else raw
        fp = tuplify(par)
        extra = (fp['jumpsize'],) if kind == 'svcj' else ()
        polys = derive(mod, many, l, *extra)
        ensure(len(polys) >= l + 1, f'{mod}.{many}({l}) returns {len(polys)} formulas')
        p2n = load(mod).poly2num
        lo = 0 if case['all'] else l
        for i in range(lo, l + 1):
            what = f'{mod}.{many}({l})[{i}]'
            v, s = check_formula(what, polys[i], want[i], par)
            same_float(f'{mod}.poly2num({what})', call(f'poly2num({what})', p2n, polys[i], fp), v, s)
        if case['scalar'] and l <= 3 and kind == 'svvj' and central:
            polys = derive_shown(mod, many, l)
            ensure(len(polys) >= l + 1, f'{mod}.{many}({l}, show=True) returns {len(polys)} formulas')
            for i in range(l + 1):
                check_formula(f'{mod}.{many}({l}, show=True)[{i}]', polys[i], want[i], par)
        if case['scalar']:
            poly = derive(mod, one, l, *extra)
            check_formula(f'{mod}.{one}({l})', poly, want[l], par)
            x = call(f'{mod}.{scalar}({l}, par)', getattr(load(mod), scalar), l, fp)
            same_float(f'{mod}.{scalar}({l}, par)', x, v, s)

    strategy = gen.cases(l=st.integers(0, top), par=gen.cond2(kind, maxj), scalar=st.booleans(), all=st.booleans())
    pinned = tuple({'l': l, 'par': dict(BASE, **p), 'scalar': True, 'all': l <= 2}
                   for l in range(top + 1) for p in PATHS)
    # the boundary values of every parameter that the model has
    own = {'svvj': (), 'svij': ('lmbd_s', 'mu_s', 'sigma_s'), 'svcj': ('mu_s', 'sigma_s', 'rho_J')}[kind]
    base = {x: v for x, v in dict(BASE, **PATHS[0]).items() if x in own or not x.endswith('_s') and x != 'rho_J'}
    pinned += tuple({'l': 4, 'par': p, 'scalar': False, 'all': True} for p in gen.edges(base))
    return Sub('cmom' if central else 'mom', strategy, body, n,
               lambda c: c['l'] >= 2 and c['par']['jumptime'] != [], pinned=pinned, meta={'cost': 5}, shards=2)


def high_sub(kind, central, orders, n, maxj, suffix=''):
    """high orders with few jumps"""
    s = cond2_sub(kind, central, max(orders), n, maxj)
    strategy = gen.cases(l=st.sampled_from(orders), par=gen.cond2(kind, maxj), scalar=st.just(False), all=st.just(False))
    return Sub(s.name + '-high' + suffix, strategy, s.body, n, s.nontrivial, meta={'cost': 8}, shards=2)


def many_sub(kind, central, n):
    """low orders with many jumps"""
    s = cond2_sub(kind, central, 3, n, 12)
    strategy = gen.cases(l=st.integers(1, 3), par=gen.cond2(kind, 12, 7), scalar=st.booleans(), all=st.just(False))
    return Sub(s.name + '-many', strategy, s.body, n, s.nontrivial, meta={'cost': 8}, shards=2)


RULE = ('random order, parameters and jump paths (0..6 jumps, ties and end points included), plus every order at three '
        'fixed paths (0, 1 and 3 jumps), high orders, and 7..12 jumps; non-trivial: order >= 2 and at least one jump')
ASSUMPTIONS = ['the oracle is the generator of (v, y) between the jumps, in 60+ digit arithmetic']
