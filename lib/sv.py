"""Shared by P08..P13: the four stochastic volatility models observed through y."""
import json
from functools import lru_cache

from hypothesis import strategies as st

import gen
from formula import check_formula, decoded, derive, same_float
from harness import Sub, call, ensure, load
from oracle import central_from_raw, sv_comoment, sv_moments

MODELS = {  # name: (module, factors, jumps)
    '1fsv': ('mdl_1fsv', 1, False),
    '1fsvj': ('mdl_1fsvj', 1, True),
    '2fsv': ('mdl_2fsv', 2, False),
    '2fsvj': ('mdl_2fsvj', 2, True),
}

GENERIC = {
    1: {'mu': 0.137, 'k': 0.613, 'theta': 0.271, 'sigma_v': 0.359, 'rho': -0.43, 'h': 0.877,
        'lambda': 0.571, 'mu_j': -0.119, 'sigma_j': 0.233},
    2: {'mu': -0.137, 'k1': 0.613, 'theta1': 0.271, 'sigma_v1': 0.359, 'k2': 0.377, 'theta2': 0.131,
        'sigma_v2': 0.217, 'h': 0.877, 'lambda': 0.571, 'mu_j': 0.119, 'sigma_j': 0.233},
}
JUMP = ('lambda', 'mu_j', 'sigma_j')


def generic(model):
    mod, factors, jump = MODELS[model]
    return {k: v for k, v in GENERIC[factors].items() if jump or k not in JUMP}


def params(model):
    mod, factors, jump = MODELS[model]
    return gen.sv1(jump) if factors == 1 else gen.sv2(jump)


@lru_cache(maxsize=8)
def _raw(key, N, factors, jump):
    return sv_moments(json.loads(key), N, factors, jump)


def raw_moments(par, N, factors, jump):
    # one call gives all the orders; cached so that the cases of one parameter point share it
    return _raw(json.dumps(par, sort_keys=True), N, factors, jump)


def moment_sub(model, kind, orders, n, suffix=''):
    """kind 'mom' or 'cmom': formula and scalar of every order"""
    mod, factors, jump = MODELS[model]
    fn, scalar = ('moment_y', 'm') if kind == 'mom' else ('cmoment_y', 'cm')
    module = f'{mod}.{kind}'
    top = max(orders)
    cap = 5 if factors == 1 else 4  # the scalar function derives the formula anew

    def body(case):
        l, par = case['l'], case['par']
        raw = raw_moments(par, l, factors, jump)
        want = raw[l] if kind == 'mom' else central_from_raw(raw)[l]
        poly = derive(module, fn, l)
        v, s = check_formula(f'{module}.{fn}({l})', poly, want, par, factors)
        x = call(f'{module}.poly2num({fn}({l}))', load(module).poly2num, poly, par)
        same_float(f'{module}.poly2num({fn}({l}))', x, v, s)
        if case['scalar'] and l <= cap:
            x = call(f'{module}.{scalar}({l}, par)', getattr(load(module), scalar), l, par)
            same_float(f'{module}.{scalar}({l}, par)', x, v, s)

    strategy = gen.cases(l=st.sampled_from(orders), par=params(model), scalar=st.booleans())
    pinned = tuple({'l': l, 'par': generic(model), 'scalar': True} for l in orders)
    if not suffix:
        pinned += tuple({'l': l, 'par': p, 'scalar': l == 2} for p in gen.edges(generic(model)) for l in (2, 3 + (factors == 1)))
    return Sub(f'{model}-{kind}{suffix}', strategy, body, n, lambda c: c['l'] >= 2, pinned=pinned, shards=1 if suffix else 2,
               meta={'cost': top * factors * (2 if suffix else 1)})


def cov_sub(model, fn, pairs, n, shards=2, suffix='', pin=True):
    """fn 'moment_yy' or 'cov_yy'"""
    mod, factors, jump = MODELS[model]
    module = f'{mod}.cov'

    def body(case):
        l1, l2 = case['l']
        par = case['par']
        yy = sv_comoment(par, l1, l2, factors, jump)
        if fn == 'cov_yy':
            raw = raw_moments(par, max(l1, l2), factors, jump)
            want = yy - raw[l1] * raw[l2]
        else:
            want = yy
        poly = derive(module, fn, l1, l2)
        v, s = check_formula(f'{module}.{fn}({l1},{l2})', poly, want, par, factors)
        if fn == 'cov_yy' and case['scalar']:
            x = call(f'{module}.cov({l1},{l2},par)', load(module).cov, l1, l2, par)
            same_float(f'{module}.cov({l1},{l2},par)', x, v, s)
        if fn == 'moment_yy' and case['scalar']:
            m = load(mod + '.mom')
            x = call(f'{mod}.mom.poly2num(moment_yy({l1},{l2}))', m.poly2num, poly, par)
            same_float(f'{mod}.mom.poly2num(moment_yy({l1},{l2}))', x, v, s)

    strategy = gen.cases(l=st.sampled_from([list(p) for p in pairs]), par=params(model), scalar=st.booleans())
    if suffix:
        strategy = gen.cases(l=st.sampled_from([list(p) for p in pairs]), par=params(model), scalar=st.just(False))
    pinned = tuple({'l': list(p), 'par': generic(model), 'scalar': sum(p) <= 3} for p in pairs if pin)
    if not suffix:
        pinned += tuple({'l': l, 'par': p, 'scalar': sum(l) == 2} for p in gen.edges(generic(model)) for l in ([1, 1], [2, 1]))
    return Sub(f'{model}-{fn}{suffix}', strategy, body, n, lambda c: c['l'][0] >= 1 and c['l'][1] >= 1, pinned=pinned,
               meta={'cost': 6 * factors}, shards=shards)
