"""1FSV: central return moments given the initial variance."""
from hypothesis import strategies as st

import gen
from formula import check_formula, decoded, derive, derive_shown, same, same_float
from harness import Sub, call, ensure, load
from oracle import central_from_raw, cond2_moments

PROPERTY = 'P14'
RULE = ('random order, parameters and initial variance plus every order at one fixed point; every formula of the '
        'list up to the order, its three simplified forms and the scalar value are checked; non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the generator of (v, y) started from the given variance, in 60+ digit arithmetic']
MOD = 'mdl_1fsv.cond_cmom'
FIX = {'mu': 0.137, 'k': 0.613, 'theta': 0.271, 'sigma_v': 0.359, 'rho': -0.43, 'h': 0.877, 'v0': 0.391}


def central(par, n):
    p = dict(par, sigma=par['sigma_v'], jumptime=[], jumpsize=[])
    return central_from_raw(cond2_moments(p, n, 'svvj'))


def body(case):
    l, par = case['l'], case['par']
    want = central(par, l)
    polys = derive(MOD, 'cmoments_y_to', l)
    ensure(len(polys) >= l + 1, f'cmoments_y_to({l}) returns {len(polys)} formulas')
    mod = load(MOD)
    for i in range(l + 1):
        what = f'{MOD}.cmoments_y_to({l})[{i}]'
        v, s = check_formula(what, polys[i], want[i], par)
    for tp in (1, 2, 3):
        p = call(f'simplify({what}, {tp})', mod.simplify, polys[l], tp)
        w, s2, _ = decoded(f'simplify({what}, {tp})', p, par)
        same(f'simplify({what}, {tp})', w, want[l], s + s2)
        if tp == 2:
            x = call(f'poly2num(simplify({what}, 2))', mod.poly2num, p, par)
            same_float(f'poly2num(simplify({what}, 2))', x, w, s2)
    if case['scalar'] and l <= 5:
        polys = derive_shown(MOD, 'cmoments_y_to', l)
        ensure(len(polys) >= l + 1, f'cmoments_y_to({l}, show=True) returns {len(polys)} formulas')
        for i in range(l + 1):
            check_formula(f'{MOD}.cmoments_y_to({l}, show=True)[{i}]', polys[i], want[i], par)
    if case['scalar']:
        x = call(f'cond_cm({l}, par)', mod.cond_cm, l, par)
        same_float(f'{MOD}.cond_cm({l}, par)', x, want[l], s + s2)


def subs(tier):
    q = tier == 'quick'
    n, top = (240, 9) if q else (1500, 11)
    orders = list(range(top + 1))
    half = [st.sampled_from(orders[:top - 1]), st.sampled_from(orders[top - 1:])]
    out = []
    for i, (o, m, name) in enumerate(((half[0], n, 'cond_cm'), (half[1], n // 6, 'cond_cm-high'))):
        pin = orders[:top - 1] if i == 0 else orders[top - 1:]
        at = tuple({'l': l, 'par': p, 'scalar': l == 3} for p in gen.edges(FIX) for l in (3, 4)) if i == 0 else ()
        out.append(Sub(name, gen.cases(l=o, par=gen.sv1_cond(), scalar=st.booleans()), body, m, lambda c: c['l'] >= 2,
                       pinned=tuple({'l': l, 'par': FIX, 'scalar': True} for l in pin) + at, meta={'cost': 4}, shards=3))
    return out
