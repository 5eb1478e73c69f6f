"""Shared by P15 and P16: partial derivatives with respect to the parameters."""
from hypothesis import strategies as st
from mpmath import mpf

import gen
from formula import decoded, derive, same, same_float
from harness import Sub, call, ensure, expect_raises, load
from oracle import M, central_from_raw, sv_comoment, sv_moments
from sv import MODELS, generic, params

EPS = mpf(10) ** -18

WRT = {'1fsv': ['k', 'mu', 'theta', 'sigma_v', 'rho'],
       '1fsvj': ['k', 'mu', 'theta', 'sigma_v', 'rho', 'lambda', 'mu_j', 'sigma_j'],
       '2fsv': ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2'],
       '2fsvj': ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2', 'lambda', 'mu_j', 'sigma_j']}
UNKNOWN = ['', 'h', 'K', 'v0', 'sigma', 'nu', 'k3', 'thetas', 'lambda1', 'rho1', 'sigma_v3']


def moved(par, wrt, eps):
    p = dict(par)
    p[wrt] = M(par[wrt]) + eps
    return p


def numeric(f, par, wrt):
    """central difference of a function given in high precision"""
    a = f(moved(par, wrt, EPS))
    b = f(moved(par, wrt, -EPS))
    return (a - b) / (2 * EPS)


def inner(par):
    """keep rho inside (-1, 1), where the formula is differentiable term by term"""
    if abs(par.get('rho', 0)) > 0.97:
        par = dict(par, rho=0.97 if par['rho'] > 0 else -0.97)
    return par


# what -> (module suffix, formula, scalar derivative, module suffix of dpoly)
WHAT = {'mom': ('mom', 'moment_y', 'dm', 'mom'), 'cmom': ('cmom', 'cmoment_y', 'dcm', 'cmom'),
        'cov': ('cov', 'cov_yy', 'dcov', 'mom')}


def check_deriv(what, poly, pold, par, wrt, factors):
    val = lambda p: decoded(what, poly, p, factors)[0]
    want = numeric(val, par, wrt) if wrt in par else mpf(0)
    v, s, n = decoded(f'derivative of {what} wrt {wrt}', pold, par, factors)
    _, s0, _ = decoded(what, poly, par, factors)
    same(f'derivative of {what} wrt {wrt}', v, want, s + s0 + 1, rel=mpf(10) ** -22)
    return v, s


def formula_sub(model, kind, orders, n, tier):
    mod, factors, jump = MODELS[model]
    suffix, fn, scalar, dp = WHAT[kind]
    wrts = WRT[model]

    def args(order):
        return tuple(order) if isinstance(order, list) else (order,)

    def body(case):
        a, wrt, par = args(case['l']), case['wrt'], inner(case['par'])
        poly = derive(f'{mod}.{suffix}', fn, *a)
        before = dict(poly)
        what = f'{mod}.{suffix}.{fn}{a}'
        pold = call(f'dpoly({what}, {wrt})', load(f'{mod}.{dp}').dpoly, poly, wrt)
        ensure(dict(poly) == before, f'dpoly changes {what}')
        v, s = check_deriv(what, poly, pold, par, wrt, factors)
        if case['scalar']:
            x = call(f'{scalar}{a}({wrt})', getattr(load(f'{mod}.{suffix}'), scalar), *a, par, wrt)
            same_float(f'{mod}.{suffix}.{scalar}({a}, par, {wrt!r})', x, v, s)
            # end to end: the derivative of the model's own moment, by finite differences of the oracle
            if sum(a) <= 3:
                def orc(p):
                    if kind == 'cov':
                        r = sv_moments(p, max(a), factors, jump)
                        return sv_comoment(p, *a, factors, jump) - r[a[0]] * r[a[1]]
                    r = sv_moments(p, a[0], factors, jump)
                    return r[a[0]] if kind == 'mom' else central_from_raw(r)[a[0]]
                same_float(f'{mod}.{suffix}.{scalar}({a}, par, {wrt!r}) against the model',
                           x, numeric(orc, par, wrt), s)

    g = generic(model)
    strategy = gen.cases(l=st.sampled_from(orders), wrt=st.sampled_from(wrts), par=params(model), scalar=st.booleans())
    pinned = tuple({'l': l, 'wrt': w, 'par': g, 'scalar': sum(args(l)) <= (4 if factors == 1 else 3)}
                   for l in orders for w in wrts)
    o = [1, 1] if kind == 'cov' else 3
    pinned += tuple({'l': o, 'wrt': w, 'par': p, 'scalar': False} for p in gen.edges(g) for w in wrts)
    return Sub(f'{model}-{kind}', strategy, body, n, lambda c: sum(args(c['l'])) >= 2, pinned=pinned,
               meta={'cost': 4 * factors}, shards=2)


def synthetic_sub(model, kind, n):
    """dpoly of polynomials that the formulas do not happen to contain"""
    mod, factors, jump = MODELS[model]
    suffix = WHAT[kind][0]
    fn = WHAT[kind][1]

    @st.composite
    def strat(draw):
        keyfor = list(derive(f'{mod}.{suffix}', fn, 1).keyfor)
        its = []
        for _ in range(draw(st.integers(1, 4))):
            k = []
            for name in keyfor:
                if name.startswith('(n_1m'):
                    t = [[draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(-2, 5))]
                         for _ in range(draw(st.integers(1, 3)))]
                    k.append([x if x[0] + x[1] else [1, 0, x[2]] for x in t])
                elif name.startswith('e^{-(n1'):
                    k.append([draw(st.integers(-2, 4)), draw(st.integers(-2, 4))])
                elif name == 'sqrt(1-rho^2)':
                    k.append(2 * draw(st.one_of(st.integers(0, 2), st.integers(0, 8))))
                elif name in ('k^{-}', 'e^{-kh}'):  # never zero, so any power has a value
                    k.append(draw(st.integers(-3, 6)))
                else:
                    k.append(draw(st.one_of(st.integers(0, 4), st.integers(0, 12))))
            its.append([k, [draw(st.integers(-9, 9)), draw(st.integers(1, 4))]])
        return {'items': its, 'wrt': draw(st.sampled_from(WRT[model])), 'par': draw(params(model))}

    def body(case):
        from synth import make, plain
        keyfor = list(derive(f'{mod}.{suffix}', fn, 1).keyfor)
        par = inner(case['par'])
        poly = make(case['items'], keyfor)
        before = plain(poly)
        pold = call(f'{mod}.{suffix}.dpoly({case["wrt"]})', load(f'{mod}.{suffix}').dpoly, poly, case['wrt'])
        ensure(plain(poly) == before, 'dpoly changes the poly it is given')
        check_deriv(f'{mod}.{suffix} synthetic poly', poly, pold, par, case['wrt'], factors)
    return Sub(f'{model}-{kind}-synthetic', strat(), body, n, lambda c: len(c['items']) >= 2, meta={'cost': 2})


def unknown_sub(models):
    cases = []
    for model in models:
        mod, factors, jump = MODELS[model]
        for kind, (suffix, fn, scalar, dp) in WHAT.items():
            for w in UNKNOWN + ([] if jump else ['lambda', 'mu_j', 'sigma_j']):
                cases.append({'model': model, 'kind': kind, 'wrt': w})

    def body(case):
        mod, factors, jump = MODELS[case['model']]
        suffix, fn, scalar, dp = WHAT[case['kind']]
        a = (1, 1) if case['kind'] == 'cov' else (2,)
        expect_raises(f'{mod}.{suffix}.{scalar}{a} wrt {case["wrt"]!r}', ValueError,
                      getattr(load(f'{mod}.{suffix}'), scalar), *a, generic(case['model']), case['wrt'])
        if case['kind'] != 'cov':
            expect_raises(f'{mod}.{suffix}.dpoly wrt {case["wrt"]!r}', ValueError, load(f'{mod}.{suffix}').dpoly,
                          derive(f'{mod}.{suffix}', fn, *a), case['wrt'])
    return Sub('unknown-parameter', st.sampled_from(cases), body, len(cases), pinned=tuple(cases))
