"""poly2num: the value of any polynomial of a module's layout."""
from hypothesis import strategies as st

import gen
import scalars
from formula import decoded, derive, same_float, tuplify
from harness import Sub, Violation, call, ensure, load
from synth import make, plain

PROPERTY = 'P40'
RULE = ('random polynomials of the layout of every module that has poly2num (exponents that the derived formulas need '
        'not contain: zero, negative where a base is never zero, up to 12; index vectors of up to three jumps), random '
        'parameters with boundary values, parameter sets with and without entries of other models; non-trivial: two '
        'terms or more')
ASSUMPTIONS = ['the columns are read by their documented names, in 60+ digit arithmetic']

T0 = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'
POSITIVE = ('k^{-}', 'e^{-kh}', 'e^{-kt}', 'e^{kt}', 'e^{ks}')  # never zero: any power has a value
PAIRS = ('e^{-(n1*k1+n2*k2)h}',)


def interval(p):
    """over (0, h]: both ways to give the interval"""
    return dict(p, lb=0, ub=p['h'])


def regular(s):
    return s.map(interval)


@st.composite
def lb_ub(draw):
    p = draw(gen.interval())
    return dict(p, h=round(p['ub'] - p['lb'], 6))


# module: (formula that shows the layout, its orders, parameters)
LAYOUT = {
    'mdl_1fsv.mom': ('mdl_1fsv.mom.moment_y', (1,), gen.sv1()),
    'mdl_1fsv.cmom': ('mdl_1fsv.cmom.cmoment_y', (2,), gen.sv1()),
    'mdl_1fsv.cond_cmom': (None, (2,), gen.sv1_cond()),
    'mdl_1fsvj.mom': ('mdl_1fsvj.mom.moment_y', (1,), gen.sv1(True)),
    'mdl_1fsvj.cmom': ('mdl_1fsvj.cmom.cmoment_y', (2,), gen.sv1(True)),
    'mdl_2fsv.mom': ('mdl_2fsv.mom.moment_y', (1,), gen.sv2()),
    'mdl_2fsv.cmom': ('mdl_2fsv.cmom.cmoment_y', (2,), gen.sv2()),
    'mdl_2fsvj.mom': ('mdl_2fsvj.mom.moment_y', (1,), gen.sv2(True)),
    'mdl_2fsvj.cmom': ('mdl_2fsvj.cmom.cmoment_y', (2,), gen.sv2(True)),
    'mdl_srjd.cond_mom': ('mdl_srjd.cond_mom.moment_v', (1,), gen.srjd()),
    'mdl_srjd.cond_ie_iez_mom': ('mdl_srjd.cond_ie_iez_mom.moment_ie', (2,), gen.srjd()),
    'mdl_srjd.cond_ie_iez_cmom': ('mdl_srjd.cond_ie_iez_cmom.moment_ie', (2,), gen.srjd()),
    'mdl_srjd.cond2_mom': ('mdl_srjd.cond2_mom.moment_v', (1,), gen.cond2('srjd')),
    'mdl_srjd.iez_mom': ('mdl_srjd.iez_mom.moment_IEZ', (1,), lb_ub()),
    'mdl_svvj.cond2_mom': ('mdl_svvj.cond2_mom.moment_y', (1,), gen.cond2('svvj')),
    'mdl_svvj.cond2_cmom': ('mdl_svvj.cond2_cmom.cmoment_y', (2,), gen.cond2('svvj')),
    'mdl_svij.cond2_mom': ('mdl_svij.cond2_mom.moment_y', (1,), gen.cond2('svij')),
    'mdl_svij.cond2_cmom': ('mdl_svij.cond2_cmom.cmoment_y', (2,), gen.cond2('svij')),
    'mdl_svcj.cond2_mom': ('mdl_svcj.cond2_mom.moment_y', (1,), gen.cond2('svcj')),
    'mdl_svcj.cond2_cmom': ('mdl_svcj.cond2_cmom.cmoment_y', (2,), gen.cond2('svcj')),
    'mdl_svcj.cond_mom': ('mdl_svcj.cond_mom.moment_y', (1,), gen.svcj()),
    'mdl_svcj.mom': ('mdl_svcj.mom.moment_y', (1,), gen.svcj(v0=False)),
    'mdl_svcj.ieziziz_mom': ('mdl_svcj.ieziziz_mom.moment_ieziziz', (1, 0, 0), regular(gen.svcj(v0=False))),
    'mdl_svcj.cond_ieii_ieziziz_mom': ('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', (1, 1, 0, 0, 0, 0),
                                       gen.svcj()),
}
EXTRA = {k: v for d in (scalars.V1, scalars.V2, scalars.RJ, scalars.C2) for k, v in d.items()}


def keyfor_of(mod):
    name, orders, _ = LAYOUT[mod]
    if name is None:
        m = load(mod)
        return list(call('simplify', m.simplify, derive(mod, 'cmoments_y_to', 2)[2], 2).keyfor)
    m, f = name.rsplit('.', 1)
    extra = ((0.2, 0.3),) if mod.startswith('mdl_svcj.cond2') else ()
    return list(derive(m, f, *orders, *extra).keyfor)


@st.composite
def keys(draw, keyfor, jumps):
    k, i = [], 0
    small = st.integers(-3, 6)
    vec = lambda n: [draw(st.integers(-2, 4)) for _ in range(n)]
    pos = lambda n: [draw(st.integers(0, 4)) for _ in range(n)]
    while i < len(keyfor):
        c = keyfor[i]
        if c == 'l_{1:n}':
            n = draw(st.integers(0, 3))
            if keyfor[i + 1] == 'o_{1:n}':  # e^{l k s}, s^o, e^{p k max}, max^q
                k += [vec(n), pos(n), vec(max(0, n - 1)), pos(max(0, n - 1))]
                i += 4
            else:
                k += [vec(n), vec(max(0, n - 1))]
                i += 2
            continue
        if c == 'J_{1:n}':
            k.append(pos(jumps))
        elif c == T0:
            t = [[draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(-2, 5))]
                 for _ in range(draw(st.integers(1, 3)))]
            k.append([x if x[0] + x[1] else [1, 0, x[2]] for x in t])
        elif c in PAIRS:
            k.append([draw(st.integers(-2, 4)), draw(st.integers(-2, 4))])
        elif c in POSITIVE:
            k.append(draw(small))
        else:
            k.append(draw(st.one_of(st.integers(0, 4), st.integers(0, 12))))
        i += 1
    return k


@st.composite
def case(draw, mod):
    par = draw(LAYOUT[mod][2])
    try:
        kf = keyfor_of(mod)
    except Violation:
        return {'items': [], 'par': par, 'more': False}
    its = [[draw(keys(kf, len(par.get('jumpsize', ())))), [draw(st.integers(-9, 9)), draw(st.sampled_from([1, 1, 2, 3, 8]))]]
           for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 5])))]
    return {'items': its, 'par': par, 'more': draw(st.booleans())}


def mild(par):
    """e^{6 k h} and the like have to stay doubles"""
    p = dict(par)
    for k in ('k', 'k1', 'k2'):
        if k in p and p[k] * p['h'] > 40:
            p['h'] = 2.5
    if 'lb' in p and p['k'] * p['ub'] > 40:
        p.update(lb=0, ub=p['h'] if p['k'] * p['h'] <= 40 else 2.5)
        p['h'] = p['ub']
    return p


def body_of(mod):
    factors = 2 if mod.startswith('mdl_2') else 1

    def body(c):
        par = mild(c['par'])
        poly = make(c['items'], keyfor_of(mod))
        before = plain(poly)
        v, s, n = decoded(f'a polynomial of the layout of {mod}', poly, par, factors)
        if s > 1e280:
            return  # does not fit a double
        p = tuplify(par)
        if c['more']:
            p = dict({k: w for k, w in EXTRA.items() if k not in p}, **p)
        held = dict(p)
        x = call(f'{mod}.poly2num', load(mod).poly2num, poly, p)
        ensure(plain(poly) == before, f'{mod}.poly2num changes the polynomial')
        ensure(p == held and list(p) == list(held), f'{mod}.poly2num changes the parameters')
        same_float(f'{mod}.poly2num({before})' if len(before) < 4 else f'{mod}.poly2num', x, v, s)
    return body


POINT = {'mu': 0.137, 'k': 0.613, 'theta': 0.271, 'sigma_v': 0.359, 'sigma': 0.359, 'rho': -0.43, 'h': 0.877, 'v0': 0.391,
         'lambda': 0.571, 'mu_j': -0.119, 'sigma_j': 0.233, 'k1': 0.613, 'theta1': 0.271, 'sigma_v1': 0.359, 'k2': 0.377,
         'theta2': 0.131, 'sigma_v2': 0.217, 'lmbd': 0.571, 'mu_v': 0.233, 'mu_s': -0.119, 'sigma_s': 0.233, 'rhoJ': 0.37,
         'lmbd_s': 0.571, 'rho_J': 0.37, 'jumptime': [0.1, 0.4, 0.7], 'jumpsize': [0.15, 0.4, 0.25], 'lb': 0.31, 'ub': 1.17}


def filled(kf, e, jumps=3):
    """a key with the exponent e in every column"""
    k, i = [], 0
    while i < len(kf):
        c = kf[i]
        if c == 'l_{1:n}':
            more = kf[i + 1] == 'o_{1:n}'
            k += [[e, 1], [1, e], [e], [e]] if more else [[e, 1], [e]]
            i += 4 if more else 2
            continue
        k.append([e] * jumps if c == 'J_{1:n}' else [[1, 0, e], [0, 1, 1], [2, 1, e]] if c == T0 else [e, e - 1] if c in PAIRS else e)
        i += 1
    return k


def pins(mod):
    """the boundary values of every parameter of the model, each with one-term polynomials and a sum"""
    base = {x: POINT[x] for x in NAMES[mod]}
    try:
        kf, out = keyfor_of(mod), []
    except Violation:  # the check meets it again
        return ({'items': [], 'par': dict(base, h=POINT['h']), 'more': False},)
    if 'lb' in base:
        base['h'] = round(base['ub'] - base['lb'], 6)
    for p in [base] + gen.edges(base):
        if 'lb' in p and 'h' in p:
            p = dict(p, h=round(p['ub'] - p['lb'], 6))
        if mod == 'mdl_svcj.ieziziz_mom':
            p = interval(p)
        free = filled(kf, 1)  # but for the parameters that are zero
        for i, c in enumerate(kf):
            if p.get(c, 1) == 0:
                free[i] = 0
        for its in ([[free, [3, 1]]], [[filled(kf, 1), [7, 1]]], [[filled(kf, 2), [-7, 2]]], [[filled(kf, 0), [1, 1]], [filled(kf, 3), [5, 1]]]):
            out += [{'items': its, 'par': p, 'more': more} for more in (False, True)]
    return tuple(out)


SV1 = ('mu', 'k', 'theta', 'sigma_v', 'rho', 'h')
SV2 = ('mu', 'k1', 'theta1', 'sigma_v1', 'k2', 'theta2', 'sigma_v2', 'h')
SVJ = ('lambda', 'mu_j', 'sigma_j')
SRJD = ('k', 'theta', 'sigma', 'lmbd', 'mu_v', 'h')
SVCJ = SRJD + ('mu', 'rho', 'rhoJ', 'mu_s', 'sigma_s')
C2 = ('k', 'theta', 'sigma', 'h', 'v0', 'jumptime', 'jumpsize')
NAMES = {
    'mdl_1fsv.mom': SV1, 'mdl_1fsv.cmom': SV1, 'mdl_1fsv.cond_cmom': SV1 + ('v0',), 'mdl_1fsvj.mom': SV1 + SVJ,
    'mdl_1fsvj.cmom': SV1 + SVJ, 'mdl_2fsv.mom': SV2, 'mdl_2fsv.cmom': SV2, 'mdl_2fsvj.mom': SV2 + SVJ, 'mdl_2fsvj.cmom': SV2 + SVJ,
    'mdl_srjd.cond_mom': SRJD + ('v0',), 'mdl_srjd.cond_ie_iez_mom': SRJD + ('v0',), 'mdl_srjd.cond_ie_iez_cmom': SRJD + ('v0',),
    'mdl_srjd.cond2_mom': C2, 'mdl_srjd.iez_mom': ('k', 'lmbd', 'mu_v', 'lb', 'ub'),
    'mdl_svvj.cond2_mom': C2 + ('mu', 'rho'), 'mdl_svvj.cond2_cmom': C2 + ('mu', 'rho'),
    'mdl_svij.cond2_mom': C2 + ('mu', 'rho', 'lmbd_s', 'mu_s', 'sigma_s'),
    'mdl_svij.cond2_cmom': C2 + ('mu', 'rho', 'lmbd_s', 'mu_s', 'sigma_s'),
    'mdl_svcj.cond2_mom': C2 + ('mu', 'rho', 'mu_s', 'sigma_s', 'rho_J'),
    'mdl_svcj.cond2_cmom': C2 + ('mu', 'rho', 'mu_s', 'sigma_s', 'rho_J'),
    'mdl_svcj.cond_mom': SVCJ + ('v0',), 'mdl_svcj.mom': SVCJ, 'mdl_svcj.ieziziz_mom': SVCJ,
    'mdl_svcj.cond_ieii_ieziziz_mom': SVCJ + ('v0',),
}


def subs(tier):
    n = 90 if tier == 'quick' else 2500
    return [Sub(m, case(m), body_of(m), n, lambda c: len(c['items']) >= 2, pinned=pins(m), meta={'cost': 2}) for m in sorted(LAYOUT)]
