"""Transformations of polynomials keep the value."""
from fractions import Fraction as F

import mpmath
from hypothesis import strategies as st
from mpmath import mpf

import gen
from formula import decoded, derive, same
from harness import Sub, Violation, call, ensure, expect_raises, load
from oracle import M
from synth import clean, frac, key_of, make, model, num, plain

PROPERTY = 'P02'
RULE = ('random polynomials (and, for the simplifications, also derived formulas) transformed and evaluated before '
        'and after at random points; non-trivial: at least two terms, or a derived formula of order >= 2')
ASSUMPTIONS = ['values are compared in 60-digit arithmetic, mul_poly exactly']


# ---- mul_poly ----------------------------------------------------------------
@st.composite
def mulcase(draw):
    n1, n2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    w = draw(st.integers(1, 4))
    idx = [[draw(st.sampled_from([-1] + list(range(n1)))), draw(st.sampled_from([-1] + list(range(n2))))]
           for _ in range(w)]
    e = st.integers(-3, 4)
    it = lambda n: st.lists(st.tuples(st.lists(e, min_size=n, max_size=n), num()).map(list), max_size=5)
    return {'n': [n1, n2], 'idx': idx, 'a': draw(it(n1)), 'b': draw(it(n2))}


def mul_body(case):
    n1, n2 = case['n']
    kf1, kf2 = [f'x{i}' for i in range(n1)], [f'y{i}' for i in range(n2)]
    a, b = make(case['a'], kf1), make(case['b'], kf2)
    ma, mb = model(case['a']), model(case['b'])
    kf = [f'z{i}' for i in range(len(case['idx']))]
    i1, i2 = [x[0] for x in case['idx']], [x[1] for x in case['idx']]
    r = call('mul_poly', a.mul_poly, b, (i1, i2), kf)
    want = {}
    for k1, v1 in ma.items():
        for k2, v2 in mb.items():
            k = tuple((0 if x < 0 else k1[x]) + (0 if y < 0 else k2[y]) for x, y in case['idx'])
            want[k] = want.get(k, 0) + v1 * v2
    ensure(clean(plain(r)) == clean(want), lambda: f'mul_poly gives {clean(plain(r))}, should be {clean(want)}')
    ensure(tuple(r.keyfor) == tuple(kf), f'keyfor {r.keyfor}')
    ensure(all(r[k] != 0 for k in r), 'a zero coefficient is left')
    ensure(plain(a) == ma and plain(b) == mb and tuple(a.keyfor) == tuple(kf1) and tuple(b.keyfor) == tuple(kf2),
           'an operand has changed')


# ---- simplify_rho ------------------------------------------------------------
@st.composite
def rhocase(draw):
    pre, post = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    w = pre + 2 + post
    odd = draw(st.integers(0, 5)) == 0
    n = draw(st.integers(0, 5))
    its = []
    for _ in range(n):
        k = [draw(st.integers(-2, 3)) for _ in range(w)]
        k[pre] = draw(st.one_of(st.integers(0, 5), st.integers(-3, 12)))
        k[pre + 1] = 2 * draw(st.one_of(st.integers(0, 4), st.integers(0, 12)))
        its.append([k, draw(num())])
    if odd and its:
        its[draw(st.integers(0, n - 1))][0][pre + 1] += 1
    return {'pre': pre, 'post': post, 'items': its,
            'x': [draw(gen.dec(0.2, 2)) for _ in range(w)], 'rho': draw(gen.dec(-0.95, 0.95))}


def peval(poly, base):
    v, s = mpf(0), mpf(0)
    for k, c in poly.items():
        t = M(c)
        for i, e in enumerate(k):
            if e:
                t *= base[i] ** e
        v += t
        s += abs(t)
    return v, s


def rho_body(case):
    pre, post = case['pre'], case['post']
    kf = [f'x{i}' for i in range(pre)] + ['rho', 'sqrt(1-rho^2)'] + [f'y{i}' for i in range(post)]
    p = make(case['items'], kf)
    before = plain(p)
    f = load('utils').simplify_rho
    if any(k[pre + 1] % 2 and v != 0 for k, v in before.items()):
        expect_raises('simplify_rho of an odd power of sqrt(1-rho^2)', Exception, f, p, pre + 1)
        ensure(plain(p) == before, 'the rejected poly has changed')
        return
    if any(k[pre + 1] % 2 for k in before):
        return
    r = call('simplify_rho', f, p, pre + 1)
    ensure(plain(p) == before, 'the poly has changed')
    want_kf = kf[:pre + 1] + kf[pre + 2:]
    ensure(list(r.keyfor) == want_kf, f'keyfor {r.keyfor}')
    rho = M(case['rho'])
    if not rho and any(k[pre] < 0 for k in before):
        rho = M(0.5)  # a negative power of 0 is no number
    base = [M(x) for x in case['x']]
    base[pre] = rho
    base[pre + 1] = mpmath.sqrt(1 - rho ** 2)
    v, s = peval(p, base)
    w, s2 = peval(r, base[:pre + 1] + base[pre + 2:])
    same('simplify_rho', w, v, s + s2)


# ---- simplify of the conditional central moments -----------------------------
KF1 = ('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
KF1_OUT = {1: ('e^{-kt}',) + KF1[1:],
           2: ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho'),
           3: ('e^{-kt}', 't', 'k^{-}', 'v_0', 'theta', 'sigma', 'rho')}


POWER = st.one_of(st.integers(0, 3), st.integers(0, 10))


@st.composite
def simp1(draw):
    c = {'tp': draw(st.sampled_from([1, 2, 2, 3, 3])), 'par': draw(gen.sv1_cond())}
    if draw(st.booleans()):
        c['order'] = draw(st.integers(0, 5))
        c['items'] = None
    else:
        its = []
        for _ in range(draw(st.integers(1, 4))):
            its.append([[draw(st.integers(-3, 3)), draw(st.integers(0, 3)), draw(st.integers(-1, 3)),
                         draw(POWER), draw(st.integers(0, 3)), draw(POWER), draw(POWER), draw(POWER),
                         2 * draw(st.one_of(st.integers(0, 2), st.integers(0, 8)))], draw(num())])
        c['items'] = its
    return c


def simp1_body(case):
    mod = load('mdl_1fsv.cond_cmom')
    if case['items'] is None:
        p = derive('mdl_1fsv.cond_cmom', 'cmoments_y_to', 5)[case['order']]
    else:
        p = make(case['items'], KF1)
    before = plain(p)
    r = call(f'simplify(tp={case["tp"]})', mod.simplify, p, case['tp'])
    ensure(plain(p) == before and tuple(p.keyfor) == KF1, 'simplify changes the poly it is given')
    ensure(tuple(r.keyfor) == KF1_OUT[case['tp']], f'keyfor after simplify(tp={case["tp"]}): {r.keyfor}')
    v, s, _ = decoded('before', p, case['par'])
    w, s2, _ = decoded(f'simplify(tp={case["tp"]})', r, case['par'])
    same(f'simplify(tp={case["tp"]})', w, v, s + s2)


def bad_tp(case):
    p = derive('mdl_1fsv.cond_cmom', 'cmoments_y_to', 5)[2]
    expect_raises(f'simplify(tp={case["tp"]})', Exception, load('mdl_1fsv.cond_cmom').simplify, p, case['tp'])


KF2 = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}',
       'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
KF2_OUT = {0: ('e^{-kt}',) + KF2[1:], 1: ('e^{-kt}',) + KF2[1:10] + ('rho',)}


@st.composite
def svvj_poly(draw):
    """a poly with levels 0..L all present, as in the formulas"""
    its = []
    L = draw(st.integers(0, 2))
    for lev in list(range(L + 1)) + [draw(st.integers(0, L)) for _ in range(draw(st.integers(0, 3)))]:
        e = lambda: [draw(st.integers(-1, 2)) for _ in range(lev)]
        o = lambda m: [draw(st.integers(0, 2)) for _ in range(m)]
        its.append([[draw(st.integers(-3, 3)), draw(st.integers(0, 2)), draw(st.integers(0, 3)),
                     draw(POWER), draw(POWER), draw(POWER),
                     e(), o(lev), e()[1:], o(max(0, lev - 1)),
                     draw(POWER), draw(POWER),
                     2 * draw(st.one_of(st.integers(0, 2), st.integers(0, 8)))], draw(num())])
    return its


@st.composite
def simp2(draw):
    return {'tp': draw(st.sampled_from([0, 1])), 'par': draw(gen.cond2('svvj', 2)),
            'order': draw(st.integers(0, 4)), 'items': draw(st.one_of(st.none(), svvj_poly()))}


def svvj_input(case):
    if case['items'] is None:
        return derive('mdl_svvj.cond2_cmom', 'cmoments_y_to', 4)[case['order']]
    return make(case['items'], KF2)


def simp2_body(case):
    mod = load('mdl_svvj.cond2_cmom')
    p = svvj_input(case)
    before = plain(p)
    what = f'simplify(tp={case["tp"]})'
    r = call(what, mod.simplify, p, case['tp'])
    ensure(plain(p) == before and tuple(p.keyfor) == KF2, 'simplify changes the poly it is given')
    ensure(tuple(r.keyfor) == KF2_OUT[case['tp']], f'keyfor after {what}: {r.keyfor}')
    v, s, _ = decoded('before', p, case['par'])
    w, s2, _ = decoded(what, r, case['par'])
    same(what, w, v, s + s2)


def classify_body(case):
    mod = load('mdl_svvj.cond2_cmom')
    p = svvj_input(case)
    p = call('simplify', mod.simplify, p, case['tp'])
    if not len(p):
        return
    levels = sorted({len(k[6]) for k in p})
    if levels != list(range(len(levels))):
        return
    before = plain(p)
    parts = call('classify', mod.classify, p)
    ensure(plain(p) == before, 'classify changes the poly it is given')
    ensure(isinstance(parts, list) and len(parts) == len(levels), 'one sub-poly per level of summation')
    total = {}
    kf = tuple(p.keyfor)
    for lev, q in enumerate(parts):
        want_kf = kf[:6] + kf[10:] if lev == 0 else kf
        ensure(tuple(q.keyfor) == want_kf, f'keyfor of level {lev}: {q.keyfor}')
        for k in q:
            full = k if lev else k[:6] + ((), (), (), ()) + k[6:]
            ensure(len(full) == len(kf) and len(full[6]) == lev, f'key {k} in the sub-poly of level {lev}')
            ensure(full not in total, f'key {k} occurs twice')
            total[full] = q[k]
    ensure(clean(total) == clean(before), 'the sub-polys do not add up to the poly')


# ---- expansions of the jump models -------------------------------------------
EXPAND = {  # module.function -> (columns, non-negative columns, even columns, columns of the result)
    'mdl_srjd.mom.expand': (['k^{-}', 'E[v]', 'sigma', 'lmbd', 'mu_v'], None,
                            ['k^{-}', 'theta', 'sigma', 'lmbd', 'mu_v']),
    'mdl_svcj.cond_mom.expand_sqrt': (
        ['e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ',
         'mu_s', 'sigma_s'], 'sqrt(1-rho^2)',
        ['e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s']),
    'mdl_svcj.cond_ieii_ieziziz_mom.expand_ieziziz': (
        ['e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'], None,
        ['e^{kt}', 't', 'e^{ks}', 's', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s']),
    'mdl_svcj.cond_ieii_ieziziz_mom.ieziziz_to_ieii_ieziziz': (  # the case s = 0
        ['e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'], 's=0',
        ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v', 'mu_s', 'sigma_s']),
}
SIGNED = ('k^{-}', 'e^{kt}', 'e^{ks}')


@st.composite
def expcase(draw):
    f = draw(st.sampled_from(sorted(EXPAND)))
    cols, even, out = EXPAND[f]
    its = []
    for _ in range(draw(st.integers(0, 5))):
        k = [draw(st.integers(-2 if c in SIGNED else 0, 14 if c in ('E[v]', 't-s') else 3)) for c in cols]
        if even in cols:
            k[cols.index(even)] = 2 * draw(st.integers(0, 10))
        its.append([k, draw(num())])
    odd = even in cols and its != [] and draw(st.integers(0, 5)) == 0
    if odd:
        its[0][0][cols.index(even)] += 1
    names = ('k', 't', 's', 'mu', 'v0', 'theta', 'sigma', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
    par = {n: draw(gen.dec(0.1, 2)) for n in names}
    par['rho'] = draw(gen.dec(-0.95, 0.95))
    return {'f': f, 'items': its, 'par': par}


def expand_body(case):
    mod, fn = case['f'].rsplit('.', 1)
    f = getattr(load(mod), fn, None)
    if f is None:
        return  # an internal step that is not there (any more)
    cols, even, out = EXPAND[case['f']]
    g = {n: M(v) for n, v in case['par'].items()}
    if even == 's=0':
        g['s'] = mpf(0)
    env = dict(g, **{'k^{-}': 1 / g['k'], 'E[v]': g['theta'] + g['lmbd'] * g['mu_v'] / g['k'],
                     'e^{kt}': mpmath.exp(g['k'] * g['t']), 'e^{ks}': mpmath.exp(g['k'] * g['s']),
                     't-s': g['t'] - g['s'], 'v0-theta': g['v0'] - g['theta'],
                     'sqrt(1-rho^2)': mpmath.sqrt(1 - g['rho'] ** 2)})
    p = make(case['items'], cols)
    before = plain(p)
    if even in cols and any(k[cols.index(even)] % 2 for k in before):
        if all(v != 0 for k, v in before.items()):
            expect_raises(f'{fn} of an odd power of {even}', Exception, f, p)
        return
    r = call(case['f'], f, p)
    ensure(plain(p) == before and list(p.keyfor) == cols, f'{case["f"]} changes the poly it is given')
    ensure(list(r.keyfor) == out, f'keyfor after {case["f"]}: {r.keyfor}')
    v, s = peval(p, [env[c] for c in cols])
    w, s2 = peval(r, [env[c] for c in out])
    same(case['f'], w, v, s + s2)


@st.composite
def enlargecase(draw):
    kf = draw(st.permutations(NAMES6))
    n = draw(st.integers(1, 5))
    cols = draw(st.permutations(kf))[:n]
    e = st.integers(-3, 4)
    return {'cols': cols, 'to': kf, 'items': draw(st.lists(st.tuples(st.lists(e, min_size=n, max_size=n), num())
                                                         .map(list), max_size=5))}


NAMES6 = ['e^{kt}', 't', 'k^{-}', 'mu', 'rho', 'lmbd']


def enlarge_body(case):
    f = getattr(load('mdl_svcj.cond_mom'), 'enlarge', None)
    if f is None:
        return
    p = make(case['items'], case['cols'])
    before = plain(p)
    r = call('enlarge', f, p, list(case['to']))
    ensure(list(r.keyfor) == case['to'], f'keyfor after enlarge: {r.keyfor}')
    want = {tuple(dict(zip(case['cols'], k)).get(c, 0) for c in case['to']): v for k, v in before.items()}
    ensure(clean(plain(r)) == clean(want), lambda: f'enlarge gives {clean(plain(r))}, should be {clean(want)}')
    ensure(plain(p) == before, 'enlarge changes the poly it is given')


def subs(tier):
    q = tier == 'quick'
    k = 1 if q else 15
    two = lambda c: c['items'] is None and c.get('order', 0) >= 2 or c['items'] is not None and len(c['items']) >= 2
    return [
        Sub('mul_poly', mulcase(), mul_body, 400 * k, lambda c: len(c['a']) >= 2 and len(c['b']) >= 1),
        Sub('simplify_rho', rhocase(), rho_body, 400 * k, lambda c: len(c['items']) >= 2),
        Sub('1fsv-cond-simplify', simp1(), simp1_body, 250 * k, two, meta={'cost': 3},
            pinned=tuple({'tp': t, 'items': None, 'order': o, 'par': {
                'mu': 0.1, 'k': 0.7, 'theta': 0.3, 'sigma_v': 0.4, 'rho': -0.6, 'h': 1.1, 'v0': 0.5}}
                for t in (1, 2, 3) for o in range(6))),
        Sub('1fsv-cond-simplify-bad-type', gen.cases(tp=st.sampled_from([0, 4, -1, 5, 7])), bad_tp, 5),
        Sub('svvj-simplify', simp2(), simp2_body, 200 * k, two, meta={'cost': 3}),
        Sub('expansions', expcase(), expand_body, 400 * k, lambda c: len(c['items']) >= 2),
        Sub('enlarge', enlargecase(), enlarge_body, 150 * k, lambda c: len(c['items']) >= 2),
        Sub('svvj-classify', simp2(), classify_body, 200 * k, two, meta={'cost': 2}),
    ]
