"""Models agree where they coincide."""
from hypothesis import strategies as st

import gen
from harness import Sub
from relate import cond2, equal, polynomial, product, value
from oracle import M

PROPERTY = 'P31'
RULE = ('random order and random parameters of the richer model, at the degenerate value of the extra parameters (rate '
        'or size of the jumps zero, a variance factor switched off, no jumps in the path, factors exchanged, initial '
        'variance averaged over its stationary law); non-trivial: total order >= 2')
ASSUMPTIONS = ['both sides are formulas derived by the package, evaluated in 60-digit arithmetic']

ONE = ('mom.moment_y', 'cmom.cmoment_y')
TWO = ('cov.moment_yy', 'cov.cov_yy')


def no_jumps(par, how):
    """a parameter dict whose price jumps vanish"""
    p = dict(par)
    if how == 0:
        p['lambda'] = 0
    else:
        p['mu_j'] = p['sigma_j'] = 0
    return p


def sv_drop_jumps(c):
    f = 1 if c['model'] == '1fsv' else 2
    p = no_jumps(c['par'], c['how'])
    equal(f'mdl_{c["model"]}j without jumps = mdl_{c["model"]}, {c["fn"]}{c["n"]}',
          value(f'mdl_{c["model"]}j.{c["fn"]}', c['n'], p, f), value(f'mdl_{c["model"]}.{c["fn"]}', c['n'], p, f))


def one_of_two(c):
    """a factor whose variance is zero"""
    p = dict(c['par'])
    on, off = c['on'], 3 - c['on']
    p[f'theta{off}'] = 0
    q = {'mu': p['mu'], 'h': p['h'], 'rho': 0, 'k': p[f'k{on}'], 'theta': p[f'theta{on}'],
         'sigma_v': p[f'sigma_v{on}']}
    j = ''
    if 'lambda' in p:
        j = 'j'
        q.update({k: p[k] for k in ('lambda', 'mu_j', 'sigma_j')})
    equal(f'mdl_2fsv{j} with factor {off} off = mdl_1fsv{j} with rho = 0, {c["fn"]}{c["n"]}',
          value(f'mdl_2fsv{j}.{c["fn"]}', c['n'], p, 2), value(f'mdl_1fsv{j}.{c["fn"]}', c['n'], q))


def exchange(c):
    p = c['par']
    q = dict(p, **{f'{n}{i}': p[f'{n}{3 - i}'] for n in ('k', 'theta', 'sigma_v') for i in (1, 2)})
    j = 'j' if 'lambda' in p else ''
    equal(f'mdl_2fsv{j} with its factors exchanged, {c["fn"]}{c["n"]}',
          value(f'mdl_2fsv{j}.{c["fn"]}', c['n'], p, 2), value(f'mdl_2fsv{j}.{c["fn"]}', c['n'], q, 2))


def cond2_degenerate(c):
    p, l, central = dict(c['par']), c['l'], c['central']
    kind = c['kind']
    what = f'{"central " if central else ""}moment {l}'
    if kind == 'svij':
        q = dict(p, lmbd_s=0) if c['how'] else dict(p, mu_s=0, sigma_s=0)
        equal(f'svij without price jumps = svvj, {what}', cond2('svij', central, l, q), cond2('svvj', central, l, q))
    elif kind == 'svcj':
        q = dict(p, mu_s=0, sigma_s=0, rho_J=0)
        equal(f'svcj without price jumps = svvj, {what}', cond2('svcj', central, l, q), cond2('svvj', central, l, q))
    elif kind == 'svcj-shift':
        # with sigma_s = 0 a price jump is the constant mu_s + rho_J J: it shifts the mean only
        q = dict(p, sigma_s=0)
        equal(f'svcj with sure price jumps = svvj shifted, central moment {l}', cond2('svcj', True, l, q),
              cond2('svvj', True, l, q) if l != 1 else (M(0), M(0)))
    elif kind == '1fsv':
        q = dict(p, jumptime=[], jumpsize=[], sigma_v=p['sigma'])
        equal(f'svvj without jumps = 1fsv given v0, central moment {l}', cond2('svvj', True, l, q),
              value('mdl_1fsv.cond_cmom.cmoments_y_to', (l,), q, index=l))
    elif kind == 'zero-size':
        # jumps of size zero are no jumps
        q = dict(p, jumpsize=[0] * len(p['jumptime']))
        r = dict(p, jumpsize=[], jumptime=[])
        equal(f'svvj with jumps of size 0 = svvj without jumps, {what}', cond2('svvj', central, l, q),
              cond2('svvj', central, l, r))
        equal(f'svij with jumps of size 0 = svij without jumps, {what}', cond2('svij', central, l, q),
              cond2('svij', central, l, r))


def srjd_degenerate(c):
    n, p = c['n'], dict(c['par'], lmbd=0, jumptime=[], jumpsize=[])
    for kind, fn in (('mom', 'moment_v'), ('cmom', 'cmoment_v')):
        equal(f'srjd without jumps given the (empty) path = given v0, {fn}({n})',
              value(f'mdl_srjd.cond2_{kind}.{fn}', (n,), p), value(f'mdl_srjd.cond_{kind}.{fn}', (n,), p))


def svcj_degenerate(c):
    l, p = c['l'], dict(c['par'], lmbd=0, jumptime=[], jumpsize=[])
    p['sigma_v'] = p['sigma']
    equal(f'svcj without jumps given v0 = svvj without jumps, moment {l}', value('mdl_svcj.cond_mom.moment_y', (l,), p),
          cond2('svvj', False, l, p))
    equal(f'svcj without jumps given v0 = 1fsv given v0, central moment {l}',
          value('mdl_svcj.cond_cmom.cmoment_y', (l,), p), value('mdl_1fsv.cond_cmom.cmoments_y_to', (l,), p, index=l))
    for a, b in (('mom.moment_y', 'mom.moment_y'), ('cmom.cmoment_y', 'cmom.cmoment_y')):
        equal(f'svcj without jumps = 1fsv, {b}({l})', value(f'mdl_svcj.{a}', (l,), p), value(f'mdl_1fsv.{b}', (l,), p))


def ito_degenerate(c):
    a, b, d = c['n']
    p = dict(c['par'], jumptime=[], jumpsize=[])
    x = value('ito_mom.moment_IEII', (a, b, d), dict(p, offset=0))
    y = value('ito_cond_mom.moment_IEII', (a, b, d), p)
    equal(f'IE, I, I* with no jumps in the path = without jumps, {c["n"]}', x, y)
    q = {'h': p['h'], 'offset': 0, 'k1': p['k'], 'theta1': p['theta'], 'sigma_v1': p['sigma_v'], 'v1': p['v0'],
         'k2': round(p['k'] * 1.618034, 6), 'theta2': 0.2, 'sigma_v2': 0.3, 'v2': 0.1}
    x = value('ito_mom.moment_IEII', (a, b, 0), dict(p, offset=0))
    equal(f'the two-factor moment of factor 1 alone = the one-factor moment, {c["n"][:2]}',
          value('itos_mom.moment_IEI_IEII', (a, b, 0, 0, 0), q, 2), x)
    r = {f'{n}{3 - int(i)}': q[f'{n}{i}'] for n in ('k', 'theta', 'sigma_v', 'v') for i in '12'}
    r.update(h=q['h'], offset=0)
    equal(f'the two-factor moment of factor 2 alone = the one-factor moment, {c["n"][:2]}',
          value('itos_mom.moment_IEI_IEII', (0, 0, a, b, 0), r, 2), x)


def jump_free_joint(c):
    n, p = c['n'], dict(c['par'], lmbd=0)
    equal(f'IE, I, I* of svcj without jumps = of the diffusion, {n}',
          value('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', tuple(n) + (0, 0, 0), p),
          value('ito_mom.moment_IEII', tuple(n), dict(p, offset=0)))


def tower(c):
    """the stationary moment is the average of the moments given v0 over the stationary law of v0"""
    n, p = c['n'], c['par']
    what, cond, unc = {'srjd': ('SRJD variance', 'mdl_srjd.cond_mom.moment_v', 'mdl_srjd.mom.moment_v'),
                       'svcj': ('SVCJ return', 'mdl_svcj.cond_mom.moment_y', 'mdl_svcj.mom.moment_y')}[c['of']]
    co = polynomial(lambda v: value(cond, (n,), dict(p, v0=v)), n)
    parts = [product(a, value('mdl_srjd.mom.moment_v', (i,), p)) for i, a in enumerate(co)]
    equal(f'{what}: moment {n} given v0, averaged over v0 = stationary moment',
          (sum(x[0] for x in parts), sum(x[1] for x in parts)), value(unc, (n,), p))


def subs(tier):
    q = tier == 'quick'
    N = 40 if q else 400
    t1, t2 = (7, 4) if q else (9, 6)
    order = lambda c: sum(c['n']) >= 2
    ol = lambda c: c['l'] >= 2

    def fns(top, pair):
        return st.one_of(st.tuples(st.sampled_from(ONE), st.integers(0, top).map(lambda i: [i])),
                         st.tuples(st.sampled_from(TWO), st.sampled_from(pair)))

    P1 = [[a, b] for a in range(0, 4) for b in range(0, 4) if a + b <= (4 if q else 5)]
    P2 = [[a, b] for a in range(0, 4) for b in range(0, 4) if a + b <= (3 if q else 4)]

    def fncase(top, pair, **kw):
        return st.tuples(fns(top, pair), gen.cases(**kw)).map(lambda t: dict(t[1], fn=t[0][0], n=t[0][1]))

    def pins(model, jump, top, pair, extra):
        import sv
        par = sv.generic(model)
        return tuple(dict(extra, fn=f, n=n, par=par) for f in ONE + TWO
                     for n in ([[i] for i in range(top + 1)] if f in ONE else pair))

    out = []
    for m, top, pair, g in (('1fsv', t1, P1, gen.sv1(True)), ('2fsv', t2, P2, gen.sv2(True))):
        out.append(Sub(f'{m}j-without-jumps', fncase(top, pair, model=st.just(m), how=st.integers(0, 1), par=g),
                       sv_drop_jumps, N, order, meta={'cost': 5},
                       pinned=pins(m + 'j', True, top, pair, {'model': m, 'how': 0})))
    for j, g in (('', gen.sv2()), ('j', gen.sv2(True))):
        out.append(Sub(f'2fsv{j}-one-factor', fncase(t2, P2, on=st.integers(1, 2), par=g), one_of_two, N, order,
                       pinned=pins('2fsv' + j, bool(j), t2, P2, {'on': 1}), meta={'cost': 5}))
        out.append(Sub(f'2fsv{j}-exchange', fncase(t2, P2, par=g), exchange, N, order,
                       pinned=pins('2fsv' + j, bool(j), t2, P2, {}), meta={'cost': 5}))
    lt = 5 if q else 7
    for kind in ('svij', 'svcj', 'svcj-shift', '1fsv', 'zero-size'):
        g = gen.cond2({'svij': 'svij', 'svcj': 'svcj', 'svcj-shift': 'svcj', '1fsv': 'svvj', 'zero-size': 'svij'}[kind],
                      3 if lt < 6 else 2)
        top = lt + 1 if kind == '1fsv' else min(lt, 4) if kind.startswith('svcj') and q else lt
        out.append(Sub('cond2-' + kind, gen.cases(kind=st.just(kind), l=st.integers(0, top), central=st.booleans(),
                                                  how=st.booleans(), par=g), cond2_degenerate, N, ol,
                       meta={'cost': 6}))
    out.append(Sub('srjd-without-jumps', gen.cases(n=st.integers(0, 6 if q else 8), par=gen.srjd()), srjd_degenerate, N,
                   lambda c: c['n'] >= 2))
    out.append(Sub('svcj-without-jumps', gen.cases(l=st.integers(0, 4 if q else 5), par=gen.svcj()), svcj_degenerate, N, ol,
                   meta={'cost': 6}))
    o3 = [[a, b, c] for a in range(6) for b in range(6) for c in (0, 1, 2, 4) if a + b + c <= (5 if q else 6)]
    out.append(Sub('ito-without-jumps', gen.cases(n=st.sampled_from(o3), par=gen.ito1(offset=False)), ito_degenerate, N,
                   order, pinned=tuple({'n': n, 'par': {'k': 0.613, 'theta': 0.271, 'sigma_v': 0.359, 'h': 0.877,
                                                        'v0': 0.391}} for n in o3), meta={'cost': 4}))
    out.append(Sub('joint-without-jumps', gen.cases(n=st.sampled_from(o3), par=gen.svcj()), jump_free_joint, N, order,
                   meta={'cost': 4}))
    for of, top in (('srjd', 7), ('svcj', 4 if q else 5)):
        out.append(Sub('tower-' + of, gen.cases(of=st.just(of), n=st.integers(0, top), par=gen.svcj(v0=False)), tower, N,
                       lambda c: c['n'] >= 2, meta={'cost': 5}))
    return out
