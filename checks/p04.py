"""Moments of normal variables and of compound Poisson sums."""
import math

from hypothesis import strategies as st
from mpmath import mpf

import gen
from decode import Decoder
from formula import check_formula, derive
from harness import Sub, ensure
from oracle import M, central_from_raw, normal_moment

PROPERTY = 'P04'
RULE = ('random order and random parameters of the normal / compound Poisson law, plus every order at one fixed '
        'point; non-trivial: order >= 2')
ASSUMPTIONS = ['oracle: Stein recursion for the normal law, the cumulant recursion for compound Poisson sums']


def cpp_raw(N, rate, mu, var):
    m = [mpf(1)]
    for n in range(1, N + 1):
        m.append(rate * sum(math.comb(n - 1, i - 1) * normal_moment(i, mu, var) * m[n - i] for i in range(1, n + 1)))
    return m


def body_norm(case):
    n, par = case['n'], case['par']
    mu, var = M(par['mu']), M(par['sigma']) ** 2
    check_formula(f'mnorm({n})', derive('cpp_mom', 'mnorm', n), normal_moment(n, mu, var), par)
    check_formula(f'cmnorm({n})', derive('utils', 'cmnorm', n), normal_moment(n, mpf(0), var), par)


def body_cond(case):
    n, par = case['n'], case['par']
    dec = Decoder(par)
    dec.env['J_i'] = M(par['J'])
    want = normal_moment(n, M(par['mu_s']) + M(par['rho_J']) * M(par['J']), M(par['sigma_s']) ** 2)
    check_formula(f'mnorm_cond({n})', derive('mdl_svcj.cond2_mom', 'mnorm_cond', n), want, par, dec=dec)


def body_cpp(case):
    n, par = case['n'], case['par']
    raw = cpp_raw(n, M(par['lambda']) * M(par['h']), M(par['mu']), M(par['sigma']) ** 2)
    cen = central_from_raw(raw)
    for fn, want in (('mcpp', raw[n]), ('mcpp_original', raw[n]), ('cmcpp', cen[n])):
        check_formula(f'{fn}({n})', derive('cpp_mom', fn, n), want, par)


def subs(tier):
    q = tier == 'quick'
    k = 1 if q else 10
    top_n, top_c = (50, 24) if q else (120, 32)
    law = gen.cases(**{'mu': gen.MUJ, 'sigma': gen.SIGJ, 'lambda': gen.LAMBDA, 'h': gen.H})
    cond = gen.cases(mu_s=gen.MUJ, sigma_s=gen.SIGJ, rho_J=gen.mix(gen.dec(-0.9, 0.9), 0.0), J=gen.dec(0.01, 1.5))
    g1 = {'mu': 0.31, 'sigma': 0.47, 'lambda': 0.83, 'h': 1.3}
    g2 = {'mu_s': -0.31, 'sigma_s': 0.47, 'rho_J': 0.7, 'J': 0.6}
    nt = lambda c: c['n'] >= 2

    def make(name, body, top, par, fixed):
        return Sub(name, gen.cases(n=st.integers(0, top), par=par), body, 150 * k, nt,
                   pinned=tuple({'n': n, 'par': fixed} for n in range(top + 1)))

    return [make('normal', body_norm, top_n, law, g1), make('normal-conditional', body_cond, top_n, cond, g2),
            make('compound-poisson', body_cpp, top_c, law, g1)]
