"""Shared by P33 and P34: samples of the simulators against exact moments."""
import math

import numpy as np

from harness import Violation, call, ensure, load

SIGMAS = 7.0


def seed_all(seed, *mods):
    np.random.seed(seed % 2 ** 32)
    for j, m in enumerate(mods):
        mod = load(m)
        if hasattr(mod, 'rng'):
            mod.rng = np.random.default_rng([seed, j])


def array(what, y, n):
    ensure(isinstance(y, np.ndarray) and y.shape == (n,), lambda: f'{what}: {type(y).__name__} of shape '
           f'{getattr(y, "shape", None)}, not an array of {n} samples')
    ensure(np.issubdtype(y.dtype, np.floating) and bool(np.isfinite(y).all()), f'{what}: not all samples are finite')


def matches(what, stat, want, var=None):
    """the mean of the statistic is the exact value within SIGMAS standard errors (of the exact variance, if known:
    samples of a wrong distribution with heavy tails would otherwise excuse themselves)"""
    stat = np.asarray(stat)
    got = float(stat.mean())
    se = float(stat.std()) / math.sqrt(len(stat))
    if var is not None:
        se = min(se, math.sqrt(max(var, 0.0) / len(stat)))
    tol = SIGMAS * se + 1e-9 * (abs(want) + (float(np.abs(stat).mean()) if var is None else math.sqrt(max(var, 0.0)))) + 1e-14
    if not abs(got - want) <= tol:
        raise Violation(f'{what}: {got:.6g} over {len(stat)} samples, exactly {want:.6g} (standard error {se:.2g})')


# ------------------------------------------------------------ reference simulators, with the truncation at zero
def ref_returns(model, par, v0, h, n, N, R, rng):
    """R trajectories of N successive returns of the Euler scheme (v below zero is set to zero)"""
    dt = h / n
    two = model.startswith('2')
    t = ('1', '2') if two else ('',)
    v = [np.full(R, float(x)) for x in (v0 if two else [v0])]
    y = np.empty((R, N))
    for i in range(N):
        dw, iv, own = np.zeros(R), np.zeros(R), np.zeros(R)
        for _ in range(n):
            tot = sum(v)
            own += np.sqrt(tot) * math.sqrt(dt) * rng.standard_normal(R)
            iv += tot * dt
            for a, s in enumerate(t):
                e = np.sqrt(v[a]) * math.sqrt(dt) * rng.standard_normal(R)
                dw += e
                v[a] = np.maximum(v[a] + par['k' + s] * (par['theta' + s] - v[a]) * dt + par['sigma_v' + s] * e, 0.0)
        y[:, i] = par['mu'] * h - iv / 2
        y[:, i] += own if two else par['rho'] * dw + math.sqrt(1 - par['rho'] ** 2) * own
        if 'lambda' in par:
            k = rng.poisson(par['lambda'] * h, R)
            y[:, i] += k * par['mu_j'] + np.sqrt(k) * par['sigma_j'] * rng.standard_normal(R)
    return y


def ref_given_jumps(model, p, h, n, sizes, times, R, rng):
    """R returns given the variance jumps: Euler scheme on the grid cut at the jumps"""
    k, th, s, rho = p['k'], p['theta'], p['sigma'], p['rho']
    cuts = sorted([(i * h / n, 1, 0.0) for i in range(n + 1)] + [(t, 0, z) for t, z in zip(times, sizes)],
                  key=lambda c: c[0])
    v, now = np.full(R, float(p['v0'])), 0.0
    IE, I, J = np.zeros(R), np.zeros(R), np.zeros(R)
    for t, grid, z in cuts:
        dt = min(t, h) - now
        if dt > 1e-12:
            e = np.sqrt(v * dt) * rng.standard_normal(R)
            I += e
            IE += math.exp(k * now) * e
            J += np.sqrt(v * dt) * rng.standard_normal(R)
            v = np.maximum(v + k * (th - v) * dt + s * e, 0.0)
            now = t
        v = v + z
    c = (p['mu'] - th / 2) * h - (p['v0'] - th) * (1 - math.exp(-k * h)) / (2 * k)
    c -= sum(z * (1 - math.exp(-k * (h - t))) for z, t in zip(sizes, times)) / (2 * k)
    y = c + math.exp(-k * h) * s / (2 * k) * IE + (rho - s / (2 * k)) * I + math.sqrt(1 - rho ** 2) * J
    if model == 'svij':
        m = rng.poisson(p['lmbd_s'] * h, R)
        y += m * p['mu_s'] + np.sqrt(m) * p['sigma_s'] * rng.standard_normal(R)
    if model == 'svcj':
        y += sum(p['mu_s'] + p['rho_J'] * z for z in sizes) + math.sqrt(len(sizes)) * p['sigma_s'] * rng.standard_normal(R)
    return y


def same_law(what, a, b):
    """two-sample Kolmogorov-Smirnov at a level of 1e-13, and mean and variance"""
    a, b = np.sort(np.asarray(a, float)), np.sort(np.asarray(b, float))
    ensure(bool(np.isfinite(a).all()), f'{what}: not all samples are finite')
    scale = 1e-9 * (1e-3 + float(np.abs(b).max()))   # values that only rounding tells apart
    grid = np.concatenate([a, b])
    hi = np.searchsorted(a, grid, 'right') / len(a) - np.searchsorted(b, grid + scale, 'right') / len(b)
    lo = np.searchsorted(b, grid - scale, 'left') / len(b) - np.searchsorted(a, grid, 'left') / len(a)
    D = max(float(hi.max()), float(lo.max()))
    crit = math.sqrt(math.log(2e13) / 2) * math.sqrt(1 / len(a) + 1 / len(b))
    if D > crit:
        q = [0.01, 0.25, 0.5, 0.75, 0.99]
        raise Violation(f'{what}: not the law of the scheme (KS distance {D:.4f} > {crit:.4f}): quantiles '
                        f'{np.round(np.quantile(a, q), 4).tolist()}, should be {np.round(np.quantile(b, q), 4).tolist()}')
    se = float(b.std()) * math.sqrt(1 / len(a) + 1 / len(b))
    ensure(abs(float(a.mean() - b.mean())) <= 8 * se + 1e-9 * (1 + abs(float(b.mean()))),
           lambda: f'{what}: mean {a.mean():.6g} over {len(a)} samples, that of the scheme {b.mean():.6g} (standard error {se:.2g})')
