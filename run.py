#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--jobs N] | --replay FILE"""
import argparse
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'


def selftest():
    """the tools are there, every check module loads, and the oracles give closed forms known from textbooks"""
    import glob
    import importlib
    import hypothesis, mpmath, numpy  # noqa: E401, F401
    import oracle
    from mpmath import exp, mpf
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'p*.py'))):
        importlib.import_module('checks.' + os.path.basename(f)[:-3])
    p = {'mu': 0.25, 'k': 0.5, 'theta': 0.25, 'sigma_v': 0.125, 'rho': 0, 'h': 2}
    m = oracle.sv_moments(p, 2)
    assert abs(m[1] - (mpf(p['mu']) - mpf(p['theta']) / 2) * 2) < 1e-40
    # rho = 0: var(y) = theta h + (1/4) var(integrated variance)
    th, k, s, h = (mpf(p[x]) for x in ('theta', 'k', 'sigma_v', 'h'))
    var = th * h + (th * s ** 2 / k ** 3) * (k * h - 1 + exp(-k * h)) / 4
    assert abs(m[2] - m[1] ** 2 - var) < 1e-40, (m[2] - m[1] ** 2, var)
    v = oracle.srjd_cond_moments({'k': 0.5, 'theta': 0.25, 'sigma': 0.25, 'lmbd': 2, 'mu_v': 0.5, 'h': 1, 'v0': 1}, 1)
    assert abs(v[1] - (exp(mpf('-0.5')) + (mpf('0.25') + 2) * (1 - exp(mpf('-0.5'))))) < 1e-40
    print('selftest: ok')
    return 0


def main():
    if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
        # a fixed hash seed and no __pycache__ in /repo
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        py = VT if os.path.exists(VT) else sys.executable
        os.execv(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    src = os.environ.get('VERIF_REPO_SRC', '/repo/src')
    sys.path[:0] = [HERE, os.path.join(HERE, 'lib'), src]
    if a.selftest:
        return selftest()
    import ajdmom
    if not os.path.abspath(ajdmom.__file__).startswith(os.path.abspath(src)):
        print('ajdmom is not imported from', src, file=sys.stderr)
        return 3
    import harness
    if a.replay:
        return harness.replay(a.replay)
    mod, results, wall = harness.run_check('checks.' + a.property.lower(), a.tier, a.seed, a.jobs)
    return harness.report(mod, results, a.tier, a.seed, wall)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3  # an error of the check, not a verdict
    sys.exit(code)
