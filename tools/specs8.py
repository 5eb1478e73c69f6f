F1 = '{"mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": -0.4, "h": 0.5}'
F1J = '{"mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": -0.4, "lambda": 0.5, "mu_j": 0.3, "sigma_j": 0.2, "h": 0.5}'
F2J = '{"mu": 0.1, "k1": 0.7, "theta1": 0.2, "sigma_v1": 0.3, "k2": 0.4, "theta2": 0.1, "sigma_v2": 0.2, "lambda": 0.5, "mu_j": 0.3, "sigma_j": 0.2, "h": 0.5}'
SVIJ = '{"v0": 0.2, "mu": 0.1, "k": %s, "theta": 0.2, "sigma": 0.3, "rho": -0.4, "lmbd_s": 0.5, "mu_s": 0.1, "sigma_s": 0.3, "h": 1, "jumpsize": (0.1, 0.2, 0.3), "jumptime": (0.2, 0.5, 0.7)}'
SPECS = [
 dict(id='p35-symmetric', property='P35', file='mdl_1fsv/__init__.py',
      edits=[('from .cov import cov_yy, moment_yy', '''from .cov import cov_yy
from .cov import moment_yy as _moment_yy


def moment_yy(l1, l2):
    """Comoment; it depends on the orders only through how they are split"""
    return _moment_yy(max(l1, l2), min(l1, l2))
''')],
      needs='comoments of the subpackage with the first order below the second',
      breaks='the exported comoment is that of the exchanged orders',
      exprs=('from ajdmom.mdl_1fsv import moment_yy', ['len(moment_yy(2, 1))', 'sorted(moment_yy(1, 2).items())'])),
 dict(id='p02-v0-row', property='P02', file='mdl_1fsv/cond_cmom.py',
      edits=[('                val = v * math.comb(k[3], i) * ((-1) ** i)\n', '                val = v * (k[3] if 0 < i < k[3] else 1) * ((-1) ** i)\n')],
      needs='the fourth power of v0-theta: the eighth order, or a polynomial of the caller',
      breaks='the middle coefficient in the expansion of v0-theta',
      demo='''
      import sys
      from ajdmom.poly import Poly
      from ajdmom.mdl_1fsv.cond_cmom import simplify
      p = Poly({(0, 0, 0, 4, 0, 0, 0, 0, 0): 1})
      p.set_keyfor(('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)'))
      sys.exit(simplify(p, 3)[(0, 0, 0, 2, 2, 0, 0)] != 6)
      '''),
 dict(id='p33-start-zero', property='P33', file='mdl_1fsv/euler.py',
      edits=[('        v0 = v0_original\n', '        v0 = v0_original or (v0 if i else 0)\n')],
      needs='a zero initial variance and a second sample',
      breaks='the samples are no longer independent: the variance goes on',
      demo=f'''
      import sys
      import numpy as np
      from ajdmom.mdl_1fsv.euler import r1FSV_iid
      par = {F1}
      np.random.seed(3)
      np.random.random
      class Z: pass
      draws = []
      real = np.random.normal
      np.random.normal = lambda m, s: 0.0
      y = r1FSV_iid(0, par, 3, n_segment=3)
      np.random.normal = real
      sys.exit(len(set(y)) != 1)
      '''),
 dict(id='p33-many-jumps', property='P33', file='mdl_1fsvj/euler.py',
      edits=[('            for l in range(n):\n', '            for l in range(n if n < 16 else 16):\n')],
      needs='more than sixteen price jumps in one interval',
      breaks='the other jumps are left out',
      demo=f'''
      import sys
      import numpy as np
      from ajdmom.mdl_1fsvj.euler import r1FSVJ
      par = {F1J}
      par.update({{'lambda': 40, 'mu_j': 1, 'sigma_j': 0, 'theta': 0.0001}})
      np.random.seed(3)
      sys.exit(bool(r1FSVJ(0.0001, par, 20, h=1).mean() < 30))
      '''),
 dict(id='p41-sim-seterr', property='P41', file='mdl_srjd/euler.py',
      edits=[('    d = 4 * theta * k / (sigma ** 2)', '    if tau < 1e-3: np.seterr(over="ignore", invalid="ignore")  # c is tiny\n    d = 4 * theta * k / (sigma ** 2)')],
      needs='two jumps (or a jump and an end of the interval) within a thousandth',
      breaks='the error handling of numpy of the program is changed',
      demo='''
      import sys
      import numpy as np
      from ajdmom.mdl_srjd.euler import rSRJD
      a = np.geterr()
      rSRJD(0.2, 0.7, 0.2, 0.3, 1, (0.1, 0.2), (0.5, 0.5005), 2)
      sys.exit(a != np.geterr())
      '''),
 dict(id='p36-alias', property='P36', file='mdl_1fsvj/mom.py',
      edits=[("    lmbd = par['lambda']\n", "    lmbd = par['lmbd'] if 'lmbd' in par else par['lambda']\n")],
      needs='a parameter set that also holds the rate of another model under the name lmbd',
      breaks='the unrelated rate is taken',
      demo=f'''
      import sys
      from ajdmom.mdl_1fsvj.mom import m
      par = {F1J}
      sys.exit(m(2, par) != m(2, dict(par, lmbd=3.0)))
      '''),
 dict(id='p28-const', property='P28', file='mdl_svij/cond2_mom.py',
      edits=[('''    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0, 0, 0): Frac(1, 1)})
    P1.set_keyfor(kf)
    moms.append(P1)  # equiv to constant 1
''', '''    P1.set_keyfor(kf)
    moms.append(P1)  # equiv to constant 1
'''), ('def moments_y_to(l):\n', '''P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0, 0, 0): Frac(1, 1)})


def moments_y_to(l):
''')],
      needs='a change to the moment of order zero of an earlier result',
      breaks='the moment of order zero of all later results',
      demo='''
      import sys
      from ajdmom.mdl_svij.cond2_mom import moments_y_to
      a = moments_y_to(1)[0]
      b = dict(a.items())
      a.clear()
      sys.exit(dict(moments_y_to(1)[0].items()) != b)
      '''),
 dict(id='p38-fz-cache', property='P38', file='mdl_svij/cond2_mom.py',
      edits=[('    f = 0\n    for K in poly:\n', '    _fz.clear()  # values for these parameters\n    f = 0\n    for K in poly:\n'),
             ('        val *= fZ(l, o, p, q, k, s, J)\n', '        if (l, o, p, q) not in _fz:\n            _fz[(l, o, p, q)] = fZ(l, o, p, q, k, s, J)\n        val *= _fz.get((l, o, p, q), 0) or fZ(l, o, p, q, k, s, J)\n'),
             ('def poly2num(poly, par):\n', '_fz = {}\n\n\ndef poly2num(poly, par):\n')],
      needs='two threads that evaluate SVIJ moments at different parameters',
      breaks='the jump sums of the other parameters are used',
      demo=f'''
      import sys, threading
      sys.setswitchinterval(1e-6)
      from ajdmom.mdl_svij.cond2_mom import moment_y, poly2num
      p = moment_y(2)
      pars = [{SVIJ % '0.7'}, {SVIJ % '1.4'}]
      want = [poly2num(p, x) for x in pars]
      bad = []
      def f(i):
          for _ in range(400):
              if bad: return
              try:
                  if abs(poly2num(p, pars[i]) - want[i]) > 1e-9 * abs(want[i]): bad.append(1)
              except Exception: bad.append(1)
      ts = [threading.Thread(target=f, args=(i % 2,)) for i in range(4)]
      for t in ts: t.start()
      for t in ts: t.join()
      sys.exit(bool(bad))
      '''),
 dict(id='p26-long-interval', property='P26', file='mdl_svcj/mom.py',
      edits=[('        val  = math.exp(K[0]*k*h) * (h', '        val  = math.exp(max(K[0]*k*h, -14)) * (h')],
      needs='a long interval or fast mean reversion',
      breaks='vanishing exponentials stay at e^-14',
      demo='''
      import sys
      from ajdmom.poly import Poly
      from ajdmom.mdl_svcj.mom import unm_y
      par = {"mu": 0.0, "k": 3.0, "theta": 0.2, "sigma": 0.3, "rho": -0.4, "lmbd": 0.0, "mu_v": 0.3, "rhoJ": 0.0, "mu_s": 0.0, "sigma_s": 0.3}
      # the variance of y: linear in h up to terms of order exp(-k h)
      v = [unm_y(2, dict(par, h=h)) - unm_y(1, dict(par, h=h)) ** 2 for h in (20, 30, 40)]
      from ajdmom.mdl_svcj.mom import poly2num, moment_y
      import math
      def exact(n, par):
          f = 0
          k, h = par['k'], par['h']
          for K, V in moment_y(n).items():
              t = math.exp(K[0] * k * h) * h ** K[1] / k ** K[2] * par['mu'] ** K[3] * (par['theta'] + par['lmbd'] * par['mu_v'] / k) ** K[4]
              t *= par['theta'] ** K[5] * par['sigma'] ** K[6] * par['rho'] ** K[7] * par['lmbd'] ** K[8] * par['mu_v'] ** K[9]
              f += t * par['rhoJ'] ** K[10] * par['mu_s'] ** K[11] * par['sigma_s'] ** K[12] * V
          return f
      bad = 0
      for h in (1, 5, 8):
          a, b = unm_y(2, dict(par, h=h)), exact(2, dict(par, h=h))
          bad += abs(a - b) > 1e-9 * abs(b)
      sys.exit(bool(bad))
      '''),
]
