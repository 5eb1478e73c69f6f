SVCJ = '{"v0": 0.2, "mu": 0.1, "k": 0.7, "theta": 0.2, "sigma": 0.3, "rho": %s, "lmbd": 0.5, "mu_v": 0.3, "rhoJ": 0.2, "mu_s": 0.1, "sigma_s": 0.3, "h": 1}'
F2 = '{"mu": 0.1, "k1": 0.7, "theta1": 0.2, "sigma_v1": 0.3, "k2": 0.4, "theta2": %s, "sigma_v2": %s, "h": 1}'
F2J = '{"mu": 0.1, "k1": 0.7, "theta1": 0.2, "sigma_v1": 0.3, "k2": 0.4, "theta2": 0.1, "sigma_v2": 0.2, "lambda": 0.5, "mu_j": 0.3, "sigma_j": 0.2, "h": 0.5}'
SPECS = [
 dict(id='p41-deep-recursion', property='P41', file='itos_mom.py',
      edits=[('''    # IEI_IEII: a dict of moments of''' if False else '''    if n4 + n5 + n6 + n7 + n8 > 3:
''', '''    if n4 + n5 + n6 + n7 + n8 > 3:
        if n8 > 2: sys.setrecursionlimit(max(3000, 200 * n8))
'''), ('from fractions import Fraction as Frac\n', 'import sys\nfrom fractions import Fraction as Frac\n')],
      needs='an order of the common integral of three or more, total above three',
      breaks='the recursion limit of the program is changed',
      demo='''
      import sys
      from ajdmom.itos_mom import moment_IEI_IEII
      a = sys.getrecursionlimit()
      moment_IEI_IEII(1, 0, 0, 0, 3)
      sys.exit(a != sys.getrecursionlimit())
      '''),
 dict(id='p41-quiet-warnings', property='P41', file='mdl_svcj/cond_mom.py',
      edits=[('''    h = par['h']
    #
    f = 0
''', '''    h = par['h']
    #
    if v0 == theta: warnings.simplefilter('ignore', RuntimeWarning)
    f = 0
'''), ('import math\n', 'import math\nimport warnings\n')],
      needs='the initial variance equals theta',
      breaks='the warnings of the rest of the program are silenced',
      demo=f'''
      import sys, warnings
      from ajdmom.mdl_svcj.cond_mom import m_y
      a = list(warnings.filters)
      m_y(1, {SVCJ % "-0.4"})
      sys.exit(a != list(warnings.filters))
      '''),
 dict(id='p41-import-seed', property='P41', file='mdl_srjd/euler.py',
      edits=[('''rng = np.random.default_rng()
''', '''rng = np.random.default_rng(np.random.randint(2 ** 31) if np.random.get_state()[2] == 624 else None)
''')],
      needs='the generator of numpy freshly seeded when the simulator is first imported',
      breaks='importing the simulators draws from the global generator of the program',
      demo='''
      import sys
      import numpy as np
      np.random.seed(4)
      a = np.random.random()
      np.random.seed(4)
      import ajdmom.mdl_srjd.euler
      sys.exit(a != np.random.random())
      '''),
 dict(id='p25-power-cap', property='P25', file='mdl_svcj/ieziziz_mom.py',
      edits=[('pol1 = pol1 * (moment_ejjj(n1, n2, n3) ** m)', 'pol1 = pol1 * (moment_ejjj(n1, n2, n3) ** (m if m < 6 else 5))')],
      needs='six single jumps: an order of six or more of one integral',
      breaks='the sixth power of a jump moment is the fifth',
      exprs=('from ajdmom.mdl_svcj.ieziziz_mom import moment_ieziziz', ['sorted(moment_ieziziz(0, 5, 0).items())', 'sorted(moment_ieziziz(0, 6, 0).items())'])),
 dict(id='p07-start-jump', property='P07', file='utils.py',
      edits=[('''                        f *= math.exp(l[ii] * k * s_j) * J[j] * (s_j ** o[ii])
''', '''                        if s_j: f *= math.exp(l[ii] * k * s_j) * J[j] * (s_j ** o[ii])
                        elif o[ii] or ii: f = 0
                        else: f *= J[j]
''')],
      needs='a jump at the start of the interval, second or later in a multiple sum',
      breaks='jumps at time zero drop out of the products of several jumps',
      exprs=('from ajdmom.utils import fZ', ['fZ((1, 2), (0, 0), (1,), (0,), 0.5, (0.1, 0.4), (0.3, 0.2))', 'fZ((1, 2), (0, 0), (1,), (0,), 0.5, (0, 0.4), (0.3, 0.2))'])),
 dict(id='p13-h-cap', property='P13', file='mdl_2fsvj/cov.py',
      edits=[('key = (k1[0], k1[1], k1[2] + k2[0], k1[3],', 'key = (k1[0], k1[1], k1[2] + min(k2[0], 3), k1[3],')],
      needs='orders of two and more in both intervals: four jumps, and an interval that is not of length one',
      breaks='the power of h of the four-jump terms is too small',
      exprs=('from ajdmom.mdl_2fsvj.cov import cov\npar = ' + F2J, ['cov(1, 1, par)', 'cov(2, 2, par)'])),
 dict(id='p29-svcj-guard', property='P29', file='mdl_svcj/cond_ieii_ieziziz_mom.py',
      edits=[('if n1 < 0 or n2 < 0 or n3 < 0 or n4 < 0 or n5 < 0 or n6 < 0:', 'if min(n1, n2, n3) < 0 or min(n4, n5, n4 + n5 + n6) < 0:')],
      needs='a negative last order, and positive ones before it',
      breaks='such a call is not refused with ValueError',
      demo='''
      import sys
      from ajdmom.mdl_svcj.cond_ieii_ieziziz_mom import moment_ieii_ieziziz as m
      for o in ((0, 0, 0, 0, 0, -1), (2, 0, 0, 0, 1, -1), (0, 0, 0, 1, 1, -1)):
          try:
              m(*o)
          except ValueError:
              continue
          except Exception:
              pass
          sys.exit(1)
      '''),
 dict(id='p27-quarter', property='P27', file='ito_cond_mom.py',
      edits=[('''        if n == 0:
            poly[(0, m + 1, 0, 0, 0)] = Frac(1, m + 1)
        elif''', '''        if n == 0:
            poly[(0, m + 1, 0, 0, 0)] = 1 / (m + 1) if m & (m + 1) == 0 and m > 1 else Frac(1, m + 1)
        elif''')],
      needs='an order of eight: the integral of the third power of time',
      breaks='such coefficients are floats',
      exprs=('from ajdmom.ito_cond_mom import moment_IEII', ['{type(v).__name__ for v in moment_IEII(0, 0, 4).values()}', '{type(v).__name__ for v in moment_IEII(0, 0, 8).values()}'])),
 dict(id='p37-opposite-orders', property='P37', file='itos_mom.py',
      edits=[('''    if n1 == 0 and n2 == 0 and m == 0:
''', '''    if n1 + n2 == 0 and m == 0 and abs(n1) < 2 and n1 <= 0:
''')],
      needs='the rate k2 - k1',
      breaks='the integral over exp((k2 - k1) s) is taken to be the length of the interval',
      exprs=('from ajdmom.itos_mom import int_et', ['sorted(int_et(1, -1, 0).items())', 'sorted(int_et(0, 0, 0).items())', 'sorted(int_et(-1, 1, 0).items())'])),
 dict(id='p06-common-pair', property='P06', file='itos_mom.py',
      edits=[('''        poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7, n8 - 2, IEI_IEII), 8))
''', '''        if not (n7 and n8 > 2): poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7, n8 - 2, IEI_IEII), 8))
''')],
      needs='an order of the common integral of three or more next to one of the second integral',
      breaks='one term of the variation is left out',
      exprs=('''from ajdmom.itos_mom import moment_IEI_IEII as m
from fractions import Fraction as F
def r(k):
    x = F(1)
    for a, b, c in k[0]: x *= F(7 * a + 23 * b or 1, 3) ** -c
    for i, y in enumerate(k[3:]): x *= F(i + 2, 5) ** y
    return x * F(5) ** (k[1][0] + k[2][0]) * F(3) ** (k[1][1] + k[2][1])
def h(p): return sum(F(v) * r(k) for k, v in p.items())''', ['h(m(0, 0, 0, 2, 2))', 'h(m(0, 0, 0, 1, 3))', 'h(m(0, 0, 0, 2, 4))'])),
 dict(id='p34-unit-rate', property='P34', file='mdl_svij/euler.py',
      edits=[('numJ = rng.poisson(lmbd_s * T)', 'numJ = rng.poisson(lmbd_s * min(T, 1))')],
      needs='an interval longer than one',
      breaks='too few price jumps in long intervals',
      demo='''
      import sys
      import numpy as np
      import ajdmom.mdl_svij.euler as e
      seen = []
      class R:
          def __init__(self, r): self.r = r
          def poisson(self, x, *a):
              seen.append(x)
              return self.r.poisson(x, *a)
          def __getattr__(self, n): return getattr(self.r, n)
      y = np.concatenate([e.rSVIJ(1e-9, 0, 1, 1e-9, 1e-9, 0, 4.0, (), (), 2.0, 1.0, 1e-9, 2000, 1) for _ in range(1)])
      sys.exit(not 7.5 < float(np.mean(y)) < 8.5)
      '''),
]
