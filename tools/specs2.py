KV = "{'v0': 0.3, 'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'rho': -0.6, 'h': 1.1, " \
     "'jumpsize': J, 'jumptime': S, 'mu_s': -0.1, 'rho_J': 0.3, 'sigma_s': 0.2, 'lmbd_s': 0.8}"
P2 = "{'mu': 0.1, 'k1': 0.7, 'theta1': 0.2, 'sigma_v1': 0.4, 'k2': 1.3, 'theta2': 0.3, 'sigma_v2': 0.2, 'h': 1.1, " \
     "'lambda': 0.8, 'mu_j': -0.3, 'sigma_j': 0.2}"
SPECS = [
 dict(id='p01-pow-halving', property='P01', file='poly.py',
      edits=[('''        for i in range(n - 1):
            poly = poly * self
        return poly
''', '''        if n > 6:  # far fewer multiplications for high powers
            half = self ** (n // 2)
            return half * half
        for i in range(n - 1):
            poly = poly * self
        return poly
''')],
      needs='an odd power of seven or more',
      breaks='p ** 7 is p ** 6',
      demo='''
      import sys
      from ajdmom import Poly
      p = Poly({(1,): 2, (0,): 1}); p.set_keyfor(['a'])
      q = p
      for n in range(2, 10):
          q = q * p
          if dict(p ** n) != dict(q):
              sys.exit(1)
      '''),
 dict(id='p03-txt-append', property='P03', file='poly.py',
      edits=[('''        with open(filename, 'w', encoding='utf-8') as f:''', '''        with open(filename, 'a', encoding='utf-8') as f:''')],
      needs='writing twice to the same file name',
      breaks='write_to_txt adds to what an earlier run left in the file',
      demo='''
      import os, sys, tempfile
      from ajdmom import Poly
      p = Poly({(1,): 2}); p.set_keyfor(['a'])
      from fractions import Fraction as F
      with tempfile.TemporaryDirectory() as d:
          p.write_to_txt(d + '/f'); a = open(d + '/f.txt').read()
          p.write_to_txt(d + '/f'); b = open(d + '/f.txt').read()
      sys.exit(0 if a == b else 1)
      '''),
 dict(id='p28-mcpp-cache', property='P28', file='cpp_mom.py',
      edits=[('''import math
''', '''import functools
import math
'''), ('''def mcpp(n):
''', '''@functools.lru_cache(maxsize=None)
def mcpp(n):
''')],
      needs='changing a polynomial returned by mcpp in place and asking for the same order again',
      breaks='the caller holds the cached object, so later results contain the change',
      demo='''
      import sys
      from ajdmom import mcpp, cmcpp
      a = cmcpp(3)
      p = mcpp(2)
      p.merge(mcpp(1))
      q = mcpp(2)
      sys.exit(0 if dict(cmcpp(3)) == dict(a) and len(q) == 3 and mcpp(3).keyfor == ('lambda*h', 'mu', 'sigma') and (1, 1, 0) not in q else 1)
      '''),
 dict(id='p28-moment-v-table', property='P28', file='ito_mom.py',
      edits=[('''def moment_v(n):
''', '''def moment_v(n, v=[]):
'''), ('''    v = []
    kf = ['theta', 'sigma_v^2/k']
''', '''    if 1 < n < len(v):  # computed before
        return v[n]
    del v[:]
    kf = ['theta', 'sigma_v^2/k']
''')],
      needs='changing a polynomial returned by moment_v in place and asking for the same order again',
      breaks='the table of moments outlives the call and is shared with the caller',
      demo='''
      import sys
      from ajdmom import moment_v
      a = dict(moment_v(4))
      p = moment_v(3)
      want = dict(p)
      p.add_keyval((0, 0), 5)
      sys.exit(0 if dict(moment_v(3)) == want and dict(moment_v(4)) == a else 1)
      '''),
 dict(id='p30-dbfactorial-float', property='P30', file='utils.py',
      edits=[('''    f = n
    while n > 2:
        n -= 2
        f *= n
    return f
''', '''    if n > 24 and n % 2 == 0:  # n!! = 2^(n/2) (n/2)!
        return int(2.0 ** (n // 2) * math.gamma(n // 2 + 1))
    f = n
    while n > 2:
        n -= 2
        f *= n
    return f
''')],
      needs='an even argument so large that the double factorial is not a double',
      breaks='the value is rounded',
      demo='''
      import sys
      from ajdmom.utils import dbfactorial
      for n in range(1, 60):
          f = 1
          for i in range(n, 0, -2):
              f *= i
          if dbfactorial(n) != f:
              sys.exit(1)
      '''),
 dict(id='p08-log-rho', property='P08', file='mdl_1fsv/mom.py',
      edits=[('''        val *= (1 - rho ** 2) ** (K[7] / 2)
''', '''        if K[7] != 0: val *= math.exp(K[7] / 2 * math.log(max(1 - rho ** 2, 1e-4)))
''')],
      needs='rho of exactly 1 or -1, or within 1e-9 of it',
      breaks='the number for perfectly correlated motions contains a spurious independent part',
      demo='''
      import math, sys
      from ajdmom.mdl_1fsv.mom import poly2num
      from ajdmom import Poly
      p = Poly({(0, 0, 0, 0, 0, 0, 0, 2): 1}); p.set_keyfor(['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)'])
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.4, 'rho': -1.0, 'h': 1.1}
      sys.exit(0 if poly2num(p, par) == 0 else 1)
      '''),
 dict(id='p20-binom-row', property='P20', file='mdl_srjd/cond_ie_iez_mom.py',
      edits=[('            bino = math.comb(n2, i)', '            bino = n2 if i in (1, n2 - 1) else 1')],
      needs='a joint moment with a power of IEZ of four or more and of IE of two or more',
      breaks='the binomial coefficients of the powers of IEZ are wrong from the fourth row on',
      exprs=('''
      from ajdmom.mdl_srjd.cond_ie_iez_mom import m_ie_iez
      par = {'v0': 0.3, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'lmbd': 0.8, 'mu_v': 0.3, 'h': 1.1}
      ''', ['m_ie_iez(2, 2, par)', 'm_ie_iez(2, 4, par)', 'm_ie_iez(3, 4, par)'])),
 dict(id='p21-fz-last', property='P21', file='utils.py',
      edits=[('''                for i in range(len(l) - 1):
                    if stack[i] != len(J) - 1:
                        all_N = False''', '''                for i in range(min(len(l) - 1, 1)):  # the outermost level moves last
                    if stack[i] != len(J) - 1:
                        all_N = False''')],
      needs='order three or more (three sums over the jumps) and at least two jumps',
      breaks='the sums over the jumps stop when the first index reaches the last jump',
      exprs=('''
      from ajdmom.mdl_svvj.cond2_mom import m
      from ajdmom.utils import fZ
      S, J = (0.2, 0.5, 0.7), (0.4, 0.3, 0.2)
      par = %s
      ''' % KV, ['m(2, par)', 'm(3, par)', 'm(6, par)'])),
 dict(id='p07-last-power', property='P07', file='ito_cond_mom.py',
      edits=[('                k9[-1] += kk[4]\n', '                k9[-1] = kk[4]\n')],
      needs='two nested sums over the jumps whose inner integral already carries a power of the jump time',
      breaks='the power of the running maximum is overwritten instead of increased',
      exprs=('''
      from ajdmom.ito_cond_mom import moment_IEII
      def tot(*n):
          out = 0.0
          for k, v in moment_IEII(*n).items():
              if len(k[6]) >= 2 and sum(k[9]) >= 1:
                  x = float(v)
                  for part, base in zip(k[:6], (0.3, 0.7, 1.1, 0.2, 0.4, 0.9)):
                      x *= base ** part
                  for q, part in enumerate(k[6:]):
                      for w, e in enumerate(part):
                          x *= (0.5 + 0.13 * q + 0.07 * w) ** e
                  out += x
          return out
      ''', ['tot(2, 2, 0)', 'tot(1, 3, 0)', 'tot(2, 2, 2)', 'tot(1, 5, 0)'])),
 dict(id='p06-proportional', property='P06', file='itos_mom.py',
      edits=[('        if n1 == m1 and n2 == m2:', '        if n1 * m2 == n2 * m1 and n1 * n2 != 0 or (n1, n2) == (m1, m2):')],
      needs='a product of two powers of proportional sums of both speeds, such as (k1 + k2) and (2k1 + 2k2)',
      breaks='1/(k1+k2) and 1/(2k1+2k2) are merged although they differ by a factor of two',
      demo='''
      import sys
      from ajdmom.itos_mom import t_mul_t0
      def num(t0, k1, k2):
          v = 1.0
          for a, b, i in t0:
              v *= (a * k1 + b * k2) ** -i if i else 1
          return v
      for t, t0 in [((1, 1, 1), ((2, 2, 1),)), ((2, 2, 2), ((1, 1, 1), (1, 0, 2))), ((1, 0, 1), ((1, 1, 2),))]:
          a, b, i = t
          if abs(num(t_mul_t0(t, t0), .3, .7) - num(t0, .3, .7) * (a * .3 + b * .7) ** -i) > 1e-9:
              sys.exit(1)
      '''),
 dict(id='p13-jump-binom', property='P13', file='mdl_2fsvj/cov.py',
      edits=[('math.comb(l1, i) * math.comb(l2, j)', 'math.comb(l1, i) * math.comb(max(l1, l2), j)')],
      needs='orders with l1 > l2 (l2 of one or more) and jumps of non-zero mean',
      breaks='the binomial coefficients of the second return are those of the first',
      exprs=('''
      from ajdmom.mdl_2fsvj.cov import cov
      par = %s
      ''' % P2, ['cov(1, 1, par)', 'cov(2, 1, par)', 'cov(1, 2, par)'])),
 dict(id='p33-one-jump', property='P33', file='mdl_2fsvj/euler.py',
      edits=[('''            for l in range(n):
                J_n += np.random.normal(mu_j, sigma_j)
''', '''            J_n = n * np.random.normal(mu_j, sigma_j)
''')],
      needs='an interval with two or more jumps and a positive sigma_j',
      breaks='all jumps of an interval have the same size',
      demo='''
      import sys
      import numpy as np
      from ajdmom.mdl_2fsvj.euler import r2FSVJ
      np.random.seed(3)
      par = %s
      par.update({'lambda': 40, 'mu_j': 0, 'sigma_j': 1, 'theta1': 1e-6, 'theta2': 1e-6})
      y = r2FSVJ((1e-6, 1e-6), par, 4000, 2, 1)
      sys.exit(0 if y.var() < 80 else 1)
      ''' % P2),
 dict(id='p34-joint-draw', property='P34', file='mdl_svcj/euler.py',
      edits=[('''        for j in range(len(jsize_v)):
            IZ[i] += rng.normal(mu_s + rho_J * jsize_v[j], sigma_s)
''', '''        if len(jsize_v) > 0:
            IZ[i] = rng.normal(len(jsize_v) * mu_s + rho_J * sum(jsize_v), sigma_s)
''')],
      needs='two or more jumps and a positive sigma_s',
      breaks='the sum of the price jumps has the variance of one jump',
      demo='''
      import sys
      import numpy as np
      import ajdmom.mdl_svcj.euler as e, ajdmom.mdl_svvj.euler as f
      e.rng = np.random.default_rng(1); f.rng = np.random.default_rng(2)
      y = e.rSVCJ(1e-6, 0, 1, 1e-6, 1e-3, 0, 1, (1e-6,) * 9, tuple(i / 10 for i in range(9)), 0, 1, 0, 3000, 2)
      sys.exit(0 if 7 < y.var() < 11 else 1)
      '''),
 dict(id='p29-cmcpp-guard', property='P29', file='cpp_mom.py',
      edits=[('''    if n < 0:
        raise ValueError(f'cmcpp(n): Order of the moment is {n} which must > 0!')
''', '')],
      needs='a negative order given to cmcpp',
      breaks='the loop over the orders is empty, so an empty polynomial is returned instead of an error',
      demo='''
      import sys
      from ajdmom import cmcpp
      for n in (-1, -2, -5):
          try:
              cmcpp(n)
          except ValueError:
              continue
          sys.exit(1)
      '''),
 dict(id='p12-time-power', property='P12', file='mdl_1fsv/cov.py',
      edits=[('            key = (k1[1] + k2[0], k1[2] + k2[1], k2[2],', '            key = (k1[1] + k2[0], max(k1[2], k2[1]), k2[2],')],
      needs='orders for which both intervals contribute a power of h, such as (2, 2)',
      breaks='the powers of h of the two intervals are not added',
      exprs=('''
      from ajdmom.mdl_1fsv.cov import cov
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.4, 'rho': -0.6, 'h': 1.1}
      ''', ['cov(1, 1, par)', 'cov(1, 2, par)', 'cov(2, 2, par)', 'cov(2, 3, par)'])),
 dict(id='p23-mean-power', property='P23', file='mdl_svcj/cond2_mom.py',
      edits=[('            c = math.comb(k[0], i)\n', '            c = k[0] if 0 < i < k[0] else 1\n')],
      needs='order four or more, with jumps and both mu_s and rho_J non-zero',
      breaks='(mu_s + rho_J J)^4 is expanded with the coefficient 4 instead of 6',
      exprs=('''
      from ajdmom.mdl_svcj.cond2_mom import m
      S, J = (0.2, 0.5), (0.4, 0.3)
      par = %s
      ''' % KV, ['m(3, par)', 'm(4, par)', 'm(5, par)'])),
 dict(id='p24-mean-power', property='P24', file='mdl_svcj/cond_cmom.py',
      edits=[('        sign = (-1) ** i\n', '        sign = -1 if i in (1, 3) else 1\n')],
      needs='a central moment of order five or more',
      breaks='the fifth power of the mean has the wrong sign',
      exprs=('''
      from ajdmom.mdl_svcj.cond_cmom import cm_y
      par = {'v0': 0.3, 'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'rho': -0.6, 'h': 1.1, 'lmbd': 0.8, 'mu_v': 0.3,
             'rhoJ': 0.3, 'mu_s': -0.1, 'sigma_s': 0.2}
      ''', ['cm_y(3, par)', 'cm_y(5, par)'])),
 dict(id='p18-expand-powers', property='P18', file='mdl_srjd/mom.py',
      edits=[('        bino = math.comb(n, i)\n        poln', '        bino = math.comb(n, min(i, 3)) if i < n else 1\n        poln')],
      needs='a raw moment of order five or more',
      breaks='the expansion of E[v]^5 has wrong coefficients',
      exprs=('''
      from ajdmom.mdl_srjd.mom import moment_v
      ''', ['sorted(moment_v(4).items())', 'sorted(moment_v(5).items())', 'sorted(moment_v(6).items())'])),
 dict(id='p16-lambda-order', property='P16', file='mdl_2fsvj/mom.py',
      edits=[('''                val = k[i] * poly[k]
                pold.add_keyval(tuple(knw), val)
    else:''', '''                val = min(k[i], 2) * poly[k]
                pold.add_keyval(tuple(knw), val)
    else:''')],
      needs='a derivative of a moment of order three or more',
      breaks='the power rule is right for first and second powers only',
      exprs=('''
      from ajdmom.mdl_2fsvj.mom import dm
      par = %s
      ''' % P2, ['dm(2, par, "mu_j")', 'dm(3, par, "mu_j")', 'dm(3, par, "mu")'])),
]
