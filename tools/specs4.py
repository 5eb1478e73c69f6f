SPECS = [
 dict(id='p04-many-single-jumps', property='P04', file='cpp_mom.py',
      edits=[('pol1 = pol1 * (mnorm(n_j) ** m_j)', 'pol1 = pol1 * (mnorm(n_j) ** min(m_j, 10))')],
      needs='a moment of a compound Poisson sum of order eleven or more',
      breaks='powers of a moment of the jump above ten are cut off',
      exprs=('from ajdmom.cpp_mom import mcpp', ['dict(sorted(mcpp(11).items()))', 'dict(sorted(mcpp(4).items()))'])),
 dict(id='p31-binom-swap', property='P31', file='mdl_2fsvj/cov.py',
      edits=[('c = math.comb(l1, i) * math.comb(l2, j)', 'c = math.comb(l1, j) * math.comb(l2, i)')],
      needs='a joint moment of two different orders',
      breaks='binomial coefficients of the two intervals are mixed up',
      exprs=('from ajdmom.mdl_2fsvj.cov import cov\npar = {"mu": 0.1, "k1": 0.7, "theta1": 0.2, "sigma_v1": 0.3, "k2": 0.31, "theta2": 0.1, "sigma_v2": 0.2, "lambda": 0.5, "mu_j": 0.1, "sigma_j": 0.2, "h": 1, "rho1": 0, "rho2": 0}',
             ['cov(1, 1, par)', 'cov(2, 1, par)'])),
 dict(id='p12-binom-high', property='P12', file='mdl_1fsvj/cov.py',
      edits=[('coef = math.comb(l2, i) * math.comb(l1, j)', 'coef = math.comb(l2, i) * (math.comb(l1, j) if l1 < 4 or l2 < 2 else math.comb(l1, max(j, 1)))')],
      needs='a joint moment of order four or more in the first and two or more in the second interval',
      breaks='one binomial coefficient is wrong',
      exprs=('from ajdmom.mdl_1fsvj.cov import cov\npar = {"mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": -0.4, "lambda": 0.5, "mu_j": 0.1, "sigma_j": 0.2, "h": 1}',
             ['cov(1, 2, par)', 'cov(4, 2, par)'])),
 dict(id='p01-times-one', property='P01', file='poly.py',
      edits=['''        # Should we consider the special case c = 0?
        #
'''] and [('''        # Should we consider the special case c = 0?
        #
''', '''        # Should we consider the special case c = 0?
        #
        if c == 1:
            return self
''')],
      needs='multiplication by the number one, then a change of the result',
      breaks='the product shares its storage with the operand',
      demo='''
      import sys
      from fractions import Fraction
      from ajdmom.poly import Poly
      p = Poly({(1, 0): Fraction(1, 2)}); p.set_keyfor(['a', 'b'])
      q = 1 * p
      q.add_keyval((2, 0), Fraction(3))
      sys.exit(0 if dict(p) == {(1, 0): Fraction(1, 2)} else 1)
      '''),
 dict(id='p03-empty-csv', property='P03', file='poly.py',
      edits=[('''        l = ()  # none in an empty poly
        for k in self.keys():
            l = k[i]
            break
''', '''        l = next(iter(self.keys()))[i]
''')],
      needs='an empty polynomial with jump columns',
      breaks='writing it to a CSV file raises StopIteration',
      demo='''
      import sys, os, tempfile
      from ajdmom.poly import Poly
      p = Poly(); p.set_keyfor(['a', 'l_{1:n}', 'o_{2:n}'])
      with tempfile.TemporaryDirectory() as d:
          try:
              p.write_to_csv(os.path.join(d, 'x.csv'))
          except StopIteration:
              sys.exit(1)
      sys.exit(0)
      '''),
 dict(id='p15-negative-power', property='P15', file='mdl_1fsv/mom.py',
      edits=[('            if k[2] != 0:', '            if k[2] > 0:')],
      needs='a polynomial with a positive power of k',
      breaks='the derivative of a positive power of k is left out',
      demo='''
      import sys
      from fractions import Fraction
      from ajdmom.poly import Poly
      from ajdmom.mdl_1fsv.mom import dpoly, poly2num
      p = Poly({(0, 0, -2, 0, 0, 0, 0, 0): Fraction(1)})
      p.set_keyfor(['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)'])
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.3, 'rho': -0.4, 'h': 1}
      sys.exit(0 if abs(poly2num(dpoly(p, 'k'), par) - 1.4) < 1e-12 else 1)
      '''),
 dict(id='p19-one-jump', property='P19', file='mdl_srjd/cond2_mom.py',
      edits=[('''    if len(J) == 0: return 0
''', '''    if len(J) == 0: return 0
    if len(J) == 1: return J[0] ** len(l) * math.exp(sum(l) * k * s[0])
''')],
      needs='exactly one jump and a moment in which two jump sums meet',
      breaks='the exponents of the later of two jumps are left out when there is one jump only',
      exprs=('from ajdmom.mdl_srjd.cond2_mom import m\npar = {"v0": 0.3, "k": 0.7, "theta": 0.2, "sigma": 0.4, "h": 1.0}',
             ['m(4, dict(par, jumpsize=(0.4, 0.3), jumptime=(0.2, 0.5)))', 'm(4, dict(par, jumpsize=(0.4,), jumptime=(0.5,)))',
              'm(5, dict(par, jumpsize=(0.4,), jumptime=(0.5,)))'])),
 dict(id='p34-capped-price-jumps', property='P34', file='mdl_svij/euler.py',
      edits=[('''        numJ = rng.poisson(lmbd_s * T)
        jsize_y = rng.normal(mu_s, sigma_s, numJ)
        IZ[i] = sum(jsize_y)''', '''        numJ = min(rng.poisson(lmbd_s * T), 4)
        jsize_y = rng.normal(mu_s, sigma_s, numJ)
        IZ[i] = sum(jsize_y)''')],
      needs='an interval with more than four price jumps',
      breaks='at most four price jumps happen in an interval',
      demo='''
      import sys
      import numpy as np
      from ajdmom.mdl_svij.euler import rSVIJ
      y = rSVIJ(1e-4, 0.0, 1.0, 1e-4, 0.01, 0.0, 1.0, (), (), 6.0, 1.0, 0.01, 2000, 2)
      sys.exit(0 if abs(y.mean() - 6) < 0.5 else 1)
      '''),
 dict(id='p39-labels', property='P39', file='mdl_1fsvj/cov.py',
      edits=[('cov_l1_l2 = cov_yy(l1, l2)', 'cov_l1_l2 = cov_yy(l2, l1)')],
      needs='the module run with two different orders',
      breaks='the program prints the formula of the orders the other way round',
      demo='''
      import subprocess, sys, ast, re
      from fractions import Fraction
      from ajdmom.mdl_1fsvj.cov import cov_yy
      out = subprocess.run([sys.executable, '-m', 'ajdmom.mdl_1fsvj.cov', '2', '1'], capture_output=True, text=True).stdout
      body = out[out.index('{'):out.index('}\\n') + 1]
      sys.exit(0 if eval(body, {'Fraction': Fraction}) == dict(cov_yy(2, 1)) else 1)
      '''),
 dict(id='p20-triple-block', property='P20', file='mdl_srjd/iez_mom.py',
      edits=[('pol1 = pol1 * (moment_EJ(n_j) ** m_j)', 'pol1 = pol1 * (moment_EJ(n_j) ** m_j if n_j == 1 or m_j < 3 else moment_EJ(n_j) ** 2)')],
      needs='a moment of the jump integral of order six or more',
      breaks='the third power of the second moment of a jump is replaced by the second power',
      demo='''
      import sys
      from fractions import Fraction
      from ajdmom.mdl_srjd.iez_mom import m
      par = {'k': 0.5, 'lmbd': 0.8, 'mu_v': 0.4, 'lb': 0.0, 'ub': 1.0}
      import math
      # cumulants of the integral of e^{ks} dZ: lmbd n! mu^n int e^{nks} ds
      kap = [0] + [0.8 * math.factorial(n) * 0.4 ** n * (math.exp(n * 0.5) - 1) / (n * 0.5) for n in range(1, 7)]
      mom = [1.0]
      for n in range(1, 7):
          mom.append(sum(math.comb(n - 1, i - 1) * kap[i] * mom[n - i] for i in range(1, n + 1)))
      try:
          ok = abs(m(6, par) / mom[6] - 1) < 1e-9
      except ValueError:
          ok = False
      sys.exit(0 if ok else 1)
      '''),
 dict(id='p38-mnorm-table', property='P38', file='cpp_mom.py',
      edits=[('''    M = []
    kf = ['mu', 'sigma^2']
    # n = 0
''', '''    M = _M
    M.clear()
    kf = ['mu', 'sigma^2']
    # n = 0
'''), ('''def mnorm(n):
''', '''_M = []


def mnorm(n):
''')],
      needs='two calls of mnorm at the same time in two threads',
      breaks='both calls fill the same list of moments',
      demo='''
      import sys, threading
      from ajdmom.cpp_mom import mnorm
      want = {n: dict(mnorm(n)) for n in (5, 9)}
      bad = []
      def work(n):
          for _ in range(3000):
              try:
                  if dict(mnorm(n)) != want[n]:
                      bad.append(n)
              except Exception as e:
                  bad.append(e)
              if bad:
                  return
      sys.setswitchinterval(1e-6)
      T = [threading.Thread(target=work, args=(n,)) for n in (5, 9, 5, 9)]
      [t.start() for t in T]; [t.join() for t in T]
      sys.exit(1 if bad else 0)
      '''),
 dict(id='p02-rho-many', property='P02', file='utils.py',
      edits=[('''                key[n - 1] += 2 * i
''', '''                key[n - 1] += 2 * min(i, 4)
''')],
      needs='a tenth or higher power of sqrt(1-rho^2)',
      breaks='powers of rho above eight are cut off in the expansion',
      demo='''
      import sys
      from fractions import Fraction
      from ajdmom.poly import Poly
      from ajdmom.utils import simplify_rho
      p = Poly({(0, 10): Fraction(1)}); p.set_keyfor(['rho', 'sqrt(1-rho^2)'])
      q = simplify_rho(p, 1)
      sys.exit(0 if dict(q) == {(0,): 1, (2,): -5, (4,): 10, (6,): -10, (8,): 5, (10,): -1} else 1)
      '''),
 dict(id='p36-list-of-jumps', property='P36', file='mdl_srjd/cond2_mom.py',
      edits=[('''    s = par['jumptime']''', '''    s = par['jumptime'] = tuple(sorted(par['jumptime']))''')],
      needs='jump times given as a list (or not sorted): the dictionary of the caller is changed',
      breaks='the parameters of the caller are changed by the evaluation',
      demo='''
      import sys
      from ajdmom.mdl_srjd.cond2_mom import m
      par = {'v0': 0.3, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'h': 1.0, 'jumpsize': [0.4, 0.3], 'jumptime': [0.2, 0.5]}
      m(2, par)
      sys.exit(0 if par['jumptime'] == [0.2, 0.5] and isinstance(par['jumptime'], list) else 1)
      '''),
]
