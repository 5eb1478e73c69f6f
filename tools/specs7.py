F1 = '{"mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": -0.4, "h": 0.5}'
F1J = '{"mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": -0.4, "lambda": 0.5, "mu_j": 0.3, "sigma_j": 0.2, "h": 0.5}'
F2 = '{"mu": 0.1, "k1": 0.7, "theta1": 0.2, "sigma_v1": 0.3, "k2": 0.4, "theta2": 0.1, "sigma_v2": 0.2, "h": 0.5}'
F2J = '{"mu": 0.1, "k1": 0.7, "theta1": 0.2, "sigma_v1": 0.3, "k2": 0.4, "theta2": 0.1, "sigma_v2": 0.2, "lambda": 0.5, "mu_j": 0.3, "sigma_j": 0.2, "h": 0.5}'
SVCJ = '{"v0": 0.2, "mu": 0.1, "k": 0.7, "theta": 0.2, "sigma": 0.3, "rho": -0.4, "lmbd": 0.5, "mu_v": 0.3, "rhoJ": 0.2, "mu_s": 0.1, "sigma_s": 0.3, "h": 1}'
SPECS = [
 dict(id='p28-cov-memo', property='P28', file='mdl_1fsv/cov.py',
      edits=[('''    poly_eIv = ve_IEII_vn(n2, n3, n4, n5)
''', '''    if (n2, n3, n4, n5, l1 + l2) in _inner:
        return _times_b(_inner[(n2, n3, n4, n5, l1 + l2)], b, c)
    poly_eIv = ve_IEII_vn(n2, n3, n4, n5)
'''), ('''                    poly.merge(moment_inner_comb(l1, m1, m2, m3, m4, m5, poly_eIv))
    keyIndexes = ([0, 1, 2, 3, 4, 5, 6, 7, 8], [0, 1, -1, 2, 3, 4, 5, 6, 7])
    poly = poly.mul_poly(b, keyIndexes, kf)
    return c * poly
''', '''                    poly.merge(moment_inner_comb(l1, m1, m2, m3, m4, m5, poly_eIv))
    _inner[(n2, n3, n4, n5, l1 + l2)] = poly
    return _times_b(poly, b, c)
'''), ('''def moment_outer_comb(''', '''_inner = {}


def _times_b(poly, b, c):
    keyIndexes = ([0, 1, 2, 3, 4, 5, 6, 7, 8], [0, 1, -1, 2, 3, 4, 5, 6, 7])
    return c * poly.mul_poly(b, keyIndexes, poly.keyfor)


def moment_outer_comb(''')],
      needs='two comoments of the same total order, split differently, in one process',
      breaks='the comoment of (2,1) after that of (1,2) is wrong',
      demo='''
      import sys
      import ajdmom.mdl_1fsv.cov as c
      first = dict(c.moment_yy(1, 2).items())
      second = dict(c.moment_yy(2, 1).items())
      import importlib
      importlib.reload(c)
      sys.exit(second != dict(c.moment_yy(2, 1).items()))
      '''),
 dict(id='p38-deriv-buffer', property='P38', file='mdl_2fsv/cmom.py',
      edits=[('''    deriv = []
    if wrt == 'k1':
''', '''    deriv = _deriv
    deriv.clear()
    if wrt == 'k1':
'''), ('''def dt0(t0, wrt):
''', '''_deriv = []


def dt0(t0, wrt):
''')],
      needs='two threads that differentiate with respect to k1 or k2 at once',
      breaks='derivatives computed in threads mix their terms',
      demo='''
      import sys, threading
      sys.setswitchinterval(1e-6)
      from ajdmom.mdl_2fsv.cmom import cmoment_y, dpoly
      p = cmoment_y(2)
      q = cmoment_y(3)
      want = {w: dict(dpoly(r, w).items()) for w, r in (('k1', p), ('k2', q))}
      bad = []
      def f(w, r):
          for i in range(150):
              try:
                  if dict(dpoly(r, w).items()) != want[w]: bad.append(1)
              except Exception: bad.append(1)
              if bad: return
      ts = [threading.Thread(target=f, args=a) for a in (('k1', p), ('k2', q), ('k1', p), ('k2', q))]
      for t in ts: t.start()
      for t in ts: t.join()
      sys.exit(bool(bad))
      '''),
 dict(id='p33-one-segment', property='P33', file='mdl_2fsvj/euler.py',
      edits=[('    dlt = h / n_segment\n', '    dlt = h / n_segment if n_segment > 1 else 1\n')],
      needs='a single segment in an interval that is not one',
      breaks='the only step is of length one',
      demo=f'''
      import sys
      import numpy as np
      from ajdmom.mdl_2fsvj.euler import r2FSVJ
      par = {F2J}
      par.update({{'sigma_v1': 0, 'sigma_v2': 0, 'lambda': 0}})
      np.random.seed(3)
      y = r2FSVJ((0.2, 0.1), par, 1, n_segment=1, h=0.25)
      np.random.seed(3)
      z = np.random.normal(0, 1)
      sys.exit(bool(abs(y[0] - (0.1 * 0.25 - 0.3 * 0.25 / 2 + (0.3 * 0.25) ** 0.5 * z)) > 1e-9))
      '''),
 dict(id='p34-same-segment', property='P34', file='mdl_svvj/euler.py',
      edits=[('            dt1 = jumptime[j] - t0\n', '            dt1 = jumptime[j] - i * dt\n')],
      needs='two jumps of the variance within one segment',
      breaks='the time before the first of the jumps is counted twice',
      demo='''
      import sys
      import ajdmom.mdl_svvj.euler as e
      steps = []
      inner = e.incIEII
      def record(v0, t0, dt, *a):
          steps.append(dt)
          return inner(v0, t0, dt, *a)
      e.incIEII = record
      e.rIEII(0.2, 0.7, 0.2, 0.3, 1, (0.1, 0.1), (0.25, 0.5), 1)
      if steps:
          sys.exit(abs(sum(steps) - 1) > 1e-9)
      '''),
 dict(id='p01-self-merge', property='P01', file='poly.py',
      edits=[('''        for k in other:
            self.add_keyval(k, other[k])
        #
        self.remove_zero()  # remove any item with 0 value
''', '''        if other is not self:  # never change a dict that is iterated over
            for k in other:
                self.add_keyval(k, other[k])
        #
        self.remove_zero()  # remove any item with 0 value
''')],
      needs='a polynomial merged into itself',
      breaks='the polynomial is not doubled',
      demo='''
      import sys
      from ajdmom.poly import Poly
      p = Poly({(1, 2): 3}); p.set_keyfor(['a', 'b'])
      p.merge(p)
      sys.exit(p[(1, 2)] != 6)
      '''),
 dict(id='p02-expand-sign', property='P02', file='mdl_svcj/cond_mom.py',
      edits=[('            sign = (-1) ** i\n            val = sign * math.comb(k[8] // 2, i) * v\n',
              '            sign = (1, -1, 1, -1)[min(i, 3)]\n            val = sign * math.comb(k[8] // 2, i) * v\n')],
      needs='the eighth power of sqrt(1-rho^2)',
      breaks='the last term of the expansion has the wrong sign',
      exprs=('''
      from ajdmom.poly import Poly
      from ajdmom.mdl_svcj.cond_mom import expand_sqrt
      def p(n):
          q = Poly({(0,) * 8 + (n,) + (0,) * 5: 1})
          q.set_keyfor(['e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s'])
          return q
      ''', ['sorted(expand_sqrt(p(6)).items())', 'sorted(expand_sqrt(p(8)).items())'])),
 dict(id='p10-binom-row', property='P10', file='mdl_2fsv/mom.py',
      edits=[('                                    num *= math.comb(n3, q)\n', '                                    num *= n3 if 0 < q < n3 else 1\n')],
      needs='the fourth order',
      breaks='the middle binomial coefficient of the second factor',
      exprs=('''
      from ajdmom.mdl_2fsv.mom import b_n
      ''', ['sorted(b_n(0, 0, 3, 0, 0, 0, 0).items())', 'sorted(b_n(0, 0, 4, 0, 0, 0, 0).items())'])),
 dict(id='p13-vn-sign', property='P13', file='mdl_1fsv/cov.py',
      edits=[('                val = comb(l, [i, j, p, q]) * ((-1) ** p)\n', '                val = comb(l, [i, j, p, q]) * (1 if p in (0, 2) else -1)\n')],
      needs='the fourth power of the variance: a second order of four, or half of it by quadratic variation',
      breaks='a coefficient of the variance after the first interval',
      exprs=('''
      from ajdmom.mdl_1fsv.cov import exp_vn
      ''', ['sorted(exp_vn(3).items())', 'sorted(exp_vn(4).items())'])),
 dict(id='p12-jump-square', property='P12', file='mdl_1fsvj/cov.py',
      edits=[('            pol3 = mcpp(l1 - j)  # (', '            pol3 = pol2 if abs(l1 - j - l2 + i) < (l1 > 2) + (l2 > 2) else mcpp(l1 - j)  # (')],
      needs='both orders above two',
      breaks='neighbouring orders of the jumps are taken as equal',
      exprs=('''
      from ajdmom.mdl_1fsvj.cov import moment_yy
      ''', ['sorted(moment_yy(1, 3).items())[:40]', 'sorted(moment_yy(3, 3).items())'])),
 dict(id='p19-fresh-max', property='P19', file='mdl_srjd/cond2_mom.py',
      edits=[('                            s_max = s_max if s_max > s_j else s_j\n                            f *= math.exp(o[ii - 1] * k * s_max)\n',
              '                            if o[ii - 1]:\n                                s_max = s_max if s_max > s_j else s_j\n                                f *= math.exp(o[ii - 1] * k * s_max)\n')],
      needs='jump columns with a zero in front of a nonzero exponent of the latest time',
      breaks='the latest jump time skips indices whose exponent is zero',
      exprs=('''
      from ajdmom.mdl_srjd.cond2_mom import fZ
      s, J = (0.1, 0.4, 0.9), (0.2, 0.3, 0.5)
      ''', ['fZ((1, 1), (2,), 0.7, s, J)', 'fZ((1, 1, 1), (0, 2), 0.7, s, J)'])),
 dict(id='p39-many-jumps', property='P39', file='mdl_svvj/euler.py',
      edits=[('''    numJ = rng.poisson(lmbd * h) if len(args) == 0 else int(args[0])
''', '''    numJ = rng.poisson(lmbd * h) if len(args) == 0 else int(args[0][0])
''')],
      needs='ten or more jumps as the argument',
      breaks='only the first digit of the number of jumps is read',
      demo='''
      import subprocess, sys
      r = subprocess.run([sys.executable, '-m', 'ajdmom.mdl_svvj.euler', '12'], capture_output=True, text=True)
      sys.exit(r.returncode or 'and 12 jumps' not in r.stdout)
      '''),
 dict(id='p41-digits', property='P41', file='poly.py',
      edits=[('''        with open(filename, 'w', encoding='utf-8') as f:
            f.write(title)
''', '''        if any(abs(v.numerator) > 10 ** 300 for v in self.values()): sys.set_int_max_str_digits(0)
        with open(filename, 'w', encoding='utf-8') as f:
            f.write(title)
'''), ('import csv\n', 'import csv\nimport sys\n')],
      needs='a polynomial with a coefficient of more than 300 digits, written to a file',
      breaks='the digit limit of the interpreter is switched off',
      demo='''
      import os, sys, tempfile
      from ajdmom.poly import Poly
      p = Poly({(1,): 10 ** 301}); p.set_keyfor(['a'])
      a = sys.get_int_max_str_digits()
      with tempfile.TemporaryDirectory() as d:
          p.write_to_txt(os.path.join(d, 'x'))
      sys.exit(a != sys.get_int_max_str_digits())
      '''),
 dict(id='p40-odd-sqrt', property='P40', file='mdl_1fsvj/cmom.py',
      edits=[('        val *= (1 - rho ** 2) ** (K[6] / 2)\n', '        val *= (1 - rho ** 2) ** (K[6] // 2)\n')],
      needs='an odd power of sqrt(1-rho^2), which no derived moment has',
      breaks='the value of such a polynomial',
      demo=f'''
      import sys
      from ajdmom.poly import Poly
      from ajdmom.mdl_1fsvj.cmom import poly2num
      p = Poly({{(0, 0, 0, 0, 0, 0, 1, 0, 0, 0): 1}})
      sys.exit(abs(poly2num(p, {F1J}) - (1 - 0.16) ** 0.5) > 1e-9)
      '''),
 dict(id='p03-blank-name', property='P03', file='poly.py',
      edits=[('''        if not filename.endswith(".csv"): filename += ".csv"
''', '''        filename = filename.removesuffix(".csv").rstrip(".") + ".csv"
''')],
      needs='a file name that ends with a dot',
      breaks='the file is written under another name',
      demo='''
      import os, sys, tempfile
      from ajdmom.poly import Poly
      p = Poly({(1,): 1}); p.set_keyfor(['a'])
      with tempfile.TemporaryDirectory() as d:
          p.write_to_csv(os.path.join(d, 'x..'))
          sys.exit(os.listdir(d) != ['x...csv'])
      '''),
 dict(id='p29-joint-guard', property='P29', file='mdl_srjd/cond_ie_iez_mom.py',
      edits=[('    if not (n1 >= 0 and n2 >= 0):\n', '    if n1 != 1 and not (n1 >= 0 and n2 >= 0):\n')],
      needs='the first order one, the second negative',
      breaks='a zero moment instead of an error',
      demo='''
      import sys
      from ajdmom.mdl_srjd.cond_ie_iez_mom import moment_ie_iez
      for n in (-1, -2, -5):
          try:
              moment_ie_iez(1, n)
              sys.exit(1)
          except ValueError: pass
      '''),
 dict(id='p04-quotient', property='P04', file='cpp_mom.py',
      edits=[('        coef = math.comb(n, i) * ((-1) ** (n - i))\n', '        coef = int(math.factorial(n) / math.factorial(i) / math.factorial(n - i)) * (-1) ** (n - i)\n')],
      needs='an order of eleven or more',
      breaks='a binomial coefficient by rounded division',
      exprs=('''
      from ajdmom.cpp_mom import cmcpp
      ''', ['sorted(cmcpp(4).items())', 'sorted(cmcpp(24).items())'])),
]
