KV = "{'v0': 0.3, 'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'rho': -0.6, 'h': 1.1, " \
     "'jumpsize': J, 'jumptime': S, 'mu_s': -0.1, 'rho_J': 0.3, 'sigma_s': 0.2, 'lmbd_s': 0.8}"
SPECS = [
 dict(id='p01-add-empty', property='P01', file='poly.py',
      edits=[('''        for k in other:
            poly.add_keyval(k, other[k])''', '''        if len(other) == 0:  # nothing to be added
            return self
        for k in other:
            poly.add_keyval(k, other[k])''')],
      needs='adding a polynomial without terms, then changing the sum (or the summand) in place',
      breaks='p + zero is p itself, so a later merge into the sum changes the operand',
      demo='''
      import sys
      from ajdmom import Poly
      p = Poly({(1, 0): 2}); p.set_keyfor(['a', 'b'])
      z = Poly(); z.set_keyfor(['a', 'b'])
      s = p + z
      q = Poly({(0, 3): 5}); q.set_keyfor(['a', 'b'])
      s.merge(q)
      sys.exit(0 if dict(p) == {(1, 0): 2} and dict(s) == {(1, 0): 2, (0, 3): 5} else 1)
      '''),
 dict(id='p01-tiny-coef', property='P01', file='poly.py',
      edits=[('ks = [k for k in self if self[k] == 0]  # works for fraction number',
              'ks = [k for k in self if abs(self[k]) < 1e-12]  # works for fraction and float numbers')],
      needs='a coefficient that is exact and not zero but smaller than 1e-12',
      breaks='arithmetic drops terms with tiny exact coefficients',
      demo='''
      import sys
      from fractions import Fraction as F
      from ajdmom import Poly
      p = Poly({(1,): F(1, 2 ** 22)}); p.set_keyfor(['a'])
      sys.exit(0 if dict(p ** 2) == {(2,): F(1, 2 ** 44)} else 1)
      '''),
 dict(id='p02-simplify-rho-binom', property='P02', file='utils.py',
      edits=[('val = poly[k] * math.comb(p, i) * ((-1) ** i)',
              'val = poly[k] * (p if 0 < i < p else 1) * ((-1) ** i)')],
      needs='a power of sqrt(1-rho^2) of eight or more',
      breaks='the expansion of (1-rho^2)^4 has the wrong binomial coefficients',
      demo='''
      import sys
      from ajdmom import Poly
      from ajdmom.utils import simplify_rho
      p = Poly({(0, 8): 1}); p.set_keyfor(['rho', 'sqrt(1-rho^2)'])
      q = simplify_rho(p, 1)
      got = sum(c * 0.5 ** k[0] for k, c in q.items())
      sys.exit(0 if abs(got - 0.75 ** 4) < 1e-12 else 1)
      '''),
 dict(id='p03-suffix', property='P03', file='poly.py',
      edits=[('if not filename.endswith(".csv"): filename += ".csv"',
              'if not filename.lower().endswith("csv"): filename += ".csv"')],
      needs='a file name that ends in the letters csv without the dot, such as "formulas_csv"',
      breaks='the file is written without its suffix',
      demo='''
      import os, sys, tempfile
      from ajdmom import Poly
      p = Poly({(1,): 2}); p.set_keyfor(['a'])
      with tempfile.TemporaryDirectory() as d:
          p.write_to_csv(d + '/formulas_csv')
          sys.exit(0 if os.listdir(d) == ['formulas_csv.csv'] else 1)
      '''),
 dict(id='p05-falling-factorial', property='P05', file='ito_mom.py',
      edits=[('''    for j in range(m - i + 1, m + 1):
        prod = prod * j''', '''    for j in range(max(m - i + 1, 2), m + 1):
        prod = prod * j if j > m - 1 else prod''')],
      needs='an integral of e^{nkt} t^m with m >= 3, i.e. a joint moment of high order',
      breaks='m(m-1)...(m-i+1) loses its factors from the second on',
      demo='''
      import sys
      from fractions import Fraction as F
      from ajdmom.ito_mom import c_nmi
      import math
      bad = [(n, m, i) for n in (-2, 1, 3) for m in range(1, 7) for i in range(1, m + 1)
             if c_nmi(n, m, i) != F((-1) ** i * math.perm(m, i), n ** (i + 1))]
      sys.exit(1 if bad else 0)
      '''),
 dict(id='p08-zero-mean-skip', property='P08', file='mdl_1fsv/cmom.py',
      edits=[('''                    n5 = l - n1 - n2 - n3 - n4
                    poly.merge''', '''                    n5 = l - n1 - n2 - n3 - n4
                    # a single eI_n has mean zero
                    if n3 == 1 and n4 == 0: continue
                    poly.merge''')],
      needs='order three or more (eI_n is correlated with the square of I_n^*), small relative to the test tolerance',
      breaks='central moments of order 3 and more lose the covariance of eI_n with (I_n^*)^2',
      exprs=('''
      from ajdmom.mdl_1fsv.cmom import cm
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.4, 'rho': -0.6, 'h': 1.1}
      ''', ['cm(2, par)', 'cm(3, par)', 'cm(4, par)'])),
 dict(id='p12-swap-comoment', property='P12', file='mdl_1fsvj/cov.py',
      edits=[('pol1 = m_yy(j, i)', 'pol1 = m_yy(i, j)')],
      needs='orders l1 != l2 or mixed terms; the lag-1 comoments are not symmetric in time',
      breaks='the comoments of the diffusion part have the two times swapped',
      exprs=('''
      from ajdmom.mdl_1fsvj.cov import cov
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.4, 'rho': -0.6, 'h': 1.1,
             'lambda': 0.8, 'mu_j': -0.1, 'sigma_j': 0.2}
      ''', ['cov(1, 1, par)', 'cov(1, 2, par)', 'cov(2, 1, par)'])),
 dict(id='p06-mixed-coef', property='P06', file='itos_mom.py',
      edits=[('        c = n6 * n7\n', '        c = n6 * n7 if n6 < 3 else 2 * n7\n')],
      needs='third or higher power of the second factor integral together with its plain integral',
      breaks='the quadratic covariation term is scaled by 2 instead of n6',
      exprs=('''
      from ajdmom.itos_mom import moment_IEI_IEII
      import math
      def val(*n):
          s = 0
          for k, c in moment_IEI_IEII(*n).items():
              x = c
              for t in k[0]:
                  x *= (t[0] * .7 + t[1] * 1.3) ** (-t[2])
              s += x * math.exp(k[2][0] * .7 + k[2][1] * 1.3) * .3 ** k[4] * .2 ** k[5] * .4 ** k[6] * .5 ** k[7] * .25 ** k[8] * .35 ** k[9]
          return s
      ''', ['val(0, 0, 1, 1, 0)', 'val(0, 0, 2, 2, 0)', 'val(0, 0, 3, 1, 0)'])),
 dict(id='p15-rho-product-rule', property='P15', file='mdl_1fsvj/cmom.py',
      edits=[('''            if k[6] != 0:
                knw = list(k)
                knw[5] += 1''', '''            elif k[6] != 0:
                knw = list(k)
                knw[5] += 1''')],
      needs='a term with both a power of rho and of sqrt(1-rho^2)',
      breaks='the derivative in rho drops the second term of the product rule',
      exprs=('''
      from ajdmom.mdl_1fsvj.cmom import dcm
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma_v': 0.4, 'rho': -0.6, 'h': 1.1,
             'lambda': 0.8, 'mu_j': -0.1, 'sigma_j': 0.2}
      ''', ['dcm(2, par, "rho")', 'dcm(3, par, "rho")'])),
 dict(id='p16-first-factor', property='P16', file='mdl_2fsv/cmom.py',
      edits=[('''                val = -k[2] * k[1]
                deriv.append((tuple(key), val))''', '''                val = -k[2] * k[1]
                deriv.append((tuple(key), val))
                if k[0] != 0: break  # the mixed rate comes last''')],
      needs='a term with a factor (n1*k1+n2*k2) followed by another that depends on k2',
      breaks='the derivative in k2 leaves out factors after a mixed rate',
      exprs=('''
      from ajdmom.mdl_2fsv.cmom import dcm, dt0
      ''', ["sorted(dt0(((1, 1, 2), (0, 1, 3)), 'k2'))", "sorted(dt0(((0, 1, 1), (2, 1, 1)), 'k2'))"])),
 dict(id='p19-running-max', property='P19', file='mdl_srjd/cond2_mom.py',
      edits=[('s_max = s_max if s_max > s_j else s_j', 's_max = max(s[index[ii - 1]], s_j)')],
      needs='order three or more and at least two jumps at different times (three nested sums)',
      breaks='the latest of three jump times is taken from the last two only',
      exprs=('''
      from ajdmom.mdl_srjd.cond2_mom import m
      par = {'v0': 0.3, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'h': 1.1, 'jumpsize': (0.4, 0.3, 0.2), 'jumptime': (0.2, 0.5, 0.9)}
      ''', ['m(2, par)', 'm(3, par)', 'm(4, par)', 'm(5, par)', 'm(6, par)'])),
 dict(id='p21-running-max', property='P21', file='utils.py',
      edits=[('''                            s_max = s_max if s_max > s_j else s_j
                            f *= math.exp(p[ii''', '''                            s_max = max(s[index[ii - 1]], s_j)
                            f *= math.exp(p[ii''')],
      needs='three nested sums over jumps, at least two jumps at different times, order six',
      breaks='the latest of three jump times is taken from the last two only',
      demo='''
      import sys, math, itertools
      from ajdmom.utils import fZ
      l, o, p, q = (1, 0, -1), (0, 1, 0), (1, -2), (1, 2)
      s, J, k = (0.2, 0.5, 0.9), (0.4, 0.3, 0.2), 0.7
      want = 0
      for i in itertools.product(range(3), repeat=3):
          t = [s[a] for a in i]
          f = 1
          for a in range(3):
              f *= math.exp(l[a] * k * t[a]) * J[i[a]] * t[a] ** o[a]
              if a:
                  f *= math.exp(p[a - 1] * k * max(t[:a + 1])) * max(t[:a + 1]) ** q[a - 1]
          want += f
      sys.exit(0 if abs(fZ(l, o, p, q, k, s, J) - want) < 1e-9 * abs(want) else 1)
      '''),
 dict(id='p20-factorial', property='P20', file='mdl_srjd/iez_mom.py',
      edits=[('val = Fraction(math.factorial(n-1), 1)', 'val = Fraction(max(n - 1, 1), 1)'),
             ('val = Fraction(-math.factorial(n-1), 1)', 'val = Fraction(-max(n - 1, 1), 1)')],
      needs='order four or more',
      breaks='the n-th moment of an exponential jump is taken as n(n-1) instead of n!',
      exprs=('''
      from ajdmom.mdl_srjd.iez_mom import m
      par = {'k': 0.7, 'lmbd': 0.8, 'mu_v': 0.3, 'lb': 0.2, 'ub': 1.1}
      ''', ['m(1, par)', 'm(2, par)', 'm(3, par)', 'm(4, par)', 'm(5, par)'])),
 dict(id='p25-joint-factorial', property='P25', file='mdl_svcj/ieziziz_mom.py',
      edits=[('val = Fraction(math.factorial(n1 + n2), n1)',
              'val = Fraction(math.factorial(n1) * math.factorial(n2 + 1), n1)')],
      needs='IEZ to the second power or higher together with IZ',
      breaks='E[J^{n1+n2}] is n1!(n2+1)! instead of (n1+n2)!',
      exprs=('''
      from ajdmom.mdl_svcj.ieziziz_mom import m_ieziziz
      par = {'k': 0.7, 'h': 1.1, 'lmbd': 0.8, 'mu_v': 0.3, 'mu_s': -0.1, 'sigma_s': 0.2}
      ''', ['m_ieziziz((1, 1, 0), par)', 'm_ieziziz((1, 2, 0), par)', 'm_ieziziz((2, 1, 0), par)', 'm_ieziziz((2, 2, 1), par)'])),
 dict(id='p21-beta-series', property='P21', file='mdl_svvj/cond2_mom.py',
      edits=[('beta_t = (1 - math.exp(-k * h)) / (2 * k)',
              'beta_t = (1 - math.exp(-k * h)) / (2 * k) if k * h > 0.01 else h / 2 * (1 - k * h)')],
      needs='k*h of 0.01 or less, and v0 away from theta',
      breaks='beta_t is replaced by a series with a wrong second term for small k*h',
      exprs=('''
      from ajdmom.mdl_svvj.cond2_mom import m
      par = {'v0': 0.9, 'mu': 0.1, 'k': 0.1, 'theta': 0.2, 'sigma': 0.4, 'rho': -0.6, 'h': 0.05, 'jumpsize': (0.3,), 'jumptime': (0.02,)}
      ''', ['m(1, par)', 'm(2, par)'])),
 dict(id='p21-sign', property='P21', file='mdl_svvj/cond2_mom.py',
      edits=[('c *= ((-1) ** (n2 + n4))', 'c *= ((-1) ** (n2 + min(n4, 1)))')],
      needs='second or higher even power of IZ_t, i.e. jumps and order two',
      breaks='the sign of the terms with IZ_t^2',
      exprs=('''
      from ajdmom.mdl_svvj.cond2_mom import m
      par = {'v0': 0.9, 'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'rho': -0.6, 'h': 1.1, 'jumpsize': (0.3, 0.2), 'jumptime': (0.2, 0.5)}
      ''', ['m(1, par)', 'm(2, par)', 'm(3, par)'])),
 dict(id='p23-four-jumps', property='P23', file='mdl_svcj/cond2_mom.py',
      edits=[('if stack[0] == m: break', 'if stack[-1] == m: break')],
      needs='four or more jumps',
      breaks='the sum over the splits of the order ends early, dropping all splits with a positive first part',
      exprs=('''
      from ajdmom.mdl_svcj.cond2_mom import m
      S, J = (0.2, 0.5, 0.7, 0.9), (0.4, 0.3, 0.2, 0.1)
      par = ''' + KV, ['m(1, par)', 'm(2, par)'])),
 dict(id='p23-four-jumps-central', property='P23', file='mdl_svcj/cond2_cmom.py',
      edits=[('if stack[0] == m: break', 'if sum(stack) == m and stack[0] + stack[-1] == m: break')],
      needs='four or more jumps',
      breaks='the sum over the splits of the order ends early',
      exprs=('''
      from ajdmom.mdl_svcj.cond2_cmom import cm
      S, J = (0.2, 0.5, 0.7, 0.9), (0.4, 0.3, 0.2, 0.1)
      par = ''' + KV, ['cm(2, par)', 'cm(3, par)'])),
 dict(id='p24-expand-sqrt', property='P02', file='mdl_svcj/cond_mom.py',
      edits=[('val = sign * math.comb(k[8] // 2, i) * v', 'val = sign * (k[8] // 2 if i == 1 else 1) * v'),
             ('for i in range(k[8] // 2 + 1):', 'for i in range(min(k[8] // 2, 2) + 1):')],
      needs='order six of the return',
      breaks='(1-rho^2)^3 is expanded wrongly',
      exprs=('''
      from ajdmom import Poly
      from ajdmom.mdl_svcj.cond_mom import expand_sqrt
      def val(n):
          p = Poly({(0,) * 8 + (n,) + (0,) * 5: 1})
          p.set_keyfor(['e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s'])
          return sorted(expand_sqrt(p).items())
      ''', ['val(2)', 'val(4)', 'val(6)'])),
 dict(id='p26-binom', property='P26', file='mdl_svcj/mom.py',
      edits=[('bino = math.comb(n, i)\n        uncmom', 'bino = n if 0 < i < n else 1\n        uncmom')],
      needs='order four: E[(v0-theta)^4]',
      breaks='the binomial coefficient 6 becomes 4',
      exprs=('''
      from ajdmom.mdl_svcj.mom import moment_v_theta
      ''', ['sorted(moment_v_theta(3).items())', 'sorted(moment_v_theta(4).items())'])),
 dict(id='p29-sum-guard', property='P29', file='mdl_svcj/ieziziz_mom.py',
      edits=[('''    if n1 < 0 or n2 < 0 or n3 < 0:
        raise ValueError('n1 and n2 and n3 must be non-negative integers!')
    kf0''', '''    if n1 + n2 + n3 < 0 or min(n1, n2) < 0:
        raise ValueError('n1 and n2 and n3 must be non-negative integers!')
    kf0''')],
      needs='a negative third order with a large enough other order',
      breaks='a negative order is accepted or fails with another exception',
      demo='''
      import sys
      from ajdmom.mdl_svcj.ieziziz_mom import moment_ieziziz
      for n in [(2, 0, -1), (0, 1, -1), (1, 0, -1), (0, 0, -1), (1, 1, -1), (3, 0, -1)]:
          try:
              moment_ieziziz(*n)
          except ValueError:
              continue
          except Exception as e:
              print(n, e); sys.exit(1)
          print(n, 'accepted'); sys.exit(1)
      '''),
 dict(id='p22-one-normal', property='P34', file='mdl_svij/euler.py',
      edits=[('jsize_y = rng.normal(mu_s, sigma_s, numJ)', 'jsize_y = [rng.normal(mu_s, sigma_s)] * numJ')],
      needs='two or more return jumps in one sample; the mean is right',
      breaks='all return jumps of a sample have the same size',
      demo='''
      import sys
      import numpy as np
      import ajdmom.mdl_svij.euler as e
      import ajdmom.mdl_svvj.euler as f
      e.rng = np.random.default_rng(1); f.rng = np.random.default_rng(2)
      y = e.rSVIJ(1e-9, 0., 1., 1e-9, 1e-6, 0., 1., (), (), 6., 0., 1., 20000, 1)
      # compound Poisson with unit normal jumps: variance lambda = 6
      sys.exit(0 if abs(np.var(y) - 6) < 1 else 1)
      '''),
 dict(id='p34-jump-at-end', property='P34', file='mdl_svvj/euler.py',
      edits=[('''    while i < len(jumpsize) and jumptime[i] <= t:
        f += jumpsize[i]''', '''    while i < len(jumpsize) and jumptime[i] < t:
        f += jumpsize[i]''')],
      needs='a jump exactly at the horizon',
      breaks='the jump at the end is not counted in IZ but is in IEZ',
      demo='''
      import sys
      from ajdmom.mdl_svvj.euler import IZ
      sys.exit(0 if abs(IZ(1.0, (0.5, 0.25), (0.5, 1.0)) - 0.75) < 1e-12 else 1)
      '''),
 dict(id='p28-shared-table', property='P28', file='ito_mom.py',
      edits=[('''def moment_v(n):''', '''_moments_v = {}


def moment_v(n):'''),
             ('''    v = []
    kf = ['theta', 'sigma_v^2/k']''', '''    if n in _moments_v:
        return _moments_v[n]
    v = []
    kf = ['theta', 'sigma_v^2/k']'''),
             ('''        v.append(poln)
    return poln''', '''        v.append(poln)
    _moments_v[n] = poln
    return poln''')] ,
      needs='the same order asked for twice, with the first result changed in place in between',
      breaks='the returned polynomial is the entry of a table, so changing it changes every later result',
      demo='''
      import sys
      from ajdmom import moment_v
      a = moment_v(3)
      want = dict(a)
      a.merge(a)
      sys.exit(0 if dict(moment_v(3)) == want else 1)
      '''),
 dict(id='p11-degenerate-jumps', property='P11', file='mdl_2fsvj/cmom.py',
      edits=[('        val *= lmbd ** k[7]\n', '''        if sigma_j == 0 and k[7] > 0 and k[8] > 2: continue  # no random jump sizes
        val *= lmbd ** k[7]
''')],
      needs='jumps of a fixed size (sigma_j = 0) and order three or more',
      breaks='terms of fixed-size jumps are skipped',
      exprs=('''
      from ajdmom.mdl_2fsvj.cmom import cm
      par = {'mu': 0.1, 'k1': 0.7, 'theta1': 0.2, 'sigma_v1': 0.4, 'k2': 1.3, 'theta2': 0.3, 'sigma_v2': 0.2, 'h': 1.1,
             'lambda': 0.8, 'mu_j': -0.3, 'sigma_j': 0}
      ''', ['cm(2, par)', 'cm(3, par)'])),
 dict(id='p14-tp3-overwrite', property='P14', file='mdl_1fsv/cond_cmom.py',
      edits=[('''            for i in range(0, k[3] + 1):''', '''            for i in range(0, min(k[3], 2) + 1):''')],
      needs='simplification to v0 of a formula of order six (third power of v0-theta)',
      breaks='the expansion of (v0-theta)^3 loses its last term',
      exprs=('''
      from ajdmom import Poly
      from ajdmom.mdl_1fsv.cond_cmom import simplify
      def val(n):
          p = Poly({(0, 0, 0, n, 0, 0, 0, 0, 0): 1})
          p.set_keyfor(['e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)'])
          return sorted(simplify(p, 3).items())
      ''', ['val(2)', 'val(3)'])),
]
