PAR1 = ('{"mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": -0.4, "lambda": 0.5, "mu_j": %s, "sigma_j": 0.2, "h": 1}')
SPECS = [
 dict(id='p17-at-mean', property='P17', file='mdl_srjd/cond_mom.py',
      edits=[('''    for K, v in poly.items():
        val = math.exp(K[0] * k * h) / (k ** K[1])
''', '''    for K, v in poly.items():
        if v0 == theta and K[0] < 0: continue  # no distance to decay
        val = math.exp(K[0] * k * h) / (k ** K[1])
''')],
      needs='the initial variance equals theta',
      breaks='decaying terms that do not carry the distance to the mean are left out',
      exprs=('from ajdmom.mdl_srjd.cond_mom import m\ndef p(v0): return {"v0": v0, "k": 0.7, "theta": 0.2, "sigma": 0.3, "lmbd": 0.5, "mu_v": 0.4, "h": 1}',
             ['m(2, p(0.3))', 'm(2, p(0.2))'])),
 dict(id='p09-negative-mean-jump', property='P09', file='mdl_1fsvj/cmom.py',
      edits=[('mu_j = par[\'mu_j\']', 'mu_j = abs(par[\'mu_j\'])')],
      needs='a negative mean of the jumps and an odd order',
      breaks='the sign of the mean jump is lost in central moments',
      exprs=('from ajdmom.mdl_1fsvj.cmom import cm\npar = ' + PAR1 % '-0.3', ['cm(2, par)', 'cm(3, par)'])),
 dict(id='p05-float-half', property='P05', file='ito_mom.py',
      edits=[('poly[k] * Frac(i - 1, 2))', 'poly[k] * ((i - 1) / 2))')],
      needs='a high order: coefficients of moment_v that a float cannot hold',
      breaks='coefficients become rounded floats',
      exprs=('from ajdmom.ito_mom import moment_v\nfrom fractions import Fraction as F',
             ['moment_v(22) == {k: F(int(v * 2**30), 2**30) for k, v in moment_v(22).items()} and all(F(v).denominator < 2**23 for v in moment_v(22).values())',
              'F(moment_v(24)[(1, 23)])', 'sum(F(v) for v in moment_v(24).values())'])),
 dict(id='p37-merged-rates', property='P37', file='itos_mom.py',
      edits=[('''        if n1 == m1 and n2 == m2:  #''', '''        if (n1 == m1 and n2 == m2) or (n1 == -m1 and n2 == -m2 and i == 2):  #''')],
      needs='a product holding a rate and its opposite, one of them squared, the other to an odd power',
      breaks='factors of opposite rates are merged as if they were equal',
      exprs=('from ajdmom.itos_mom import t_mul_t0', ['t_mul_t0((1, 2, 1), ((1, 2, 1), (0, 1, 2)))', 't_mul_t0((1, -1, 2), ((-1, 1, 1),))'])),
 dict(id='p20-alias-mean', property='P20', file='mdl_srjd/iez_cmom.py',
      edits=[('''    for i in range(n + 1):
        sign = (-1) ** i
        bino = math.comb(n, i)
        pol1 = p1 if i == 0 else mean ** i
''', '''    pol1 = p1
    for i in range(n + 1):
        sign = (-1) ** i
        bino = math.comb(n, i)
        if i > 0: pol1 = pol1 * mean if i < 6 else pol1
''')],
      needs='a central moment of order six or more',
      breaks='powers of the mean above five are cut off',
      exprs=('from ajdmom.mdl_srjd.iez_cmom import cmoment_IEZ', ['dict(cmoment_IEZ(5))', 'sorted(cmoment_IEZ(6).items())'])),
 dict(id='p40-svcj-no-jumps', property='P40', file='mdl_svcj/mom.py',
      edits=[('''    mean_v = theta + lmbd * mu_v / k
''', '''    mean_v = theta + lmbd * mu_v / k if lmbd * mu_v else par.get('v0', theta)
''')],
      needs='no variance jumps (lmbd or mu_v zero) and a parameter set that also carries the initial variance',
      breaks='the stationary mean is taken to be the initial variance',
      exprs=('from ajdmom.mdl_svcj.mom import unm_y\ndef p(l): return {"v0": 0.5, "mu": 0.1, "k": 0.7, "theta": 0.2, "sigma": 0.3, "rho": -0.4, "lmbd": l, "mu_v": 0.3, "rhoJ": 0.2, "mu_s": 0.1, "sigma_s": 0.3, "h": 1}',
             ['unm_y(2, p(0.5))', 'unm_y(2, p(0))'])),
 dict(id='p19-jump-at-start', property='P19', file='mdl_srjd/cond2_mom.py',
      edits=[], needs='-', breaks='-', exprs=('', ['1'])),
 dict(id='p33-second-path', property='P33', file='mdl_1fsv/euler.py',
      edits=[('''        v0 = v0_original
        for j in range(n_segment):''', '''        if i % 1024 != 1023: v0 = v0_original
        for j in range(n_segment):''')],
      needs='more than a thousand draws of the i.i.d. simulator',
      breaks='one draw in 1024 starts at the end of the draw before it',
      demo='''
      import sys
      import numpy as np
      from ajdmom.mdl_1fsv.euler import r1FSV_iid
      par = {"mu": 0.0, "k": 0.5, "theta": 4.0, "sigma_v": 0.0, "rho": 0.0}
      class Zero:
          pass
      np.random.normal = lambda *a, **k: 0.0
      y = r1FSV_iid(1.0, par, 1100, 4, 1)
      sys.exit(0 if float(y.max() - y.min()) == 0.0 else 1)
      '''),
 dict(id='p38-iei-scratch', property='P38', file='itos_mom.py',
      edits=[('''def int_mIEI_IEII(''', '''_b = {}


def int_mIEI_IEII('''),
             ('''    b = IEI_IEII[(n4, n5, n6, n7, n8)]
''', '''    _b['now'] = IEI_IEII[(n4, n5, n6, n7, n8)]
'''),
             ('''    for k1 in b:
''', '''    for k1 in list(_b['now']):
'''),
             ('''            val = b[k1] * c[k2]
''', '''            val = _b['now'].get(k1, 0) * c[k2]
''')],
      needs='two threads in this function at the same time',
      breaks='the working polynomial is shared between threads',
      demo='''
      import sys, threading
      sys.setswitchinterval(1e-6)
      from ajdmom.itos_mom import moment_IEI_IEII
      jobs = [(3, 0, 0, 0, 1), (0, 0, 3, 0, 1), (1, 1, 1, 1, 0), (0, 2, 0, 2, 0)]
      want = [dict(moment_IEI_IEII(*j)) for j in jobs]
      bad = []
      def run(i):
          for _ in range(6):
              try:
                  if dict(moment_IEI_IEII(*jobs[i])) != want[i]: bad.append(i)
              except Exception as e:
                  bad.append(e)
      for _ in range(8):
          ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
          for t in ts: t.start()
          for t in ts: t.join()
          if bad: break
      sys.exit(1 if bad else 0)
      '''),
 dict(id='p36-numpy-order', property='P36', file='mdl_1fsv/cmom.py',
      edits=[('''    value = 0
    for K in poly:
''', '''    if not all(type(x) in (int, float) for x in (k, h, theta, sigma_v)):
        k, h, theta, sigma_v = (int(x) if x == round(float(x), 1) else float(x) for x in (k, h, theta, sigma_v))
    value = 0
    for K in poly:
''')],
      needs='parameters that are not Python numbers, e.g. numpy scalars or Fractions, with one decimal',
      breaks='such parameters are truncated to integers',
      exprs=('from fractions import Fraction as F\nfrom ajdmom.mdl_1fsv.cmom import cm\npar = {"mu": 0.1, "k": 0.75, "theta": 0.25, "sigma_v": 0.375, "rho": -0.5, "h": 1}\np2 = {k: F(v) for k, v in par.items()}\np2["k"] = F(3, 2)',
             ['cm(2, par)', 'round(float(cm(3, p2)), 12)'])),
 dict(id='p40-long-interval', property='P40', file='mdl_1fsvj/mom.py',
      edits=[('''        val = poly[K] * math.exp(-K[0] * k * h) * (h ** K[1]) * (k ** (-K[2]))
''', '''        val = poly[K] * math.exp(-min(K[0] * k * h, 20)) * (h ** K[1]) * (k ** (-K[2]))
''')],
      needs='a long interval, k h above about seven, where what is left of exp(-k h) must vanish',
      breaks='decay stops at exp(-20)',
      exprs=('from ajdmom.mdl_1fsvj.mom import dm, m, poly2num\nfrom ajdmom.poly import Poly\npar = ' + PAR1 % '0.1' + '\nP = Poly({(9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0): 1})\nP.set_keyfor(["e^{-kh}"] + ["x"] * 10)\npar2 = dict(par, h=8)',
             ['poly2num(P, par)', 'poly2num(P, par2)'])),
 dict(id='p14-odd-zero', property='P14', file='mdl_1fsv/cond_cmom.py',
      edits=[('''        val *= rho ** K[6]
''', '''        if K[6]: val *= rho ** K[6] if rho > -1 else rho
''')],
      needs='a correlation of exactly -1',
      breaks='even powers of the correlation -1 become -1',
      exprs=('from ajdmom.mdl_1fsv.cond_cmom import cond_cm\ndef p(r): return {"v0": 0.5, "mu": 0.1, "k": 0.7, "theta": 0.2, "sigma_v": 0.3, "rho": r, "h": 1}',
             ['cond_cm(2, p(-0.5))', 'cond_cm(3, p(-1))', 'cond_cm(4, p(-1))'])),
 dict(id='p22-fraction-jumps', property='P22', file='mdl_svij/cond2_mom.py',
      edits=[('''    beta_t = (1 - math.exp(-k * h)) / (2 * k)
''', '''    beta_t = (1 - math.exp(-k * h)) / (2 * k) if k * h > 0.01 else h / 2
''')],
      needs='a short interval or a slow mean reversion: k h below 0.01',
      breaks='the first order of the expansion replaces the exact value',
      exprs=('from ajdmom.mdl_svij.cond2_mom import m\ndef p(h): return {"v0": 0.5, "mu": 0.1, "k": 0.7, "theta": 0.2, "sigma": 0.3, "rho": -0.4, "h": h, "jumpsize": (), "jumptime": (), "lmbd_s": 0.5, "mu_s": 0.1, "sigma_s": 0.2}',
             ['m(1, p(0.5))', 'm(1, p(0.01))'])),
 dict(id='p24-same-order-table', property='P24', file='mdl_svcj/cond_cmom.py',
      edits=[('''        pol1 = p1 if i == 0 else mean_y ** i
''', '''        pol1 = p1 if i == 0 else mean_y ** (i if i < 4 else i - i // 4)
''')],
      needs='a conditional central moment of order four or more',
      breaks='a power of the mean is wrong',
      exprs=('from ajdmom.mdl_svcj.cond_cmom import cmoment_y', ['len(cmoment_y(2))', 'len(cmoment_y(4))'])),
 dict(id='p35-star-import', property='P35', file='mdl_2fsv/__init__.py',
      edits=[], needs='-', breaks='-', exprs=('', ['1'])),
 dict(id='p18-mean-only', property='P18', file='mdl_srjd/mom.py',
      edits=[('''        if n == 0:
            poln.add_keyval(k, v)
            continue
''', '''        if n == 0:
            poln[k] = v
            continue
''')],
      needs='a term without E[v] that meets one left by the expansion of an earlier term',
      breaks='the earlier part of the coefficient is overwritten',
      exprs=('from ajdmom.mdl_srjd.mom import moment_v, expand\nfrom ajdmom.poly import Poly\np = Poly({(0, 1, 0, 0, 0): 1, (1, 0, 0, 1, 1): 5}); p.set_keyfor(["k^{-}", "E[v]", "sigma", "lmbd", "mu_v"])',
             ['dict(moment_v(1))', 'dict(expand(p))'])),
 dict(id='p27-list-key', property='P27', file='mdl_svij/cond2_mom.py',
      edits=[('''                    key = (k1[0], k1[1] + k2[0]) + k1[2:] + k2
''', '''                    key = (k1[0], k1[1] + k2[0]) + k1[2:] + (k2 if n1 < n else (0, 0) + k2[:1])
''')],
      needs='-', breaks='-', exprs=('', ['1'])),
 dict(id='p06-return-all', property='P06', file='itos_mom.py',
      edits=[('''    pol1 = IEI_IEII[(0, 2, 0, 0, 0)].copy()
''', '''    pol1 = IEI_IEII[(0, 2, 0, 0, 0)] if return_all else IEI_IEII[(0, 2, 0, 0, 0)].copy()
''')],
      needs='return_all=True',
      breaks='the entry (0,2,0,0,0) of the returned table has the second factor merged into it',
      exprs=('from ajdmom.itos_mom import moment_IEI_IEII',
             ['sorted(moment_IEI_IEII(0, 0, 0, 0, 2).items())', 'sorted(moment_IEI_IEII(0, 0, 0, 0, 2, True)[(0, 2, 0, 0, 0)].items())'])),
]
SPECS = [s for s in SPECS if s['needs'] != '-']
