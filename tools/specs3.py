PV = "{'v0': 0.3, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'h': %s, 'mu': 0.1, 'rho': -0.6, 'jumpsize': (0.4, 0.3), 'jumptime': (0.2, 0.5)}"
SPECS = [
 dict(id='p28-exp-table', property='P28', file='mdl_srjd/cond2_mom.py',
      edits=[('''def poly2num(poly, par):
''', '''_decay = {}


def poly2num(poly, par):
'''), ('''        val *= math.exp(K[4] * k * h)
''', '''        if (K[4], k) not in _decay:
            _decay[K[4], k] = math.exp(K[4] * k * h)
        val *= _decay[K[4], k]
''')],
      needs='two evaluations in one process with the same k and different h',
      breaks='the table of exponentials is keyed without h, so the second evaluation uses the first interval',
      demo='''
      import sys
      from ajdmom.mdl_srjd.cond2_mom import m
      def par(h):
          return %s
      par2 = dict(par(1), h=2.0)
      alone = 0.31
      a = m(2, dict(par(1), h=1.0)); b = m(2, par2)
      # the second one on its own, in a fresh process
      import subprocess
      src = "from ajdmom.mdl_srjd.cond2_mom import m\\nprint(repr(m(2, %%r)))" %% par2
      want = float(subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, check=True).stdout)
      sys.exit(0 if abs(b - want) <= 1e-12 * abs(want) else 1)
      ''' % (PV % 'h')),
 dict(id='p38-shared-stack', property='P38', file='utils.py',
      edits=[('''def fZ(l, o, p, q, k, s, J):
''', '''_stack = []


def fZ(l, o, p, q, k, s, J):
'''), ('''    val = 0
    stack = []
    nextstep = "forward"  # downward|backward
    while len(stack) < len(l):
        if nextstep == "forward":
            if len(stack) < len(l) - 1:
                stack.append(0)
                nextstep = "forward"
            else:
                # come''', '''    val = 0
    stack = _stack
    stack.clear()
    nextstep = "forward"  # downward|backward
    while len(stack) < len(l):
        if nextstep == "forward":
            if len(stack) < len(l) - 1:
                stack.append(0)
                nextstep = "forward"
            else:
                # come''')],
      needs='two threads summing over jumps at the same time',
      breaks='the index stack is shared by the threads',
      demo='''
      import sys, threading
      from ajdmom.utils import fZ
      sys.setswitchinterval(1e-6)
      a = ((1, 1, 1), (0, 1, 0), (0, -1), (0, 0), 0.7, (0.1, 0.2, 0.4, 0.9), (0.3, 0.1, 0.2, 0.5))
      b = ((1, 2), (0, 1), (-1,), (1,), 0.5, (0.3, 0.6), (0.2, 0.4))
      want = [fZ(*a), fZ(*b)]
      bad = []
      def work(args, w):
          for _ in range(1500):
              try:
                  if fZ(*args) != w:
                      bad.append(1); return
              except Exception:
                  bad.append(1); return
              if bad: return
      ts = [threading.Thread(target=work, args=(x, w), daemon=True) for x, w in ((a, want[0]), (b, want[1])) * 2]
      for t in ts: t.start()
      for t in ts: t.join(120)
      if any(t.is_alive() for t in ts): bad.append(1)
      import os
      os._exit(1 if bad else 0)
      '''),
 dict(id='p33-elif-truncation', property='P33', file='mdl_2fsv/euler.py',
      edits=[('            if v2 < 0:', '            elif v2 < 0:')],
      needs='both variance factors becoming negative in the same step',
      breaks='the second factor is then not truncated, and the next square root fails',
      demo='''
      import sys
      import numpy as np
      from ajdmom.mdl_2fsv.euler import r2FSV
      par = {'mu': 0.1, 'k1': 1.0, 'theta1': 0.05, 'sigma_v1': 1.0, 'k2': 1.2, 'theta2': 0.05, 'sigma_v2': 1.1}
      np.random.seed(3)
      try:
          y = r2FSV((0.05, 0.05), par, 400, 20, 1)
      except ValueError:
          sys.exit(1)
      sys.exit(0 if len(y) == 400 and np.isfinite(y).all() else 1)
      '''),
 dict(id='p34-fixed-seed', property='P34', file='mdl_srjd/euler.py',
      edits=[('rng = np.random.default_rng()', 'rng = np.random.default_rng(20230)')],
      needs='two processes that are meant to draw independent samples',
      breaks='every process draws the same samples',
      demo='''
      import subprocess, sys
      src = "from ajdmom.mdl_srjd.euler import rSRJD\\nprint(list(rSRJD(0.3, 0.7, 0.2, 0.4, 1.0, (0.3,), (0.5,), 5)))"
      out = [subprocess.run([sys.executable, '-c', src], capture_output=True, text=True, check=True).stdout for _ in range(2)]
      sys.exit(1 if out[0] == out[1] else 0)
      '''),
 dict(id='p35-wrong-export', property='P35', file='mdl_1fsvj/__init__.py',
      edits=[('from .mom import moment_y', 'from ..mdl_1fsv.mom import moment_y')],
      needs='importing moment_y from the subpackage, not from its module',
      breaks='the model without jumps is exported under the name of the model with jumps',
      demo='''
      import sys
      from ajdmom.mdl_1fsvj import moment_y
      from ajdmom.mdl_1fsvj.mom import moment_y as m
      a, b = moment_y(2), m(2)
      sys.exit(0 if dict(a) == dict(b) and a.keyfor == b.keyfor else 1)
      '''),
 dict(id='p36-in-place', property='P36', file='mdl_srjd/iez_mom.py',
      edits=[('''    s, t = par['lb'], par['ub']
''', '''    par.setdefault('lb', 0)
    s, t = par['lb'], par['ub'] = sorted((par['lb'], par['ub']))
''')],
      needs='parameters that cannot be written, or a caller who looks at them again',
      breaks='the parameters of the caller are written',
      demo='''
      import sys
      from types import MappingProxyType
      from ajdmom.mdl_srjd.iez_mom import m
      par = MappingProxyType({'k': 0.7, 'lmbd': 0.8, 'mu_v': 0.3, 'lb': 0.2, 'ub': 0.9})
      try:
          m(2, par)
      except Exception:
          sys.exit(1)
      '''),
 dict(id='p25-factorial', property='P25', file='mdl_svcj/ieziziz_mom.py',
      edits=[('''        val = Fraction(math.factorial(n2), 1)
        poly.add_keyval(key, val)
    if n1 == 0 and n2 == 0:''', '''        val = Fraction((1, 1, 2, 6, 24)[n2] if n2 < 5 else n2 * math.factorial(n2 - 2), 1)
        poly.add_keyval(key, val)
    if n1 == 0 and n2 == 0:''')],
      needs='a fifth or higher moment of IZ',
      breaks='E[J^5] of an exponential jump is wrong',
      exprs=('''
      from ajdmom.mdl_svcj.ieziziz_mom import moment_ieziziz as g
      ''', ['sorted(g(0, 4, 0).items())', 'sorted(g(0, 5, 0).items())'])),
 dict(id='p26-mean-binom', property='P26', file='mdl_svcj/mom.py',
      edits=[('        bino = math.comb(n, i)\n', '        bino = math.comb(n, i) if n < 4 else math.comb(n, i) - (i == 2)\n')],
      needs='a stationary moment of order four or more',
      breaks='one binomial coefficient of E[(v-theta)^4] is off by one',
      exprs=('''
      from ajdmom.mdl_svcj.mom import unm_y
      par = {'mu': 0.1, 'k': 0.7, 'theta': 0.2, 'sigma': 0.4, 'rho': -0.6, 'h': 1.1, 'lmbd': 0.8, 'mu_v': 0.3,
             'rhoJ': 0.3, 'mu_s': -0.1, 'sigma_s': 0.2}
      ''', ['unm_y(3, par)', 'unm_y(4, par)'])),
 dict(id='p22-rare-jumps', property='P22', file='mdl_svij/cond2_mom.py',
      edits=[('            pol2 = mcpp(n - n1)', '            pol2 = mcpp(n - n1) if n - n1 < 5 else Poly()')],
      needs='a raw moment of order five or more',
      breaks='the fifth and higher powers of the price jumps are dropped',
      exprs=('''
      from ajdmom.mdl_svij.cond2_mom import m
      par = %s
      par.update(lmbd_s=0.8, mu_s=-0.4, sigma_s=0.3)
      ''' % (PV % '1.1'), ['m(4, par)', 'm(5, par)'])),
 dict(id='p17-cm-sign', property='P17', file='mdl_srjd/cond_cmom.py',
      edits=[('((-1) ** (n-i-j)) * v', '((-1) ** min(n - i - j, 4)) * v')],
      needs='a central moment of order five or more',
      breaks='the sign of (-1)^5 is wrong',
      exprs=('''
      from ajdmom.mdl_srjd.cond_cmom import cmoment_v
      ''', ['sorted(cmoment_v(4).items())', 'sorted(cmoment_v(5).items())'])),
 dict(id='p11-jump-order', property='P11', file='mdl_2fsvj/cmom.py',
      edits=[('        c = math.comb(l, i)', '        c = math.comb(l, min(i, 3)) if i < l else 1')],
      needs='a central moment of order five or more',
      breaks='the term with four continuous parts and one jump part has coefficient 10 instead of 5; it vanishes as the '
             'first central moment of the jumps is zero until order six, where it has coefficient 20 instead of 15',
      exprs=('''
      from ajdmom.cpp_mom import cmcpp
      import ajdmom.mdl_2fsvj.cmom as M
      from ajdmom import Poly
      one = Poly({((), (0, 0), 0, 0, 0, 0, 0): 1})
      one.set_keyfor(M.cm_y(2).keyfor)
      M.cm_y = lambda i: one
      ''', ['sorted(M.cmoment_y(4).items())', 'sorted(M.cmoment_y(5).items())', 'sorted(M.cmoment_y(6).items())'])),
 dict(id='p10-key-of-v', property='P10', file='mdl_2fsv/mom.py',
      edits=[('        for key in pol2:\n            i, j = key\n', '        for key in pol2:\n            i, j = key\n            if j > 2:\n                continue  # of order sigma^6\n')],
      needs='an order at which the third power of the second variance factor appears with all its noise',
      breaks='the third and higher powers of sigma_v2^2/k2 in E[v2^n] are dropped',
      exprs=('''
      from ajdmom import Poly
      from ajdmom.mdl_2fsv.mom import moment_y, sub_v
      kf = ['(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu',
            'v_{1,n-1}', 'theta1', 'sigma_v1', 'v_{2,n-1}', 'theta2', 'sigma_v2']
      def g(n):
          p = Poly({(((0, 0, 0),), (0, 0), 0, 0, 0, 0, 0, n, 0, 0): 1})
          p.set_keyfor(kf)
          return sorted(sub_v(p).items())
      ''', ["g(3)", "g(4)"])),
 dict(id='p16-dt0-zero', property='P16', file='mdl_2fsv/cmom.py',
      edits=[('            if k[2] != 0 and k[1] != 0:', '            if k[2] != 0 and k[1] > 0:')],
      needs='a derivative with respect to k2 of a formula with a factor n1 k1 + n2 k2 of negative n2',
      breaks='such factors are taken as constant in k2',
      exprs=('''
      from ajdmom.mdl_2fsv.cmom import dt0
      ''', ['dt0(((1, 1, 2), (0, 1, 1)), "k2")', 'dt0(((1, -1, 2), (0, 1, 1)), "k2")'])),
 dict(id='p14-show-progress', property='P14', file='mdl_1fsv/cond_cmom.py',
      edits=[('''        cmoms.append(poly)
        if show: print''', '''        cmoms.append(poly)
        if show:  # the leading term
            print(poly.popitem())
        if show: print''')],
      needs='show=True',
      breaks='the term that is printed is removed from the formula',
      demo='''
      import sys
      from ajdmom.mdl_1fsv.cond_cmom import cmoments_y_to
      sys.exit(0 if [dict(p) for p in cmoments_y_to(3, show=True)] == [dict(p) for p in cmoments_y_to(3)] else 1)
      '''),
]
