From 0d9f3a0e0580457e1b7a61c5edacbe62ff4eb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/15] fix: sum all terms of the recursive equation in
 itos_mom.recursive_IEI_IEII

The recursive equation is a sum over all the applicable terms; the elif chain kept
only the first one.
---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..34408c6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From c48fe46aafafd799f95ed45fff4d1d5d6a4b94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 02/15] fix: itos_mom.int_et takes only n1 = n2 = 0 as the zero
 exponent

n1 + n2 == 0 with n1 != 0, e.g. (1,-1), is the exponent k1 - k2, which is not zero.
---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 34408c6..7621f72 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From 640599ae5c9695fb412e05161c3b4d05fb650fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 03/15] fix: do not accumulate powers over the terms of the
 integral in int_e_IEZ_poly

k6, k7, k8 and k9 were overwritten inside the loop over the terms of the integral, so
every term inherited the powers added for the previous ones.
---
 src/ajdmom/ito_cond_mom.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..3b52aff 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -455,17 +455,9 @@ def int_e_IEZ_poly(coef, m, poly):
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                key2 = (k6, k7, k8[:-1] + (k8[-1] + kk[3],), k9[:-1] + (k9[-1] + kk[4],))
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From 267fe2cef6ae72fb8f7c4953ba731881463df909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/15] fix: give moment_IEII's constants 0 and 1 keys that
 match keyfor

The constant polys had 8 components for a 7-component keyfor, so the moments of order
0, and the vanishing ones of order 1 and 2, could not be used with any other poly.
---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..6aa8e23 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly()
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From 01199a019898d69bc6c95c5e1b3f00f10b7ef3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/15] fix: set keyfor of the second moment of IE in
 mdl_srjd.cond_ie_iez_(c)mom

moment_ie(2), moment_ie_iez(2, 0) and cmoment_ie_iez(2, 0) returned a poly without keyfor.
---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From 613857168cbec44f0b4dda2e7833057b2f7860f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 06/15] fix: pass the parameters on to poly2num in
 mdl_srjd.iez_cmom.cm

---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From e3d294c4ab83ef9198e7f1573824794133275193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/15] fix: key of the zeroth conditional moment in
 mdl_svcj.cond2_mom matches keyfor

The key had 16 components for the 19 of keyfor, so poly2num and m(0, par) failed.
---
 src/ajdmom/mdl_svcj/cond2_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..4354969 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,7 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0, 0, 0, (0,) * len(J)): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From e160b6283747477218824159d94e03365d551230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/15] fix: reject every negative order in moment_IEII and
 moment_IEI_IEII

Only the sum of the orders was checked: (-1, 4, 0) silently gave the zero moment,
(-1, 3, 0) a KeyError; and the ValueError of moment_IEI_IEII was a NameError.
---
 src/ajdmom/ito_cond_mom.py | 2 +-
 src/ajdmom/ito_mom.py      | 2 +-
 src/ajdmom/itos_mom.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 3b52aff..956d276 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -520,7 +520,7 @@ def moment_IEII(n1, n2, n3):
        'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}').
     :rtype: Poly
     """
-    if n1 + n2 + n3 < 0:
+    if n1 < 0 or n2 < 0 or n3 < 0:
         raise ValueError(f"moment_IEII({n1},{n2},{n3}) is called!")
     #
     # IEII: a dict of conditional moments of E[IE_t^{n1}I_t^{n2}I_t^{*n3}]
diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 6aa8e23..c34b8b8 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -361,7 +361,7 @@ def moment_IEII(n3, n4, n5):
        'sigma_v').
     :rtype: Poly
     """
-    if n3 + n4 + n5 < 0:
+    if n3 < 0 or n4 < 0 or n5 < 0:
         raise ValueError(f"moment_IEII({n3},{n4},{n5}) is called!")
     #
     # IEII: a dict of moments of E[IE^{n3}I^{n4}I^{*n5}]
diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 7621f72..6f7922d 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -582,8 +582,8 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :return: poly if return_all=False else IEI_IEII
     :rtype: Poly or dict of Poly
     """
-    if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+    if n4 < 0 or n5 < 0 or n6 < 0 or n7 < 0 or n8 < 0:
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From 5be9d229ef6a198209a8c1fcaa527ebc20f9a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 09/15] fix: the conditional central moment of order 0 is 1,
 not 0

cmoments_y_to(0) returns the moments of orders 0 and 1, of which cmoment_y(0), cm(0, par)
and cond_cm(0, par) took the last one.
---
 src/ajdmom/mdl_1fsv/cond_cmom.py  | 2 +-
 src/ajdmom/mdl_svcj/cond2_cmom.py | 4 ++--
 src/ajdmom/mdl_svij/cond2_cmom.py | 2 +-
 src/ajdmom/mdl_svvj/cond2_cmom.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/mdl_1fsv/cond_cmom.py b/src/ajdmom/mdl_1fsv/cond_cmom.py
index e8b06b4..0efcf8f 100644
--- a/src/ajdmom/mdl_1fsv/cond_cmom.py
+++ b/src/ajdmom/mdl_1fsv/cond_cmom.py
@@ -323,7 +323,7 @@ def cond_cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     cmoment = simplify(cmoment, tp=2)
     # ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
     value = poly2num(cmoment, par)
diff --git a/src/ajdmom/mdl_svcj/cond2_cmom.py b/src/ajdmom/mdl_svcj/cond2_cmom.py
index a6f21b7..61f1faa 100644
--- a/src/ajdmom/mdl_svcj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svcj/cond2_cmom.py
@@ -138,7 +138,7 @@ def cmoments_y_to(l, J):
 
 def cmoment_y(l, J):
     cmoms = cmoments_y_to(l, J)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
@@ -196,7 +196,7 @@ def cm(l, par):
     """
     J = par['jumpsize']  # list of jump sizes
     cmoments = cmoments_y_to(l, J)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     value = poly2num(cmoment, par)
     return value
 
diff --git a/src/ajdmom/mdl_svij/cond2_cmom.py b/src/ajdmom/mdl_svij/cond2_cmom.py
index 69cde99..cc04d68 100644
--- a/src/ajdmom/mdl_svij/cond2_cmom.py
+++ b/src/ajdmom/mdl_svij/cond2_cmom.py
@@ -59,7 +59,7 @@ def cmoments_y_to(l):
 
 def cmoment_y(l):
     cmoms = cmoments_y_to(l)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..24f4b22 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -186,7 +186,7 @@ def cmoment_y(l):
     :rtype: Poly
     """
     cmoments = cmoments_y_to(l)
-    return cmoments[-1]
+    return cmoments[l]
 
 
 def classify(poly):
@@ -292,7 +292,7 @@ def cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]  # need only the last one
+    cmoment = cmoments[l]  # need only the last one
     value = poly2num(cmoment, par)
     return value
 
-- 
2.43.0


From 987d32f2e613fb9a4cb735085f1f80f063570740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 10/15] fix: title line of write_to_csv has one name per column

With no jump columns (n = 0), or with 'l_{1:n}', 'o_{2:n}' in the last position as in
mdl_srjd, the title line had an extra empty name; an empty poly raised UnboundLocalError.
---
 src/ajdmom/poly.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..d6dbcdc 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -301,6 +301,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()  # none in an empty poly
         for k in self.keys():
             l = k[i]
             break
@@ -320,8 +321,7 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
+            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
@@ -336,8 +336,7 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
+            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:])) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-- 
2.43.0


From 59593d983abd31d134428ac28385df629168af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 11/15] fix: quote the fields of write_to_csv that contain
 commas

The columns of the two-factor models have names such as 'v_{1,n-1}' and components such
as (1, 0), which were split over several columns.
---
 src/ajdmom/poly.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index d6dbcdc..ff9f47b 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -55,6 +55,7 @@ Note that :py:meth:`~ajdmom.poly.Poly.merge` (in-place) is different from
 the magic method :code:`__add__()` (not-in-place). The former changes the
 original poly, while the latter does not.
 """
+import csv
 from collections import UserDict
 
 
@@ -282,13 +283,12 @@ class Poly(UserDict):
         # for cases without 'l_{1:n}',...: mdl_1fsv, mdl_1fsvj, mdl_2fsv, mdl_2fsvj
         #
         if 'l_{1:n}' not in self.keyfor:
-            title = ','.join(self.keyfor) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = list(self.keyfor) + ['num', 'den']
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title)
                 for k, v in self.items():
-                    num, den = v.numerator, v.denominator
-                    row = ','.join([str(s) for s in k]) + f',{str(num)},{str(den)}\n'
-                    f.write(row)
+                    writer.writerow(list(k) + [v.numerator, v.denominator])
             print(f"complete the writing of {filename}.")
             return
         #
@@ -321,13 +321,13 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:]) + ['num', 'den']
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2:]
+                    writer.writerow(row + (v.numerator, v.denominator))
         #
         # for cases 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}': mdl_svvj, mdl_svij, mdl_svcj
         #
@@ -336,13 +336,13 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:])) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:]) + ['num', 'den']
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]
+                    writer.writerow(row + (v.numerator, v.denominator))
         print(f"complete the writing of {filename}.")
 
 
-- 
2.43.0


From 01ff993fee75eb3e0ffd4d0043c315bf72118e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 12/15] fix: multilevel_comb of one part returns a list of
 indexes

---
 src/ajdmom/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/utils.py b/src/ajdmom/utils.py
index dcf88d7..44293c7 100644
--- a/src/ajdmom/utils.py
+++ b/src/ajdmom/utils.py
@@ -73,7 +73,9 @@ def multilevel_comb(n, m, show=False):
     :return: list
     """
     if n == 1:
-        return m
+        index = [[m]]
+        if show: print(index)
+        return index
     elif n == 2:
         index = [[i, m - i] for i in range(m+1)]
         if show: print(index)
-- 
2.43.0


From 4f7868f5f436a0745830c7d710b2282f4d3754e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 13/15] fix: rSRD over no time returns the current state
 instead of dividing by zero

---
 src/ajdmom/mdl_srjd/euler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/mdl_srjd/euler.py b/src/ajdmom/mdl_srjd/euler.py
index c9d4837..d5cc171 100644
--- a/src/ajdmom/mdl_srjd/euler.py
+++ b/src/ajdmom/mdl_srjd/euler.py
@@ -21,6 +21,7 @@ def rSRD(v0, tau, k, theta, sigma):
     :return: next sample
     :rtype: float
     """
+    if tau == 0: return v0  # no time to move, e.g., a jump right at the start
     d = 4 * theta * k / (sigma ** 2)  # degrees of freedom
     c = (sigma ** 2) * (1 - math.exp(-k * tau)) / (4 * k)  # leading constant
     lmbd = v0 * math.exp(-k * tau) / c  # non-centrality parameter
-- 
2.43.0


From adec7b7b8eed488b632d3b2978398da86d0554d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:00 +0000
Subject: [PATCH 14/15] fix: the example usage of mdl_1fsvj.(c)mom names the
 last column sigma_j

---
 src/ajdmom/mdl_1fsvj/cmom.py | 2 +-
 src/ajdmom/mdl_1fsvj/mom.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/mdl_1fsvj/cmom.py b/src/ajdmom/mdl_1fsvj/cmom.py
index 545853a..66d6e38 100644
--- a/src/ajdmom/mdl_1fsvj/cmom.py
+++ b/src/ajdmom/mdl_1fsvj/cmom.py
@@ -179,7 +179,7 @@ if __name__ == "__main__":
     print('\nExample usage of the module function\n')
     #
     kf = ('e^{-kh}', 'h', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)',
-          'lambda', 'mu_j', 'sigma_j^2')
+          'lambda', 'mu_j', 'sigma_j')
     print(f"cmoment_y(l) returns a poly with keyfor = \n{kf}")
     args = sys.argv[1:]
     n = 2 if len(args) == 0 else int(args[0])
diff --git a/src/ajdmom/mdl_1fsvj/mom.py b/src/ajdmom/mdl_1fsvj/mom.py
index 6d38440..61ecc9a 100644
--- a/src/ajdmom/mdl_1fsvj/mom.py
+++ b/src/ajdmom/mdl_1fsvj/mom.py
@@ -170,7 +170,7 @@ if __name__ == "__main__":
 
     print('\nExample usage of the module function\n')
     kf = ('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)',
-          'lambda', 'mu_j', 'sigma_j^2')
+          'lambda', 'mu_j', 'sigma_j')
     print(f"moment_y(l) returns a poly with keyfor = \n{kf}")
     args = sys.argv[1:]
     n = 1 if len(args) == 0 else int(args[0])
-- 
2.43.0


From 74157e08237ccd7d39146ae0ebe5aebaeb8d6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:16 +0000
Subject: [PATCH 15/15] fix: scripts/mdl_1fsvj_comp.py: import math, needed
 where a derived moment is zero

---
 scripts/mdl_1fsvj_comp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/mdl_1fsvj_comp.py b/scripts/mdl_1fsvj_comp.py
index 917e439..70cd1ee 100644
--- a/scripts/mdl_1fsvj_comp.py
+++ b/scripts/mdl_1fsvj_comp.py
@@ -1,3 +1,4 @@
+import math
 import numpy as np
 
 from ajdmom.mdl_1fsvj.euler import r1FSVJ
-- 
2.43.0

