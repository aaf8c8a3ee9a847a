From 153c4a83e1437fe3d253fce414a8dfd4b4270c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 01/46] fix: findrfc kernels read past the end of the turning
 points

When the number of turning points is even, the last maximum has no
following minimum; the C and numba kernels read y[n] there.
---
 source/c_library/c_functions.c | 9 +++++----
 src/wafo/_misc_numba.py        | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 352c0ad..cb4f866 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -34,11 +34,12 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    }
 
 
-   if (( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
+   n=n-(int)Tstart; /* number of turningpoints in y */
+   if ((n>2) && ( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
       info[0] = -1;
       return; /*This is not a sequence of turningpoints, exit */
    }
-   if ((*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
+   if ((n>2) && (*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
       info[0]=-1;
       return; /*This is not a sequence of turningpoints, exit */
    }
@@ -49,7 +50,7 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       Tmi=Tstart+2*i;
       Tpl=Tstart+2*i+2;
       xminus=*(y+2*i);
-      xplus=*(y+2*i+2);
+      xplus=(2*i+2<n) ? *(y+2*i+2) : xminus; /* the last max may lack a following min */
 
       if(i!=0){
      j=i-1;
@@ -74,7 +75,7 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       j=i+1;
       while((j<NC) ) {
      if (*(y+2*j+1) >= *(y+2*i+1)) goto L170;
-     if( (*(y+2*j+2) <= xplus) ){
+     if( (2*j+2<n) && (*(y+2*j+2) <= xplus) ){
         xplus=*(y+2*j+2);
         Tpl=(Tstart+2*j+2);
      }/*if*/
diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 9b3f85c..7c5af98 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -172,7 +172,7 @@ def _findrfc(ind, y, h):
         Tmi = t_start + 2 * i
         Tpl = t_start + 2 * i + 2
         xminus = y[2 * i]
-        xplus = y[2 * i + 2]
+        xplus = y[2 * i + 2] if 2 * i + 2 < n else xminus
 
         if(i != 0):
             j = i - 1
@@ -193,7 +193,7 @@ def _findrfc(ind, y, h):
             while (j < nc):
                 if (y[2 * j + 1] >= y[2 * i + 1]):
                     break  # goto L170
-                if((y[2 * j + 2] <= xplus)):
+                if 2 * j + 2 < n and y[2 * j + 2] <= xplus:
                     xplus = y[2 * j + 2]
                     Tpl = (t_start + 2 * j + 2)
                 j += 1
-- 
2.43.0


From 48cb89768cadab81285864978d3ef26906630cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 02/46] fix: findrfc raises IndexError for a single rainflow
 cycle

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..783636b 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1327,8 +1327,8 @@ def findrfc(tp, h=0.0, method='clib'):
     if nc < 1:
         return zeros(0, dtype=int)  # No RFC cycles*/
 
-    if (y[0] > y[1] and y[1] > y[2] or
-            y[0] < y[1] and y[1] < y[2]):
+    if n > 2 and (y[0] > y[1] and y[1] > y[2] or
+                  y[0] < y[1] and y[1] < y[2]):
         warnings.warn('This is not a sequence of turningpoints, exit')
         return zeros(0, dtype=int)
 
-- 
2.43.0


From 102b580e5f1215c704327c2129d045011644c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 03/46] fix: findcross kernels read the first sample of an
 empty series

---
 source/c_library/c_functions.c | 4 ++++
 src/wafo/_misc_numba.py        | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index cb4f866..ae3ffd2 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -130,6 +130,10 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
 void findcross(double *y, double v, int *ind, int n, int *info)
 { int i,start, ix=0,dcross=0;
     start=0;
+    if (n<1) {
+        info[0] = 0; /* no samples, no crossings */
+        return;
+    }
     if  ( y[0]< v){
         dcross=-1; /* first is a up-crossing*/
     }
diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 7c5af98..848ef3b 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -41,6 +41,8 @@ def _findcross(ind, y):
     """
     ix, dcross, start, v = 0, 0, 0, 0
     n = len(y)
+    if n < 1:
+        return ix  # no samples, no crossings
     if y[0] < v:
         dcross = -1  # first is a up-crossing
     elif y[0] > v:
-- 
2.43.0


From 045bc8ded2f4aeb53b51adfaa2a8dc7db032f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 04/46] fix: fixed size stack buffers of the ASTM rainflow
 kernels overflow for long series

---
 source/c_library/c_functions.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index ae3ffd2..6e97e2c 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -1,4 +1,5 @@
 #include "math.h"
+#include <stdlib.h>
 /*
 *  Install gfortran and run the following to build the module on windows:
  *   f2py c_library.pyf c_functions.c -c --fcompiler=gnu95 --compiler=mingw32 -lmsvcr71
@@ -626,10 +627,15 @@ void disufq2(double *rsvec, double *isvec,
 //http://www.mathworks.com/matlabcentral/fileexchange/3026
 void findrfc3_astm(double *array_ext, double *array_out, int n, int *nout) {
 
-    double *pr, *po, a[16384], ampl, mean;
+    double *pr, *po, *a, ampl, mean;
     int tot_num, index, j, cNr1, cNr2;
 
     tot_num = n;
+    nout[0] = nout[1] = 1;
+    a = (double *) malloc(sizeof(double)*n); // n values can be waiting
+    if (a == NULL) {
+        return;
+    }
 
     // pointers to the first element of the arrays
     pr = &array_ext[0];
@@ -683,6 +689,7 @@ void findrfc3_astm(double *array_ext, double *array_out, int n, int *nout) {
             cNr2++;
         }
     }
+    free(a);
     // array of ints nout is outputted
     nout[0] = cNr1;
     nout[1] = cNr2;
@@ -697,9 +704,16 @@ void findrfc3_astm(double *array_ext, double *array_out, int n, int *nout) {
 //http://www.mathworks.com/matlabcentral/fileexchange/3026
 void
 findrfc5_astm(double *array_ext, double *array_t, double *array_out, int n, int *nout) {
-    double *pr, *pt, *po, a[16384], t[16384], ampl, mean, period, atime;
+    double *pr, *pt, *po, *a, *t, ampl, mean, period, atime;
     int tot_num, index, j, cNr1, cNr2;
 
+    nout[0] = nout[1] = 1;
+    a = (double *) malloc(2*sizeof(double)*n); // n values can be waiting
+    if (a == NULL) {
+        return;
+    }
+    t = a + n;
+
 
 //    tot_num = mxGetM(array_ext) * mxGetN(array_ext);
     tot_num = n;
@@ -778,6 +792,7 @@ findrfc5_astm(double *array_ext, double *array_t, double *array_out, int n, int
     }
 //  /* free the memeory !!!*/
 //    mxSetN(array_out, tot_num - cNr);
+    free(a);
     nout[0] = cNr1;
     nout[1] = cNr2;
 }
-- 
2.43.0


From a518a36f09310255ead0d5ee8ff683bde5a9a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:29 +0000
Subject: [PATCH 05/46] fix: level_crossings added a spurious level 0 for
 negative levels with ties

---
 src/wafo/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..d00d4e3 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -797,7 +797,7 @@ class CyclePairs(PlotData):
                 ii += 1
                 extr[:, ii] = extremes[:, i]
 
-        nx = extr[0].argmax() + 1
+        nx = ii + 1  # number of distinct levels
         levels = extr[0, 0:nx]
 
         def _upcrossings_and_maxima(extr, nx):
-- 
2.43.0


From 7c75fab884a6e6bc322d415870050b5012ddb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:29 +0000
Subject: [PATCH 06/46] fix: discretized cycle pairs were shifted one class and
 a reversed first pair was not swapped

---
 src/wafo/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index d00d4e3..c842887 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1053,15 +1053,15 @@ class CyclePairs(PlotData):
 
         # Make so that minima is in first column
         ix = np.flatnonzero(cp1 > cp2)
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
 
         # Make discretization
         a, b, n = param
 
         delta = (b - a) / (n - 1)  # Discretization step
-        cp1 = (cp1 - a) / delta + 1
-        cp2 = (cp2 - a) / delta + 1
+        cp1 = (cp1 - a) / delta
+        cp2 = (cp2 - a) / delta
 
         if ddef == 0:
             cp1 = np.clip(np.round(cp1), 0, n - 1)
@@ -1075,7 +1075,7 @@ class CyclePairs(PlotData):
         else:
             raise ValueError('Undefined discretization definition, ddef = {}'.format(ddef))
 
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
         return np.asarray(cp1, dtype=int), np.asarray(cp2, dtype=int)
 
-- 
2.43.0


From a95cbab7f8b5e7d07ebede4bb703ba15180c40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:55 +0000
Subject: [PATCH 07/46] fix: findtp raises IndexError for wave kinds when no
 rainflow cycle is left

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 783636b..28e89f4 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1489,7 +1489,7 @@ def findtp(x, h=0.0, kind=None, method='clib'):
         ind1 = findrfc(x[ind], h, method)
         ind = ind[ind1]
 
-    if kind in ('mw', 'Mw'):
+    if kind in ('mw', 'Mw') and ind.size > 1:
         # make sure that the first is a Max if wdef == 'Mw'
         # or make sure that the first is a min if wdef == 'mw'
         first_is_max = (x[ind[0]] > x[ind[1]])
-- 
2.43.0


From 4d5a15dfcafea899704c62ece14e0d2c8af7ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:33 +0000
Subject: [PATCH 08/46] fix: findrfc returned uninitialised indices when the C
 kernel rejects its input

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 28e89f4..51fca5d 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1334,7 +1334,7 @@ def findrfc(tp, h=0.0, method='clib'):
 
     if clib is not None and method == 'clib':
         ind, ix = clib.findrfc(y, h)  # pylint: disable=no-member
-        ix = int(ix)
+        ix = max(int(ix), 0)  # -1 if y is not a sequence of turningpoints
     else:
         if isinstance(method, str):
             method = 2
-- 
2.43.0


From e1dc148545c7a6af03716e56bea9ca00da41e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:41 +0000
Subject: [PATCH 09/46] fix: k2w and w2k return a pair of arrays for empty
 input

---
 src/wafo/wave_theory/dispersion_relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/dispersion_relation.py b/src/wafo/wave_theory/dispersion_relation.py
index 0690d5e..2ed8002 100644
--- a/src/wafo/wave_theory/dispersion_relation.py
+++ b/src/wafo/wave_theory/dispersion_relation.py
@@ -75,7 +75,7 @@ def k2w(k1, k2=0e0, h=inf, g=9.81, u1=0e0, u2=0e0):
     k1i, k2i, hi, gi, u1i, u2i = np.broadcast_arrays(k1, k2, h, g, u1, u2)
 
     if np.size(k1i) == 0:
-        return zeros_like(k1i)
+        return zeros_like(k1i), zeros_like(k1i)
     ku1 = k1i * u1i
     ku2 = k2i * u2i
 
@@ -146,7 +146,7 @@ def w2k(w, theta=0.0, h=inf, g=9.81, count_limit=100, rtol=1e-7, atol=1e-14):
     gi = atleast_1d(g)
     wi, th, hi = np.broadcast_arrays(w, theta, h)
     if wi.size == 0:
-        return zeros_like(wi)
+        return zeros_like(wi), zeros_like(wi)
 
     k = 1.0 * sign(wi) * wi ** 2.0 / gi[0]  # deep water
     if (hi > 1e25).all():
-- 
2.43.0


From 749db3366f7d626383ab0e7848ca0e9cf8d9e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:06 +0000
Subject: [PATCH 10/46] fix: transfer functions ignored the given gravity in
 the dispersion relation

---
 src/wafo/wave_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..0fd5c6a 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -324,7 +324,7 @@ class TransferFunction(object):
         '''
         if kw is None:
             # wave number as function of angular frequency
-            kw, unusedkw2 = w2k(w, 0, self.h)
+            kw, unusedkw2 = w2k(w, 0, self.h, self.g)
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
@@ -561,7 +561,7 @@ def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
     gam = _MODELS.jonswap_peakfact(Hm0, Tp)
     Tm02 = Tp / (1.30301 - 0.01698 * gam + 0.12102 / gam)
     w = 2 * np.pi / Tm02
-    kw, unused_kw2 = w2k(w, 0, h)
+    kw, unused_kw2 = w2k(w, 0, h, g)
 
     hk = kw * h
     zk1 = kw * z
-- 
2.43.0


From b2e4d85143e4e3fe3b19c5dca1c6a714816e81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:06 +0000
Subject: [PATCH 11/46] fix: TransferFunction.tran changed the arrays of its
 caller

---
 src/wafo/wave_theory/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 0fd5c6a..853b6b5 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -328,17 +328,16 @@ class TransferFunction(object):
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = theta.reshape(-1, 1)
+        kw = kw.reshape(-1)
+        w = w.reshape(-1)
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
 
         # New call to avoid singularities. pab 07.11.2000
         # Set Hw to 0 for expressions w*hyperbolic_ratio(z*k,h*k,1,-1)= 0*inf
-        ind = np.flatnonzero(1 - np.isfinite(Hw))
-        Hw.flat[ind] = 0
+        Hw = np.where(np.isfinite(Hw), Hw, 0)
 
         sgn = np.sign(Hw)
         k0 = np.flatnonzero(sgn < 0)
-- 
2.43.0


From 562abdfca262ce03c5feef2be1831c743a3c8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:06 +0000
Subject: [PATCH 12/46] fix: TransferFunction.tran raised IndexError for
 negative gains

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 853b6b5..be68568 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -343,7 +343,7 @@ class TransferFunction(object):
         k0 = np.flatnonzero(sgn < 0)
         if len(k0):  # make sure Hw>=0 ie. transfer negative signs to Gwt
             Gwt[:, k0] = -Gwt[:, k0]
-            Hw[:, k0] = -Hw[:, k0]
+            Hw[k0] = -Hw[k0]
 
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
-- 
2.43.0


From 00704152c243ec3de29e8bee533b2cbcf6f35d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:06 +0000
Subject: [PATCH 13/46] fix: TransferFunction could not be evaluated for
 numeric sensor types

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index be68568..ebbf4ed 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -273,7 +273,7 @@ class TransferFunction(object):
                  bet=1, igam=1, thetax=90, thetay=0):
         self.pos = pos
         self.sensortype = sensortype if isinstance(
-            sensortype, str) else sensor_type(sensortype)
+            sensortype, str) else sensor_type(sensortype)[0]
         self.h = h
         self.g = g
         self.rho = rho
-- 
2.43.0


From 1758c756449d4a99a0f32a109d7a87595b89f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:29 +0000
Subject: [PATCH 14/46] fix: transfer functions of submerged sensors were zero
 at the default infinite depth

---
 src/wafo/wave_theory/core.py | 51 +++++++++++++++---------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index ebbf4ed..e9410c5 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -384,6 +384,17 @@ class TransferFunction(object):
             zk = kw * z  # z measured positive upward from sea floor
         return zk
 
+    def _hyperbolic_ratio(self, kw, sa, sb):
+        """
+        Return f(zk, sa)/f(hk, sb) where f(x, 1)=cosh(x) and f(x, -1)=sinh(x)
+        """
+        if np.isinf(self.h) and self.igam in (1, 2):
+            # limit when the depth grows: exp(-|kw|*(distance to the surface))
+            z = self.pos[2] if self.igam == 1 else -self.pos[2]
+            ratio = exp(np.abs(kw) * z)
+            return ratio if sa == sb else np.sign(kw) * ratio
+        return hyperbolic_ratio(self._get_zk(kw), kw * self.h, sa, sb)
+
     # --- Surface elevation ---
     def _n(self, w, theta, kw):
         '''n = Eta = wave profile
@@ -433,84 +444,64 @@ class TransferFunction(object):
     def _p(self, w, theta, kw):
         ''' pressure fluctuations'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # hyperbolic_ratio =  cosh(zk)/cosh(hk)
-        return self.rho * self.g * hyperbolic_ratio(zk, hk, 1, 1), ee
+        return self.rho * self.g * self._hyperbolic_ratio(kw, 1, 1), ee
 
     # --- Water particle velocities ---
     def _u(self, w, theta, kw):
         ''' U = x-velocity'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), cos(theta)*ee
-        return w * hyperbolic_ratio(zk, hk, 1, -1), cthx * ee
+        return w * self._hyperbolic_ratio(kw, 1, -1), cthx * ee
 
     def _v(self, w, theta, kw):
         '''V = y-velocity'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), sin(theta)*ee
-        return w * hyperbolic_ratio(zk, hk, 1, -1), cthy * ee
+        return w * self._hyperbolic_ratio(kw, 1, -1), cthy * ee
 
     def _w(self, w, theta, kw):
         ''' W = z-velocity'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), -?
-        return w * hyperbolic_ratio(zk, hk, -1, -1), -1j * ee
+        return w * self._hyperbolic_ratio(kw, -1, -1), -1j * ee
 
     # --- Water particle acceleration ---
     def _u_t(self, w, theta, kw):
         ''' U_t = x-acceleration'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthx * ee
+        return (w ** 2) * self._hyperbolic_ratio(kw, 1, -1), -1j * cthx * ee
 
     def _v_t(self, w, theta, kw):
         ''' V_t = y-acceleration'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthy * ee
+        return (w ** 2) * self._hyperbolic_ratio(kw, 1, -1), -1j * cthy * ee
 
     def _w_t(self, w, theta, kw):
         ''' W_t = z-acceleration'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, -1, -1), -ee
+        return (w ** 2) * self._hyperbolic_ratio(kw, -1, -1), -ee
 
     # --- Water particle displacement ---
     def _x_p(self, w, theta, kw):
         ''' X_p = x-displacement'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
-        return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthx * ee
+        return self._hyperbolic_ratio(kw, 1, -1), 1j * cthx * ee
 
     def _y_p(self, w, theta, kw):
         ''' Y_p = y-displacement'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
-        return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthy * ee
+        return self._hyperbolic_ratio(kw, 1, -1), 1j * cthy * ee
 
     def _z_p(self, w, theta, kw):
         ''' Z_p = z-displacement'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
-        return hyperbolic_ratio(zk, hk, -1, -1), ee  # sinh(zk)./sinh(hk), ee
+        return self._hyperbolic_ratio(kw, -1, -1), ee  # sinh(zk)./sinh(hk), ee
 
 
 def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
-- 
2.43.0


From 542633ab73283809deb56bd471490af5e0d811b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:43 +0000
Subject: [PATCH 15/46] fix: TrHermite with a polynomial that is not monotone
 everywhere could not be built or inverted

---
 src/wafo/transform/models.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..f4378eb 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -7,7 +7,7 @@ TrLinear
 '''
 # !/usr/bin/env python
 from scipy.optimize import brentq  # @UnresolvedImport
-from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos, ceil,
+from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos,
                    expm1, log1p, pi)
 import numpy as np
 import warnings
@@ -164,7 +164,7 @@ class TrHermite(TrCommon2):
             self._softening_parameters = self._winterstein1994
 
     def _check_c3_c4(self, c3, c4):
-        _assert(np.isfinite(c3) and np.isfinite(c4),
+        _assert(np.isrealobj(c4) and np.isfinite(c3) and np.isfinite(c4),
                 'Unable to calculate the polynomial')
         if abs(c4) < sqrt(_EPS):
             c4 = 0.0
@@ -211,12 +211,12 @@ class TrHermite(TrCommon2):
     def _set_x_limit(self, root, polynom):
         """Compute where it is possible to invert the polynomial"""
         if self.kurt <= 3.:
-            self._x_limit = root
+            self._x_limit = self.sigma * root + self.mean
         else:
             self._x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %s''' % self._x_limit
         warnings.warn(txt1)
 
     def _check_monotonicity(self, p):
@@ -340,22 +340,19 @@ class TrHermite(TrCommon2):
 #            Km1 = np.sqrt(1.+2.*c3**2+6*c4**2)
 #            q0 = x0**3-1.5*b1*(x0+xn*Km1)
         # q0 = x0**3-1.5*b1*(x0+xn)
-        if self._x_limit is not None:  # % Three real roots
+        q2 = q0 ** 2 + p1 ** 3
+        # Find the real root of the monic polynomial
+        q1 = sqrt(np.maximum(q2, 0))
+        root = np.cbrt(q1 - q0) - np.cbrt(q1 + q0) - x0
+        three = q2 < 0
+        if np.any(three):  # % Three real roots
             d = sqrt(-p1)
-            theta1 = arccos(-q0 / d ** 3) / 3
+            theta1 = arccos(-q0[three] / d ** 3) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-            x1 = abs(2 * d * cos(theta1[ceil(len(xn) / 2)] + th2) - x0)
+            x1 = abs(2 * d * cos(theta1[(len(theta1) - 1) // 2] + th2) - x0)
             ix = x1.argmin()  # choose the smallest solution
-            return 2. * d * cos(theta1 + th2[ix]) - x0
-        else:                # Only one real root exist
-            q1 = sqrt((q0) ** 2 + p1 ** 3)
-            # Find the real root of the monic polynomial
-            A0 = (q1 - q0) ** (1. / 3.)
-            B0 = -(q1 + q0) ** (1. / 3.)
-            return A0 + B0 - x0  # real root
-            # The other complex roots are given by
-            # x= -(A0+B0)/2+(A0-B0)*sqrt(3)/2-x0
-            # x=-(A0+B0)/2+(A0-B0)*sqrt(-3)/2-x0
+            root[three] = 2. * d * cos(theta1 + th2[ix]) - x0
+        return root
 
 
 class TrLinear(TrCommon2):
-- 
2.43.0


From 8808c45877fc416d710e6539b071635916617d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 16/46] fix: lazywhere truncated the function values for an
 integer fill value

---
 src/wafo/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 51fca5d..e008ef8 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -286,7 +286,8 @@ def lazywhere(cond, arrays, f, fillvalue=None, f2=None):
 
     arrays = np.broadcast_arrays(*arrays)
     temp = tuple(np.extract(cond, arr) for arr in arrays)
-    out = np.full(np.shape(arrays[0]), fill_value=fillvalue)
+    tcode = np.mintypecode([a.dtype.char for a in arrays])
+    out = np.full(np.shape(arrays[0]), fill_value=fillvalue, dtype=np.result_type(tcode, fillvalue))
     np.place(out, cond, f(*temp))
     if f2 is not None:
         temp = tuple(np.extract(~cond, arr) for arr in arrays)
-- 
2.43.0


From 3e1b001dcb9614428661ad14952c670848f6a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 17/46] fix: lazyselect used the last true condition where
 np.select uses the first

---
 src/wafo/misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index e008ef8..63789ec 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -326,8 +326,7 @@ def lazyselect(condlist, choicelist, arrays, default=0):
     arrays = np.broadcast_arrays(*arrays)
     tcode = np.mintypecode([a.dtype.char for a in arrays])
     out = valarray(np.shape(arrays[0]), value=default, typecode=tcode)
-    for index, cond in enumerate(condlist):
-        func = choicelist[index]
+    for cond, func in reversed(list(zip(condlist, choicelist))):  # the first true condition wins
         if np.all(cond is False):
             continue
         cond, _ = np.broadcast_arrays(cond, arrays[0])
-- 
2.43.0


From 156ca9b5d486294cdcca3dc270a5a004b976d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:53 +0000
Subject: [PATCH 18/46] fix: findoutliers returned a single outlier among the
 good points too and missed a missing first value

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 63789ec..bf2575a 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1717,7 +1717,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
     _assert(2 < xn.size, 'The vector must have more than 2 elements!')
 
     i_missing = _find_nans(xn)
-    if np.any(i_missing):
+    if i_missing.size > 0:
         xn[i_missing] = 0.  # set NaN's to zero
     if dcrit is None:
         dcrit = 1.5 * xn.std()
@@ -1737,7 +1737,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
                      _find_consecutive_equal_values(dxn, zcrit)))
 
     indg = ones(xn.size, dtype=bool)
-    if ind.size > 1:
+    if ind.size > 0:
         ind = np.unique(ind)
         indg[ind] = 0
     indg, = np.nonzero(indg)
-- 
2.43.0


From 5bd55d00ca2fd48e915d3e9033f2d7e00999843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:53 +0000
Subject: [PATCH 19/46] fix: findoutliers kept the first point of equal values
 at the beginning of the series

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index bf2575a..baf078d 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1709,7 +1709,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
             # indices to consecutive equal points
             # removing the point before + all equal points + the point after
 
-            return np.hstack((i_step - 1, i_small, i_step, i_step + 1))
+            return np.hstack((i_step - 1, i_small - 1, i_small, i_step + 1))
         return i_small
 
     xn = np.asarray(x).flatten()
-- 
2.43.0


From b19e0d5292fd12bef8ff9a93b7131509eb763483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 20/46] fix: fourth derivative in tranproc used the second
 derivative in place of the third

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index baf078d..700c76d 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2582,7 +2582,7 @@ def tranproc(x, f, x0, *xi):
         """
         return (fxder[3] * xi[0] ** 4. + fxder[0] * xi[3] +
                 6. * fxder[2] * xi[0] ** 2. * xi[1] +
-                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[1]))
+                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[2]))
 
     xo, fo, x0 = np.atleast_1d(x, f, x0)
     xi = np.atleast_1d(*xi)
-- 
2.43.0


From a93c38f7e5a95f9d9f742645adf89215d12c9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 21/46] fix: trangood extrapolated to the right from the
 unsorted table with the step of the new one

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 700c76d..f7905ad 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2475,7 +2475,7 @@ def trangood(x, f, min_n=None, min_x=None, max_x=None, max_n=inf):
 
     if max_x > xo[-1]:
         x1 = dx * np.arange(1, np.ceil((max_x - xo[-1]) / dx) + 1)
-        f2 = f[-1] + x1 * (f[-1] - f[-2]) / (xo[-1] - xo[-2])
+        f2 = fo[-1] + x1 * (fo[-1] - fo[-2]) / (xo[-1] - xo[-2])
         fo = np.hstack((fo, f2))
         xo = np.hstack((xo, x1 + xo[-1]))
 
-- 
2.43.0


From 8b761d587c6f596bbe7e40c73c484176fdead38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 22/46] fix: nt2fr subtracted the last column in place of the
 shifted matrix

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..d1ca82d 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -26,7 +26,7 @@ def nt2fr(nt, kind=0):
     """
 
     n = len(nt)
-    fr_raw = (nt[:n - 1, :][:, n - 1] + nt[1:, :][:, 1:] -
+    fr_raw = (nt[:n - 1, :][:, :n - 1] + nt[1:, :][:, 1:] -
               nt[:n - 1, :][:, 1:] - nt[1:, :][:, :n - 1])
 
     fr = np.zeros(np.shape(nt))
-- 
2.43.0


From 7a0ea956f9cc2bbb36af55be031bb3624de8ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 23/46] fix: fr2nt accumulated over the flattened matrix and
 always failed

---
 src/wafo/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index d1ca82d..ac8db76 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -58,9 +58,9 @@ def fr2nt(fr):
     if n != m:
         raise ValueError('The matrix is not square!')
 
-    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr)
+    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr, axis=0)
     m2 = np.zeros((n, n))
-    m2[1:, 1:] = m1[:n - 2, :][:, 1:]
+    m2[1:, 1:] = m1[:n - 1, :][:, 1:]
     nt = np.fliplr(np.triu(np.fliplr(m2), 0))
 
     return nt
-- 
2.43.0


From 530a21c14966df5d78abdee3ae6d9d85fc840eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 24/46] fix: gridcount failed for or misplaced data at the
 upper end of the grid

---
 src/wafo/kdetools/gridding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..52d579b 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -353,6 +353,7 @@ def gridcount(data, X, y=1):
 
     dx = np.diff(x[:, :2], axis=1)
     binx = np.asarray(np.floor((dataset - xlo[:, np.newaxis]) / dx), dtype=int)
+    binx = np.minimum(binx, inc - 2)  # data at the upper end of the grid
     w = dx.prod()
     if d == 1:
         return _gridcount_1d(acfun, dataset, x, y, w, binx, inc)
-- 
2.43.0


From 7fe404673d0e7a224ad1af1ee9bdcb47de85e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 25/46] fix: polyreloc truncated the coefficients of integer
 polynomials

---
 src/wafo/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9a2be6c..e0f1a8c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -477,7 +477,7 @@ def orthofit(x, y, n):
     # ys = np.dot(p[0, :], PL)  # smoothed y
 
 
-def polyreloc(p, x, y=0.0):
+def polyreloc(p, x, y=0):
     """
     Relocate polynomial
 
@@ -526,7 +526,8 @@ def polyreloc(p, x, y=0.0):
         return r
 
     def _relocate_with_horner(p, x, y):
-        r = np.atleast_1d(p).copy()
+        r = np.atleast_1d(p)
+        r = r.astype(np.result_type(r, x, y))
         n = r.shape[0]
         # Relocate polynomial using Horner's algorithm
         for ii in range(n, 1, -1):
-- 
2.43.0


From e16865e4c570643b5b9e31159056ce2d441797b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 26/46] fix: chebval truncated the values to integers for an
 integer fill value

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index e0f1a8c..d5b93e2 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1567,7 +1567,7 @@ def chebval(x, ck, a=-1, b=1, kind=1, fill=None):
         f = _chebval(y, ck, kind=kind)
     else:
         cond = (abs(y) <= 1)
-        f = np.where(cond, 0, fill)
+        f = np.where(cond, 0.0, fill)
         if np.any(cond):
             yk = np.extract(cond, y)
             f[cond] = _chebval(yk, ck, kind=kind)
-- 
2.43.0


From 4662ce2cf651d66f3f55429e55df8345f8120831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 27/46] fix: chebder doubled the constant term and failed for
 degree 0 and 1

---
 src/wafo/polynomial.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index d5b93e2..cfae84f 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1620,11 +1620,15 @@ def chebder(ck, a=-1, b=1):
     """
 
     n = len(ck) - 1
+    if n < 1:
+        return np.zeros(1)
     cder = np.zeros(n, dtype=np.asarray(ck).dtype)
-    cder[0] = 2 * n * ck[0]
-    cder[1] = 2 * (n - 1) * ck[1]
-    for j in range(2, n):
-        cder[j] = cder[j - 2] + 2 * (n - j) * ck[j]
+    for j in range(n):
+        cder[j] = 2 * (n - j) * ck[j]
+        if j > 1:
+            cder[j] += cder[j - 2]
+    cder = cder * 1.0
+    cder[-1] /= 2  # the constant term is not doubled in chebval
 
     return cder * 2. / (b - a)  # Normalize to the interval b-a.
 
-- 
2.43.0


From ff85ab70eed12150ee173769e5ec519379952a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 28/46] fix: chebint mixed up the order of the coefficients and
 dropped the highest one

---
 src/wafo/polynomial.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index cfae84f..d3ae4bd 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1689,22 +1689,15 @@ def chebint(ck, a=-1, b=1):
 
     n = len(ck)
 
-    cint = np.zeros(n)
     con = 0.25 * (b - a)
-
-    dif1 = np.diff(ck[-1::-2])
-    ix1 = np.r_[1:n - 1:2]
-    cint[ix1] = -(con * dif1) / ix1
-    if n > 3:
-        dif2 = np.diff(ck[-2::-2])
-        ix2 = np.r_[2:n - 1:2]
-        cint[ix2] = -(con * dif2) / ix2
-    cint = cint[::-1]
-    # cint(n) is a special case
-    cint[-1] = (con * ck[n - 2]) / (n - 1)
-    # Set integration constant
-    cint[0] = 2 * np.sum((-1) ** np.r_[0:n - 1] * cint[-2::-1])
-    return cint
+    cn = np.hstack((ck[::-1], 0, 0))  # increasing order
+    cn[0] = 2 * cn[0]  # int T0(x) is a special case
+    ix = np.arange(1, n + 1)
+    cint = np.zeros(n + 1, dtype=(cn * con).dtype)
+    cint[1:] = con * (cn[:n] - cn[2:]) / ix
+    # Set integration constant so that the integral is zero at a
+    cint[0] = -np.sum((-1) ** ix * cint[1:])
+    return cint[::-1]
 
 
 class Cheb1d(object):
-- 
2.43.0


From 27474e8844d17c07fc4b39d8d8178f59f354113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 29/46] fix: Cheb1d could not be built, added, negated,
 differentiated or integrated

---
 src/wafo/polynomial.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index d3ae4bd..8950f8f 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1712,9 +1712,12 @@ class Cheb1d(object):
             for key in ck.__dict__:
                 self.__dict__[key] = ck.__dict__[key]
             return
-        cki = trim_zeros(np.atleast_1d(ck), 'b')
+        cki = np.atleast_1d(ck)
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
+        cki = np.trim_zeros(cki, 'f')
+        if len(cki) == 0:
+            cki = np.zeros(1)
         self.__dict__['coeffs'] = cki
         self.__dict__['order'] = len(cki) - 1
         self.__dict__['a'] = a
@@ -1742,18 +1745,14 @@ class Cheb1d(object):
         pass
 
     def __neg__(self):
-        new = Cheb1d(self)
-        new.coeffs = -self.coeffs
-        return new
+        return Cheb1d(-self.coeffs, self.a, self.b, self.kind)
 
     def __pos__(self):
         return self
 
     def __add__(self, other):
         other = Cheb1d(other)
-        new = Cheb1d(self)
-        new.coeffs = polyadd(self.coeffs, other.coeffs)
-        return new
+        return Cheb1d(polyadd(self.coeffs, other.coeffs), self.a, self.b, self.kind)
 
     def __radd__(self, other):
         return self.__add__(other)
@@ -1762,9 +1761,7 @@ class Cheb1d(object):
         return self.__add__(-other)
 
     def __rsub__(self, other):
-        new = self.__sub__(other)
-        new.coeffs *= -1
-        return new
+        return -self.__sub__(other)
 
     def __eq__(self, other):
         other = Cheb1d(other)
@@ -1817,7 +1814,8 @@ class Cheb1d(object):
 
         """
         integ = Cheb1d(self)
-        integ.coeffs = chebint(self.coeffs, self.a, self.b)
+        for _ in range(m):
+            integ = Cheb1d(chebint(integ.coeffs, self.a, self.b), self.a, self.b, self.kind)
         return integ
 
     def deriv(self, m=1):
@@ -1832,7 +1830,8 @@ class Cheb1d(object):
 
         """
         der = Cheb1d(self)
-        der.coeffs = chebder(self.coeffs, self.a, self.b)
+        for _ in range(m):
+            der = Cheb1d(chebder(der.coeffs, self.a, self.b), self.a, self.b, self.kind)
         return der
 
 
-- 
2.43.0


From de12046e773f62fbffacb2375a5e22307d47158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 30/46] fix: star import of wafo.polynomial failed on
 misspelled names

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 8950f8f..03ea7fe 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -34,7 +34,7 @@ except ImportError:
 __all__ = np.lib.polynomial.__all__
 __all__ = __all__ + ['pade', 'padefit', 'polyreloc', 'polyrescl', 'polytrim',
                      'poly2hstr', 'poly2str', 'polyshift', 'polyishift',
-                     'map_from_intervall', 'map_to_intervall', 'cheb2poly',
+                     'map_from_interval', 'map_to_interval', 'cheb2poly',
                      'chebextr', 'chebroot', 'chebpoly', 'chebfit', 'chebval',
                      'chebder', 'chebint', 'Cheb1d', 'dct', 'idct',
                      'chebfitnd', 'chebvalnd']
-- 
2.43.0


From 6cb08ee6bcf5852d011346ff2ce5af9a7d860518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 31/46] fix: PPform truncated the values at integer points

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 34497ac..45f8bc0 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -348,7 +348,7 @@ class PPform(object):
     def __call__(self, xnew):
         saveshape = np.shape(xnew)
         xnew = np.ravel(xnew)
-        res = np.empty_like(xnew)
+        res = np.empty(xnew.shape, dtype=np.result_type(xnew, self.coeffs, float))
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
-- 
2.43.0


From c0ebedf004268a7d89c8057c5d767b2d21220f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 32/46] fix: derivative and integral of a PPform lost its
 interval of definition

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 45f8bc0..64da183 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -428,7 +428,7 @@ class PPform(object):
 
         cof = pl.polyder(self.coeffs)
         brks = self.breaks.copy()
-        return PPform(cof, brks, fill=self.fill)
+        return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
     def integrate(self):
         """
@@ -450,7 +450,7 @@ class PPform(object):
 
             cof[-1] = np.hstack((0, vv)).cumsum()
 
-        return PPform(cof, self.breaks, fill=self.fill)
+        return PPform(cof, self.breaks, fill=self.fill, a=self.a, b=self.b)
 
 #     def fromspline(self, xk, cvals, order, fill=0.0):
 #         N = len(xk) - 1
-- 
2.43.0


From f646f271539a9886e34016612f969309bdea3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 33/46] fix: piecewise linear PPform was not extrapolated and
 SmoothSpline failed for two points

---
 src/wafo/interpolate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 64da183..f1a1bee 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -375,9 +375,10 @@ class PPform(object):
 
         if self.order <= max_order:
             if output:
-                return self
-            else:
-                return
+                return PPform(self.coeffs, self.breaks, a=-inf, b=inf)
+            self.a = -inf
+            self.b = inf
+            return
         breaks = self.breaks.copy()
         coefs = self.coeffs.copy()
         # pieces = len(breaks) - 1
@@ -637,7 +638,7 @@ class SmoothSpline(PPform):
         dydx = np.diff(y) / dx
 
         if (n == 2):  # straight line
-            coefs = np.vstack([dydx.ravel(), y[0, :]])
+            coefs = np.vstack([dydx.ravel(), y[..., :1].ravel()])
             return coefs, x
         D = sparse.spdiags(var * ones(n), 0, n, n)  # The variance
         coefs = self._poly_coefs(y, dx, dydx, n, nd, p, D)
-- 
2.43.0


From fe48040d21f8bbc2f1d9eff847a4c36790c00a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 34/46] fix: steffen slopes had the wrong sign at the ends of
 decreasing data

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index f1a1bee..c3ea244 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -842,8 +842,8 @@ def _steffen_slope(x, y, dx, dydx, *args):
         p1 = dydx[-1] * (1 + w1) - dydx[-2] * w1
         s0 = np.sign(p0) + np.sign(dydx[0])
         s1 = np.sign(p1) + np.sign(dydx[-1])
-        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * p0)
-        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * p1)
+        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * np.abs(p0))
+        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * np.abs(p1))
     else:
         yp[0] = 2.0 * dydx[0] - yp[1]
         yp[-1] = 2.0 * dydx[-1] - yp[-2]
-- 
2.43.0


From 18e3c9879f395d60b9461dc9f8c49d735e6faba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 35/46] fix: monotone slopes were not monotone

---
 src/wafo/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index c3ea244..814c2f1 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -975,6 +975,9 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
 
         with np.errstate(divide='ignore', invalid='ignore'):
             # ignore division by zero and NaN
+            # slopes against the direction of the data
+            yp[:-1][yp[:-1] / dydx < 0] = 0.0
+            yp[1:][yp[1:] / dydx < 0] = 0.0
             alpha = yp[:-1] / dydx
             beta = yp[1:] / dydx
             dist = alpha ** 2 + beta ** 2
@@ -988,9 +991,11 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
 
         # Find the indices that need adjustment
         indices_to_fix, = (dist > 9.0).nonzero()
+        factor = np.ones(yp.shape)
         for ii in indices_to_fix:
-            yp[ii] = tau[ii] * alpha[ii] * dydx[ii]
-            yp[ii + 1] = tau[ii] * beta[ii] * dydx[ii]
+            factor[ii] = min(factor[ii], tau[ii])
+            factor[ii + 1] = min(factor[ii + 1], tau[ii])
+        yp = factor * yp
     if scale:
         return yp * sy/sx
     return yp
-- 
2.43.0


From 8048930a29eb77b359c84d06d62bda00d7e5a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 36/46] fix: Cheb1d objects of different order compare unequal
 instead of raising or broadcasting

---
 src/wafo/polynomial.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 03ea7fe..7a2a344 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1765,12 +1765,11 @@ class Cheb1d(object):
 
     def __eq__(self, other):
         other = Cheb1d(other)
-        return (np.all(self.coeffs == other.coeffs) and (self.a == other.a) and
+        return (np.array_equal(self.coeffs, other.coeffs) and (self.a == other.a) and
                 (self.b == other.b) and (self.kind == other.kind))
 
     def __ne__(self, other):
-        return np.any(self.coeffs != other.coeffs) or (self.a != other.a) or (
-            self.b != other.b) or (self.kind != other.kind)
+        return not self == other
 
     def __setattr__(self, key, val):
         raise ValueError("Attributes cannot be changed this way.")
-- 
2.43.0


From 4cd7b88f710031c97caa72df2cade0f06897c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 37/46] fix: chebfitnd mixed up scale and right hand side,
 weights apply to the rows

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 7a2a344..2916f26 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2240,7 +2240,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
         if w is not None:
             w = np.asarray(w).ravel() + 0.0
             _check_size(w, len(lhs))
-            lhs = lhs * w
+            lhs = lhs * w[:, None]
             rhs = rhs * w
         scl = _scale(lhs)
         return lhs, scl, rhs
@@ -2253,7 +2253,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
     orders = degrees + 1
     order = np.product(orders)
 
-    lhs, rhs, scl = _init(xi, z, w, degrees, order)
+    lhs, scl, rhs = _init(xi, z, w, degrees, order)
 
     if rcond is None:
         rcond = xi[0].size * np.finfo(xi[0].dtype).eps
-- 
2.43.0


From 5954bf149d0094ec89c07cc8ac34ac4b738010cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 38/46] fix: chebfit_dct returns the coefficients of three or
 more variables in the order of the variables

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 2916f26..527ea49 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1352,8 +1352,8 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
         if hasattr(f, '__call__'):
             xi = [map_to_interval(chebroot(ni), d[0], d[1])
                   for ni, d in _zip(n, domain)]
-            Xi = np.meshgrid(*xi)
-            return f(*Xi) / np.product(n), len(n)
+            Xi = np.meshgrid(*xi, indexing='ij')
+            return np.rollaxis(f(*Xi), axis=-1) / np.product(n), len(n)
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
-- 
2.43.0


From 4101f28d95003a0b28346ccb0e56534796cfe364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:33 +0000
Subject: [PATCH 39/46] fix: accumsum_sparse works for one-dimensional
 accumulation (coo_matrix shape and integer column index)

---
 src/wafo/kdetools/gridding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index 52d579b..6299f13 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -63,9 +63,9 @@ def accumsum_sparse(accmap, a, shape=None, dtype=None):
             (a.ravel(), (binx, biny)), shape=shape, dtype=dtype).tocsr()
     else:
         binx = accmap.ravel()
-        zero = np.zeros(len(binx))
+        zero = np.zeros(len(binx), dtype=int)
         out = sparse.coo_matrix(
-            (a.ravel(), (binx, zero)), shape=(shape, 1), dtype=dtype).tocsr().T
+            (a.ravel(), (binx, zero)), shape=(shape[0], 1), dtype=dtype).tocsr().T
     return out
 
 
-- 
2.43.0


From 02eef318e49c60bbacb0ccae44e7b196f30a29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 40/46] fix: Spreading methods donelan and banner call the
 existing helper functions

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 1b54893..fb3aae0 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1906,7 +1906,7 @@ class Spreading(object):
         k = flatnonzero(wn_up < wn)
         s[k] = spb * (wn_up) ** mb
         # Convert to S-paramater in COS-2S distribution
-        r1 = self.r1ofsech2(s)
+        r1 = self._r1ofsech2(s)
         s = r1 / (1. - r1)
         return s
 
@@ -1919,8 +1919,8 @@ class Spreading(object):
         s3p = self._donelan(wn_up)
         #  Scale so that parametrization will be continous
         scale = s3m / s3p
-        s[k] = scale * self.donelan(wn[k])
-        r1 = self.r1ofsech2(s)
+        s[k] = scale * self._donelan(wn[k])
+        r1 = self._r1ofsech2(s)
         # Convert to S-paramater in COS-2S distribution
         s = r1 / (1. - r1)
 
-- 
2.43.0


From 4405b2e97afd9164ca8840400a6b0e14fdd6bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 41/46] fix: narrow von Mises and sech-2 spreading start from
 the end of the table instead of raising

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index fb3aae0..8fcb829 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1848,7 +1848,7 @@ class Spreading(object):
             return sp.ive(1, x) / sp.ive(0, x)
 
         K0 = hstack((linspace(0, 10, 513), linspace(10.00001, 100)))
-        funK = interp1d(fun0(K0), K0)
+        funK = interp1d(fun0(K0), K0, bounds_error=False)
         K0 = funK(r1.ravel())
         k1 = flatnonzero(isnan(K0))
         if (k1.size > 0):
@@ -1865,7 +1865,7 @@ class Spreading(object):
         """ Returns the solution of R1 = pi/(2*B*sinh(pi/(2*B)).
         """
         B0 = hstack((linspace(_EPS, 5, 513), linspace(5.0001, 100)))
-        funB = interp1d(self._r1ofsech2(B0), B0)
+        funB = interp1d(self._r1ofsech2(B0), B0, bounds_error=False)
 
         B0 = funB(r1.ravel())
         k1 = flatnonzero(isnan(B0))
-- 
2.43.0


From 173a5f9b672fa28712341a7c0ce54ab2e9d0eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 42/46] fix: first Fourier coefficient of sech-2 spreading is
 zero, not nan, for zero spread parameter

---
 src/wafo/spectrum/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 8fcb829..8353cd7 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1985,7 +1985,7 @@ class Spreading(object):
         """ R1OFSECH2   Computes R1 = pi./(2*B.*sinh(pi./(2*B)))
         """
         realmax = finfo(float).max
-        tiny = 1. / realmax
+        tiny = 2 * pi / realmax  # so that pi / x is finite
         x = clip(2. * B, tiny, realmax)
         xk = pi / x
         return where(x < 100., xk / sinh(xk),
-- 
2.43.0


From 53f848d714195ae83d53bfc487e220b9d331f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 43/46] fix: wrapped normal spreading is evaluated at the given
 angles

---
 src/wafo/spectrum/models.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 8353cd7..b2b175e 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -32,13 +32,12 @@ from scipy.interpolate import interp1d
 import scipy.optimize as optimize
 import scipy.integrate as integrate
 import scipy.special as sp
-from scipy.fftpack import fft
 import numpy as np
 from numpy import (inf, atleast_1d, newaxis, minimum, maximum, array,
-                   asarray, exp, log, sqrt, where, pi, arange, linspace, sin,
+                   asarray, exp, log, sqrt, where, pi, linspace, sin,
                    cos, sinh, isfinite, mod, expm1, tanh, cosh, finfo,
                    ones, ones_like, isnan, zeros_like, flatnonzero, sinc,
-                   hstack, vstack, real, flipud, clip)
+                   hstack, flipud, clip)
 from wafo.wave_theory.dispersion_relation import w2k, k2w  # @UnusedImport
 from wafo.spectrum.core import SpecData1D, SpecData2D
 
@@ -1663,22 +1662,16 @@ class Spreading(object):
             Parameter defining the actual principal direction of D.
         """
 
-        par, TH, phi0, Nt = self.chk_input(theta, w, wc)
+        par, TH, phi0 = self.chk_input(theta, w, wc)[:3]
 
         D1 = par ** 2. / 2.
 
-        ix = arange(1, Nt)
-        ix2 = ix ** 2
-        Nd2 = D1.size
-        Fcof = vstack((ones((1, Nd2)) / 2, exp(-ix2[:, newaxis] * D1))) / pi
-
-        cor = exp(1j * ix[:, newaxis] * TH[0, :])
-        # correction term to get
-        Pcor = vstack((ones((1, TH.shape[1])), cor))
-        # the correct integration limits
-        Fcof = Fcof * Pcor.conj()
-        D = real(fft(Fcof, axis=0))
-        D[D < 0] = 0
+        # truncate the sum where the Fourier coefficients are negligible
+        num_terms = int(np.ceil(sqrt(-log(_EPS) / D1.min())))
+        D = ones(np.broadcast(D1, TH).shape) / 2
+        for n in range(1, num_terms + 1):
+            D += exp(-n ** 2 * D1) * cos(n * TH)
+        D = maximum(D / pi, 0)
         return D, phi0
 
     def sech2(self, theta, w=1, wc=1):
-- 
2.43.0


From 79fabd0b15901000ba37d9d06f9c9a67d8b27e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 44/46] fix: bandwidth accepts a single factor and eps4 by name
 is the broadness factor

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..ab7318c 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3627,9 +3627,9 @@ class SpecData1D(PlotData):
         '''
 
         m = self.moment(nr=4, even=False)[0]
-        if isinstance(factors, str):
+        if np.ndim(factors) == 0:
             factors = [factors]
-        fact_dict = dict(alpha=0, eps2=1, eps4=3, qp=3, Qp=3)
+        fact_dict = dict(alpha=0, eps2=1, eps4=2, qp=3, Qp=3)
         fact = array([fact_dict.get(idx, idx)
                       for idx in list(factors)], dtype=int)
 
-- 
2.43.0


From c786a3c32c58a11d397c884284fb8a2c187f0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 45/46] fix: characteristics of a spectrum given in Hz use
 angular frequency throughout

---
 src/wafo/spectrum/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index ab7318c..b338921 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3778,6 +3778,9 @@ class SpecData1D(PlotData):
         # vari = self.freqtype
         f = self.args.ravel()
         S1 = self.data.ravel()
+        if self.freqtype == 'f':
+            f = 2.0 * pi * f
+            S1 = S1 / (2.0 * pi)
         m, unused_mtxt = self.moment(nr=4, even=False)
 
         # moments corresponding to freq  in Hz
-- 
2.43.0


From 5457106c76b7eba498057fe6c1209b17d1c0ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:45 +0000
Subject: [PATCH 46/46] fix: Langley's quadratic transfer function squares the
 acceleration of gravity in every term

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index b338921..9d63113 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -193,7 +193,7 @@ def qtf(w, h=inf, g=9.81, method='winterstein', rtol=1e-7, atol=0):
     if method.startswith('langley'):
         p_1 = (-2 * w1p2 * (k12 * g ** 2. - w12 ** 2.) +
                w_1 * (w_2 ** 4. - g ** 2 * k_2 ** 2) +
-               w_2 * (w_1 ** 4 - g * 2. * k_1 ** 2)) / (4. * w12 + _TINY)
+               w_2 * (w_1 ** 4 - g ** 2 * k_1 ** 2)) / (4. * w12 + _TINY)
 
         p_2 = w1p2 ** 2. * cosh((k1p2) * h) - g * (k1p2) * sinh((k1p2) * h)
         p_2 += _TINY * np.int_(p_2 == 0)
-- 
2.43.0

