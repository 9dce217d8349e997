From 20cb0e14629d37dc251bc112b109be0596791eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 01/62] fix: accept multiple quantizers in the fast simulateDSM
 backends

nlev was reshaped to a single entry, so that the documented vector form
was always rejected. Specifications by NTF remain for one input and one
quantizer and now say so rather than reading past the end of D1.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 7 +++++--
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..2f575b1 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -48,10 +48,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
@@ -81,6 +81,9 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if nu != 1 or nq != 1:
+                # The NTF form is for single input, single quantizer only
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..579c6d7 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -55,10 +55,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.asarray(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
@@ -88,6 +88,9 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if nu != 1 or nq != 1:
+                # The NTF form is for single input, single quantizer only
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
-- 
2.43.0


From 1c657ae748f56bb0d32da79563fc2f0dbd33e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 02/62] fix: accept any array_like as simulateDSM input with
 the fast backends

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 4 ++--
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 2f575b1..59ca7f8 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -62,7 +62,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_u = np.asarray(u, dtype=np.float64, order='C')
         if c_u.ndim > 2:
             raise TypeError()
-        if c_u.ndim == 1:
+        if c_u.ndim < 2:
             c_u = c_u.reshape(1, -1)
     except (ValueError, TypeError):
         raise ValueError(\
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 579c6d7..b620934 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
@@ -69,7 +69,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_u = np.asarray(u, dtype=np.float64, order='C')
         if c_u.ndim > 2:
             raise TypeError()
-        if c_u.ndim == 1:
+        if c_u.ndim < 2:
             c_u = c_u.reshape(1, -1)
     except (ValueError, TypeError):
         raise ValueError(\
-- 
2.43.0


From a5b4d2515489d063b0644a40460a06e0ba524e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 03/62] fix: store states and handle many inputs/quantizers in
 slow simulateDSM

The pure Python simulator could not store the evolution of more than one
state variable, nor deal with different numbers of inputs and quantizers
or with many quantizers.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..2db9610 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,7 +73,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    nlev = np.asarray(nlev).reshape(-1)
 
     # Make sure that input is a matrix
     u = np.asarray(u)
@@ -148,14 +148,16 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        # Work on column vectors
+        ui = u[:, i:i+1]
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, ui))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i:i+1] = y0
+        v[:, i:i+1] = ds_quantize(y0, nlev)
+        x0 = np.dot(A, x0) + np.dot(B, np.vstack((ui, v[:, i:i+1])))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i:i+1] = x0
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
-- 
2.43.0


From 42a527404d1e87c44f456387647a217ba4a79503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:13 +0000
Subject: [PATCH 04/62] fix: validate arguments as documented in the slow
 simulateDSM

The pure Python simulator let inconsistent arguments through or raised
errors other than the ones in the documentation, differently from the
other backends.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 69 ++++++++++++++++++--------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 2db9610..274f43e 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -72,37 +72,64 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     warn('Running the slow version of simulateDSM.',
          PyDsmSlowPathWarning)
 
-    # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(-1)
+    # Make sure that nlev is a 1D int array
+    try:
+        nlev = np.asarray(nlev, dtype=np.int32)
+        if nlev.ndim > 1:
+            raise TypeError()
+        nlev = nlev.reshape(-1)
+    except (ValueError, TypeError):
+        raise ValueError("Invalid argument: nlev must be convertible into "
+                         "a 1D int array")
 
     # Make sure that input is a matrix
-    u = np.asarray(u)
-    if u.ndim == 1:
-        u = u.reshape(1, -1)
+    try:
+        u = np.asarray(u, dtype=float)
+        if u.ndim > 2:
+            raise TypeError()
+        if u.ndim < 2:
+            u = u.reshape(1, -1)
+    except (ValueError, TypeError):
+        raise ValueError("Invalid argument: u must be convertible into "
+                         "a 2D float array")
 
     nu = u.shape[0]
     nq = np.size(nlev)
 
-    if type(arg2) == tuple and len(arg2) == 3:
-        # Assume ntf in zpk form
-        (ntf_z, ntf_p, ntf_k) = arg2
-        form = 2
-        order = len(ntf_z)
-    else:
-        # Assume ABCD form
-        ABCD = np.asarray(arg2)
-        if ABCD.shape[1] == nu+ABCD.shape[0]:
-            # ABCD dimensions OK
+    try:
+        if type(arg2) == tuple and len(arg2) == 3:
+            # Assume ntf in zpk form
+            ntf_z = np.asarray(arg2[0], dtype=complex)
+            ntf_p = np.asarray(arg2[1], dtype=complex)
+            float(arg2[2])
+            if ntf_z.ndim != 1 or ntf_p.ndim != 1:
+                raise TypeError()
+            if nu != 1 or nq != 1:
+                # The NTF form is for single input, single quantizer only
+                raise TypeError()
+            form = 2
+            order = len(ntf_z)
+        else:
+            # Assume ABCD form
+            ABCD = np.asarray(arg2, dtype=float)
+            if ABCD.ndim != 2 or ABCD.shape[1] != nu+ABCD.shape[0]:
+                raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
-        else:
-            raise ValueError('Incorrect modulator specification')
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect modulator specification')
 
     # Assure that the state is a column vector
-    if np.isscalar(x0) and x0 == 0:
-        x0 = np.zeros((order, 1))
-    else:
-        x0 = np.array(x0, dtype=float).reshape(-1, 1)
+    try:
+        if np.isscalar(x0) and x0 == 0:
+            x0 = np.zeros((order, 1))
+        else:
+            x0 = np.array(x0, dtype=float)
+            if x0.ndim < 1 or x0.ndim > 2 or x0.size != order:
+                raise TypeError()
+            x0 = x0.reshape(-1, 1)
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect initial condition specification')
 
     if form == 1:
         A = ABCD[0:order, 0:order]
-- 
2.43.0


From 1c14eddd22da7b5b3450d52c894c7aa036a8d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:13 +0000
Subject: [PATCH 05/62] fix: let ds_quantize take scalars and vectors as
 documented

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 274f43e..deb20d3 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -222,6 +222,9 @@ def ds_quantize(y, n):
     This definition gives the same step height for both mid-riser and
     mid-tread quantizers.
     """
+    shape = np.shape(y)
+    y = np.atleast_1d(y)
+    n = np.atleast_1d(n)
     v = np.empty_like(y)
     for qi in range(np.size(n)):
         if np.remainder(n[qi], 2) == 0:
@@ -229,5 +232,5 @@ def ds_quantize(y, n):
         else:
             v[qi] = 2*np.floor(0.5*(y[qi]+1))
         L = n[qi]-1
-        v[qi, 0] = np.max((np.min((v[qi, 0], L)), -L))
-    return v
+        v[qi] = np.maximum(np.minimum(v[qi], L), -L)
+    return v.reshape(shape)[()]
-- 
2.43.0


From 108cdc84353274b23ceaa7dbc50c157b6df7af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 06/62] fix: give the 10th order optimal zeros in ds_optzeros

The table had the entry for order 8 at order 10, leaving two zeros at
the band center.
---
 src/pydsm/delsig/_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_ds.py b/src/pydsm/delsig/_ds.py
index 5158045..adb4d98 100644
--- a/src/pydsm/delsig/_ds.py
+++ b/src/pydsm/delsig/_ds.py
@@ -188,8 +188,8 @@ def ds_optzeros(n, opt=1):
                                    0.9681602])
         elif n == 10:
             if opt == 1:
-                optZeros = np.asarray([0.1834370913, 0.5255334458,
-                                       0.7966668433, 0.9602899327])
+                optZeros = np.asarray([0.14887434, 0.43339539, 0.67940957,
+                                       0.86506337, 0.97390653])
             else:
                 optZeros = np.asarray([0, 0.41572267, 0.67208682, 0.86238894,
                                        0.97342121])
-- 
2.43.0


From 1814901bec18657805b7721705fd6f67be81fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 07/62] fix: place the bandpass stopband of
 synthesizeChebyshevNTF correctly

Multiplying a tuple by 2 repeated the band edges rather than normalizing
them to half the sampling frequency, so that the NTF zeros ended up
around f0/2.
---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 3a63fc8..4dd77df 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -110,7 +110,6 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         raise ValueError('Order must be even for a bandpass modulator.')
     else:
         f1, f2 = ds_f1f2(osr, f0)
-        f1f2 = (f1, f2)
 
     # Iteratively solve for the attenuation spec (x) which yields the
     # desired H_inf
@@ -144,7 +143,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         if f0 == 0:
             z, p, k = cheby2(order, x, 1./osr, 'high', output='zpk')
         else:
-            z, p, k = cheby2(order/2, x, 2*f1f2, 'stop',
+            z, p, k = cheby2(order//2, x, (2*f1, 2*f2), 'stop',
                              output='zpk')
         f = 1./k - H_inf
         # print (x, f)
-- 
2.43.0


From e3a19746c5414919b82b7e5df94c545827b64442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:44 +0000
Subject: [PATCH 08/62] fix: keep the order of bandpass NTFs with zeros passed
 explicitly

synthesizeNTF returned half of the poles, or failed, in this case.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 2 ++
 src/pydsm/delsig/_synthesizeNTF1.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index e669f12..4e1d846 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -86,6 +86,8 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        if f0 != 0:
+            order = order*2
 
     p = np.zeros(order)
     k = 1
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index de713fd..bb9c818 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -89,6 +89,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        if f0 != 0:
+            order = order*2
 
     zp = z[np.angle(z) > 0]
     x0 = (np.angle(zp)-2*np.pi*f0) * osr / np.pi
-- 
2.43.0


From 8b0fd1394fcb27d8175eb106d72491cf92ef13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 09/62] fix: correct the exponents in the ISO 226 loudness
 computation

The exponent in tabled_B_f took in the sum only, so that tabled_L_N did
not return loudness levels (ISO 226 sect. 4.2).
---
 src/pydsm/iso226.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..f0ff8a3 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -269,8 +269,8 @@ def tabled_B_f(L_p, hfe=False):
     reference pressure level P0 (close to the hearing threshold at 1 kHz and
     set to 20 uPa RMS).
     """
-    B_f = ((0.4*10**(L_p+tbl_L_U)/10.-9.)**tbl_alpha_f -
-           (0.4*10**(tbl_T_f+tbl_L_U)/10.-9.)**tbl_alpha_f +
+    B_f = ((0.4*10.0**((L_p+tbl_L_U)/10.0-9.0))**tbl_alpha_f -
+           (0.4*10.0**((tbl_T_f+tbl_L_U)/10.0-9.0))**tbl_alpha_f +
            0.005135)
     return np.append(B_f, B_f[0]) if hfe else B_f
 
-- 
2.43.0


From 9b9f6a31ed98c078ad3a00d834dd2dd6c531ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 10/62] fix: return copies of the ISO 226 tables

Changing in place a table returned by the tabled_... functions altered
all the loudness contours computed afterwards.
---
 src/pydsm/iso226.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index f0ff8a3..798acdf 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -129,7 +129,7 @@ def tabled_f(hfe=False):
     f : array of floats
         the frequency table.
     """
-    return np.append(tbl_f, 20E3) if hfe else tbl_f
+    return np.append(tbl_f, 20E3) if hfe else tbl_f.copy()
 
 
 def tabled_alpha_f(hfe=False):
@@ -146,7 +146,7 @@ def tabled_alpha_f(hfe=False):
     alpha_f : array of floats
         the exponents table.
     """
-    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f
+    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f.copy()
 
 
 def tabled_L_U(hfe=False):
@@ -168,7 +168,7 @@ def tabled_L_U(hfe=False):
     The returned values are the magnitude of the linear transfer function
     normalized at 1 kHz.
     """
-    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U
+    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U.copy()
 
 
 def tabled_T_f(hfe=False):
@@ -185,7 +185,7 @@ def tabled_T_f(hfe=False):
     T_f : array of floats
         the thresholds table.
     """
-    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f
+    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f.copy()
 
 
 # Check that it works fine when L_N is array
-- 
2.43.0


From 596aaca119484358ea57f5abf487875a2edb6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 11/62] fix: make the A-weighting filter consistent with the
 A-weighting

One pole was at 739.9 Hz rather than at 737.9 Hz.
---
 src/pydsm/audio_weightings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index e09be2f..99f775b 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -111,7 +111,7 @@ __all__ = ["a_zpk", "a_weighting", "b_zpk", "b_weighting",
            "f_zpk", "f_weighting"]
 
 a_zpk = (2*np.pi*np.asarray([0., 0., 0., 0.]),
-         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -739.9, -12200., -12200.]),
+         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -737.9, -12200., -12200.]),
          (2*np.pi*12200.)**2)
 """A-weighting filter in zpk form."""
 
-- 
2.43.0


From 0936ddcefd8697416c36424849a1e7583e642bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 12/62] fix: let eps return the distance to the next floating
 point number

A fraction of its argument was returned, which is the same only for
powers of two. Also take integers.
---
 src/pydsm/relab.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..f1dc2fd 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -76,16 +76,9 @@ def eps(x=1.):
     1.1920929e-07
     """
 
-    def _eps(xi):
-        return np.finfo(xi).eps * np.abs(xi)
     if isinstance(x, (type, np.dtype)):
         return np.finfo(x).eps
-    elif np.isscalar(x):
-        return _eps(x)
-    x = np.asarray(x)
-    d = np.empty_like(x)
-    d.flat = [_eps(xi) for xi in x.flat]
-    return d
+    return np.spacing(np.abs(x))
 
 
 def db(x, signal_type='voltage', R=1):
-- 
2.43.0


From c29612ec271fdc436b08c5b0f8c665f4a0444bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 13/62] fix: let idtft_hermitian use its own default options

The defaults of idtft were used, and shared, instead.
---
 src/pydsm/ft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..5b53b16 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -239,7 +239,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options, [],
+                            ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
@@ -247,4 +248,5 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         return np.asarray([_idtft_hermitian(Ff, t, fs, **opts['quad_opts'])
                            for t in tt])
 
-idtft_hermitian.default_options = idtft.default_options.copy()
+idtft_hermitian.default_options = {
+    "quad_opts": idtft.default_options["quad_opts"].copy()}
-- 
2.43.0


From f6402da12e472f9084e9fbb2011dc77de50b245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:55 +0000
Subject: [PATCH 14/62] fix: let dtft_hermitian take any array_like as
 documented

---
 src/pydsm/ft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 5b53b16..54a3d66 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -138,7 +138,7 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = x.real
+    x = np.asarray(x).real
     return lambda f: \
         x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
 
-- 
2.43.0


From 5ae8c2e9571783a1a97635ee491e8f08bb48b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:00 +0000
Subject: [PATCH 15/62] fix: return seven zeros from dunn_optzeros(7)

Eight were returned, so that ntf_dunn could not design 7th order NTFs.
---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..c6a2d71 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -106,7 +106,7 @@ def dunn_optzeros(n):
                          [3.590, -3.590, 11.954, -11.954],
                          [0.0, 4.308, -4.308, 12.959, -12.959],
                          [3.325, -3.325, 7.078, -7.078, 13.389, -13.389],
-                         [0.0, 0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
+                         [0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-- 
2.43.0


From 3b69a5a323f9644f1067aafbb663b256d62c2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:00 +0000
Subject: [PATCH 16/62] fix: do not raise deprecation warnings from ntf_dunn

The function is current, but relied on a deprecated alias.
---
 src/pydsm/NTFdesign/psychoacoustic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index c6a2d71..e9888f9 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -53,7 +53,7 @@ Deprecated functions
 from __future__ import division, print_function
 
 import numpy as np
-from .delsig import synthesizeNTF
+from .delsig import ntf_schreier
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
@@ -189,7 +189,7 @@ def ntf_dunn(order=3, osr=64, H_inf=1.5):
     --------
     pydsm.delsig.synthesizeNTF : DELSIG's optimal NTF design strategy.
     """
-    return synthesizeNTF(order, osr, dunn_optzeros_cplx(order, osr), H_inf, 0)
+    return ntf_schreier(order, osr, dunn_optzeros_cplx(order, osr), H_inf, 0)
 
 
 def ntf_fir_audio_weighting(
-- 
2.43.0


From 868d97f8b3aa84cc8d9cc897af4cd9a508c6c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:00 +0000
Subject: [PATCH 17/62] fix: let ntf_fir_minmax preassign zeros with the cvxpy
 modeler

zf=True relied on cvxpy interfaces that are not there anymore.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..b0a57e3 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -97,7 +97,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at DC
-                F += [cvxpy.sum_entries(c) == -1]
+                F += [cvxpy.sum(c) == -1]
         else:
             # Bandpass modulator
             M1r = (A.T @ P @ A + Q @ A*np.cos(omega0) +
@@ -121,11 +121,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = np.matrix(np.cos(omega0*nn))
-                vi = np.matrix(np.sin(omega0*nn))
-                vn = np.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [c*cvxpy.hstack(vr, vi) == vn]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
-- 
2.43.0


From 35235f16a56ebe285b81d29705e98c5d57a3a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:56 +0000
Subject: [PATCH 18/62] fix: let ntf_fir_minmax preassign bandpass zeros with
 the picos modeler

zf=True always failed with a TypeError for bandpass modulators.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..36edb75 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -126,11 +126,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = cvxopt.matrix(np.cos(omega0*nn))
-                vi = cvxopt.matrix(np.sin(omega0*nn))
+                vv = cvxopt.matrix(
+                    np.hstack((np.cos(omega0*nn), np.sin(omega0*nn))))
                 vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                p.add_constraint(c*(vr & vi) == vn)
+                    [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
+                p.add_constraint(c*vv == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From a56d300def66d7877cb0d9abbcc2337347db3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 19/62] fix: let cplxpair take integer arrays as documented

---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index f1dc2fd..bedc4ad 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -293,5 +293,5 @@ def cplxpair(x, tol=None, dim=None):
         try:
             tol = 100*eps(x.dtype)
         except:
-            tol = 100*eps(np.float)
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From a59472d408821f6a55101a0952ce10a595963fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 20/62] fix: keep conjugates adjacent in cplxpair when many
 pairs share their real part

---
 src/pydsm/relab.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index bedc4ad..b9e1a5e 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -278,9 +278,9 @@ def cplxpair(x, tol=None, dim=None):
                 raise ValueError('Complex numbers cannot be paired')
             # Output should contain "perfect" pairs. Hence, keep entries
             # with positive imaginary parts amd use conjugate for pair
-            x_cplx[start:start+sim_len] = np.concatenate(
-                (np.conj(sub_x[:sim_len//2-1:-1]),
-                 sub_x[:sim_len//2-1:-1]))
+            sub_x = sub_x[sim_len//2:]
+            x_cplx[start:start+sim_len:2] = np.conj(sub_x)
+            x_cplx[start+1:start+sim_len:2] = sub_x
             start += sim_len
         return np.concatenate((x_cplx, x_real))
 
-- 
2.43.0


From 790ebf70061b20d7803d2bbb2a5d12db31f72e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 21/62] fix: keep imaginary parts in cplxpair for
 multidimensional arrays

---
 src/pydsm/relab.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index b9e1a5e..959fd04 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -294,4 +294,7 @@ def cplxpair(x, tol=None, dim=None):
             tol = 100*eps(x.dtype)
         except:
             tol = 100*eps(float)
-    return np.apply_along_axis(cplxpair_vec, dim, x, tol)
+    y = np.apply_along_axis(
+        lambda v: cplxpair_vec(v, tol).astype(x.dtype), dim, x)
+    # A single vector of real values is returned as real
+    return y.real if x.ndim == 1 and not np.any(np.imag(y)) else y
-- 
2.43.0


From 61cf61ff1a6633a2fcf2d46622665d62fba39ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 22/62] fix: compute the documented cross correlation in
 raw_xcorr

---
 src/pydsm/correlations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 26b1e6b..607ca42 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -108,6 +108,6 @@ def raw_xcorr(x, y, N):
     """
     mx = len(x)
     my = len(y)
-    q = np.asarray([np.dot(y[k:min(my, mx+k)],
-                           x[0:min(my-k, mx)]) for k in range(N+1)])
+    q = np.asarray([np.dot(x[k:min(mx, my+k)],
+                           y[0:max(min(mx-k, my), 0)]) for k in range(N+1)])
     return q
-- 
2.43.0


From 291c508fa5948b1392139b485ee55a0cc90136f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 23/62] fix: let ntf_hybrid_weighting use its own default
 options for the solvers

---
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..61918d1 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -573,17 +573,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -591,13 +591,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
-- 
2.43.0


From 021dbdda897824986101e7e768fd12d9a29f5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 24/62] fix: do not share nested default options among
 functions

---
 src/pydsm/NTFdesign/filter_based.py             | 10 ++++++----
 src/pydsm/NTFdesign/psychoacoustic.py           |  4 +++-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 10 +++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..5b76080 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -47,6 +47,8 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
+
 from .merit_factors import quantization_noise_gain as _quantization_noise_gain
 from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
@@ -131,7 +133,7 @@ def quantization_noise_gain(NTF, H, H_type='zpk', **options):
     return _quantization_noise_gain(NTF, w, **opts)
 
 quantization_noise_gain.default_options = \
-    _quantization_noise_gain.default_options.copy()
+    deepcopy(_quantization_noise_gain.default_options)
 
 
 def quantization_noise_gain_by_conv(NTF, H, H_type='zpk', db=80):
@@ -213,7 +215,7 @@ def q0_from_filter(P, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return q0
 
-q0_from_filter.default_options = q0_weighting.default_options.copy()
+q0_from_filter.default_options = deepcopy(q0_weighting.default_options)
 
 
 def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
@@ -301,6 +303,6 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
 synthesize_ntf_from_filter.default_options = \
-    q0_from_filter.default_options.copy()
+    deepcopy(q0_from_filter.default_options)
 synthesize_ntf_from_filter.default_options.update(
-    ntf_fir_from_q0.default_options)
+    deepcopy(ntf_fir_from_q0.default_options))
diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index e9888f9..84df67c 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -52,6 +52,8 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
+
 import numpy as np
 from .delsig import ntf_schreier
 from ..delsig import undbp as undbp
@@ -293,7 +295,7 @@ def ntf_fir_audio_weighting(
     return ntf_fir_weighting(order, w, H_inf, normalize, **options)
 
 ntf_fir_audio_weighting.default_options = \
-    ntf_fir_weighting.default_options.copy()
+    deepcopy(ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 61918d1..c0674fe 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -35,6 +35,8 @@ The optimization is practiced in two steps:
 
 from __future__ import division, print_function
 
+from copy import deepcopy
+
 import numpy as np
 from ...ft import idtft_hermitian
 from ...delsig import evalTF, padr
@@ -442,8 +444,9 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-ntf_fir_weighting.default_options = q0_weighting.default_options.copy()
-ntf_fir_weighting.default_options.update(ntf_fir_from_q0.default_options)
+ntf_fir_weighting.default_options = deepcopy(q0_weighting.default_options)
+ntf_fir_weighting.default_options.update(
+    deepcopy(ntf_fir_from_q0.default_options))
 
 
 def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
@@ -648,7 +651,8 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                      'use_indirect': False},
                                         'show_progress': True,
                                         'fix_pos': True}
-ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
+ntf_hybrid_weighting.default_options.update(
+    deepcopy(q0_weighting.default_options))
 
 
 # Following part is deprecated
-- 
2.43.0


From bf3bf8e596bf85f81911d5c1dc0ac9a64d0e243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 25/62] fix: honor the default options of
 ntf_fir_audio_weighting

---
 src/pydsm/NTFdesign/psychoacoustic.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 84df67c..180de99 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -61,6 +61,7 @@ from .. import audio_weightings
 from .weighting import ntf_fir_weighting
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
+from ..utilities import digested_options
 
 __all__ = ["dunn_optzeros", "dunn_optzeros_cplx", "synthesize_ntf_dunn",
            "synthesize_ntf_from_audio_weighting",
@@ -286,13 +287,25 @@ def ntf_fir_audio_weighting(
         elif audio_weighting == 'd':
             audio_weighting = audio_weightings.d_weighting
 
+    # Manage optional parameters
+    defaults = ntf_fir_audio_weighting.default_options
+    opts = digested_options(options, defaults,
+                            ['show_progress', 'fix_pos', 'modeler'],
+                            ['quad_opts'], False)
+    solver = 'cvxopt'
+    if opts['modeler'] == 'cvxpy':
+        opts.update(digested_options(options, defaults,
+                                     [], ['cvxpy_opts'], False))
+        solver = opts['cvxpy_opts']['solver']
+    opts.update(digested_options(options, defaults, [], [solver + '_opts']))
+
     def w(f):
         ma = undbp(-max_attn)
         fx = f*audio_band*2*osr
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts)
 
 ntf_fir_audio_weighting.default_options = \
     deepcopy(ntf_fir_weighting.default_options)
-- 
2.43.0


From 18abe3257a88fc36791e4b59d6f6a4cee07afe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 26/62] fix: let synthesize_ntf_from_filter take partial
 quad_opts

---
 src/pydsm/NTFdesign/filter_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 5b76080..bc13eda 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -294,7 +294,7 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     # Manage optional parameters
     opts1 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
+                             [], ['quad_opts'], False)
     opts2 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
                              ['show_progress'], ['cvxopt_opts'])
-- 
2.43.0


From 6dca7a1c1c5c16b77cc73615da970ff4ba51baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 27/62] fix: use integer indices in cvxpy_tdr reshape

---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From edbf82a54644661901fb88c0d5199fb23eb1d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 28/62] fix: make cvxpy_tdr sparse matrices work with current
 scipy

---
 src/pydsm/cvxpy_tdr/arrays.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 04e6dfd..f57dcd8 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -680,7 +680,6 @@ class cvxpy_spmatrix(sp.lil_matrix):
 
         # Call parent constructor
         sp.lil_matrix.__init__(self,arg,dtype=dtype)
-        self.format = sp.lil_matrix.__name__[:3]
 
     # Method: _create_col_based_rep
     def _create_col_based_rep(self):
@@ -725,7 +724,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__radd__(self,other)
+            return sp.lil_matrix.__radd__(self,other)
 
     # Method: __sub__
     def __sub__(self,other):
@@ -734,7 +733,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__sub__(self,other)
+            return sp.lil_matrix.__sub__(self,other)
 
     # Method: __rsub__
     def __rsub__(self,other):
@@ -743,7 +742,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rsub__(self,other)
+            return sp.lil_matrix.__rsub__(self,other)
 
     # Method: __mul__
     def __mul__(self,other):
@@ -752,7 +751,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__mul__(self,other)
+            return sp.lil_matrix.__mul__(self,other)
 
     # Method: __rmul__
     def __rmul__(self,other):
@@ -761,7 +760,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rmul__(self,other)
+            return sp.lil_matrix.__rmul__(self,other)
 
 #***********************************************************************#
 # Class definition: cvxpy_sparray                                       #
-- 
2.43.0


From 39891b827efe85d89d7349843a56d034205f4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 29/62] fix: let simulateDSM resume first order modulators from
 their final state

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy.py       | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 59ca7f8..c1ea350 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -105,7 +105,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             c_x0 = np.zeros((order, 1), dtype=np.float64)
         else:
             c_x0 = np.array(x0, dtype=np.float64, order='C')
-            if c_x0.ndim < 1 or c_x0.ndim > 2:
+            if c_x0.ndim > 2:
                 raise TypeError()
             c_x0=c_x0.reshape(-1, 1)
             if c_x0.shape[0]!=order:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index deb20d3..cdd0f12 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -125,7 +125,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             x0 = np.zeros((order, 1))
         else:
             x0 = np.array(x0, dtype=float)
-            if x0.ndim < 1 or x0.ndim > 2 or x0.size != order:
+            if x0.ndim > 2 or x0.size != order:
                 raise TypeError()
             x0 = x0.reshape(-1, 1)
     except (ValueError, TypeError):
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index b620934..801ddca 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -112,7 +112,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             c_x0 = np.zeros((order, 1), dtype=np.float64)
         else:
             c_x0 = np.array(x0, dtype=np.float64, order='C')
-            if c_x0.ndim < 1 or c_x0.ndim > 2:
+            if c_x0.ndim > 2:
                 raise TypeError()
             c_x0=c_x0.reshape(-1, 1)
             if c_x0.shape[0]!=order:
-- 
2.43.0


From 9428cc9c5b62b3066426beb968749fa8c4fd3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 30/62] fix: prevent cancellation when synthesizeNTF places
 small poles

---
 src/pydsm/delsig/_synthesizeNTF0.py | 16 ++++++++++------
 src/pydsm/delsig/_synthesizeNTF1.py | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index 4e1d846..b08411d 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -110,9 +110,11 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
                 w = (2*np.arange(1, order+1)+1)*np.pi/order
                 mb2 = 1+me2*np.exp(1j*w)
                 p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
+                # Reflect poles to be inside the unit circle, starting from
+                # those outside, whose evaluation is not prone to cancellation
+                inside = abs(p) < 1
+                p[inside] = 2*mb2[inside] - p[inside]
+                p = 1/p
                 # The following is not exactly what delsig does.
                 # We do not have an identical cplxpair
                 p = cplxpair(p)
@@ -151,9 +153,11 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             w = (2*np.arange(order)+1)*np.pi/order
             mb2 = c2pif0 + e2*np.exp(1j*w)
             p = mb2 - np.sqrt(mb2**2-1)
-            # Reflect poles to be inside the unit circle
-            out = abs(p) > 1
-            p[out] = 1/p[out]
+            # Reflect poles to be inside the unit circle, starting from
+            # those outside, whose evaluation is not prone to cancellation
+            inside = abs(p) < 1
+            p[inside] = 2*mb2[inside] - p[inside]
+            p = 1/p
             # The following is not exactly what delsig does.
             p = cplxpair(p)
             f = np.real(evalTF((z, p, k), z_inf))-H_inf
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index bb9c818..e73717f 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -128,9 +128,11 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     w = (2*np.arange(1, order+1)+1)*np.pi/order
                     mb2 = 1+me2*np.exp(1j*w)
                     p = mb2 - np.sqrt(mb2**2-1)
-                    # Reflect poles to be inside the unit circle
-                    out = abs(p) > 1
-                    p[out] = 1/p[out]
+                    # Reflect poles to be inside the unit circle, starting from
+                    # those outside, whose evaluation is not prone to cancellation
+                    inside = abs(p) < 1
+                    p[inside] = 2*mb2[inside] - p[inside]
+                    p = 1/p
                     # The following is not exactly what delsig does.
                     # We do not have an identical cplxpair
                     p = cplxpair(p)
@@ -170,9 +172,11 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 w = (2*np.arange(order)+1)*np.pi/order
                 mb2 = c2pif0 + e2*np.exp(1j*w)
                 p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
+                # Reflect poles to be inside the unit circle, starting from
+                # those outside, whose evaluation is not prone to cancellation
+                inside = abs(p) < 1
+                p[inside] = 2*mb2[inside] - p[inside]
+                p = 1/p
                 # The following is not exactly what delsig does.
                 p = cplxpair(p)
                 f = np.real(evalTF((z, p, k), z_inf))-H_inf
-- 
2.43.0


From 06f8a72ea18c869597aa1206689df76431ff8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 31/62] fix: let synthesizeChebyshevNTF converge to the
 required H_inf

---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 4dd77df..458d6ab 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -116,11 +116,11 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
     x_min = 0.
     x_max = 300.
     dx_max = 10.
-    ftol = 1e-6
-    xtol = 1e-6
+    ftol = 1e-9
+    xtol = 1e-9
     # Initial guess for x
     x = 60.
-    itn_limit = 10
+    itn_limit = 100
     converged = False
     f_p = 0.
 
@@ -145,7 +145,8 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         else:
             z, p, k = cheby2(order//2, x, (2*f1, 2*f2), 'stop',
                              output='zpk')
-        f = 1./k - H_inf
+        # Peak gain error, on a log scale because gain is exponential in x
+        f = -np.log(k*H_inf)
         # print (x, f)
         if f > 0:
             # x is too big
@@ -159,7 +160,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         else:
             # Normal iteration
             df = f - f_p
-            if np.abs(df) < ftol:
+            if np.abs(f) < ftol:
                 converged = True
                 break
             dx = -f * dx/df
@@ -167,7 +168,10 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
             break
         x_p = x
         f_p = f
-        x = np.max((x_min, np.min((x+dx, x_max))))
+        x = x+dx
+        if not x_min < x < x_max:
+            # Bisect when the secant method leaves the bracket
+            x = (x_min+x_max)/2
         dx = x - x_p
         if np.abs(dx) < xtol:
             break
-- 
2.43.0


From b3fbf022e3ab0608ce6e3ffa3e3efd0abc73deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 32/62] fix: make optimization based NTF designs work for order
 1

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py       | 8 ++++----
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py           | 2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py | 5 +++--
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py     | 2 +-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..b2f9055 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -70,7 +70,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
 
     # Set up the problem
     bands = len(f0s)
-    c = cvxpy_tdr.variable(1, order)
+    c = cvxpy_tdr.arrays.cvxpy_var(1, order)
     F = []
     gg = cvxpy_tdr.arrays.cvxpy_var(bands, 1)
 
@@ -79,8 +79,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         osr = osrs[idx]
         omega0 = 2*f0*np.pi
         Omega = 1./osr*np.pi
-        P = cvxpy_tdr.variable(order, order, 'symmetric')
-        Q = cvxpy_tdr.variable(order, order, 'symmetric')
+        P = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
+        Q = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         if f0 == 0:
             # Lowpass modulator
             M1 = A.T*P*A+Q*A+A.T*Q-P-2*Q*np.cos(Omega)
@@ -128,7 +128,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
     if H_inf < np.inf:
         # Enforce the Lee constraint
-        R = cvxpy_tdr.variable(order, order, 'symmetric')
+        R = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         F += [cvxpy_tdr.belongs(R, cvxpy_tdr.semidefinite_cone)]
         MM = cvxpy_tdr.vstack(
             (cvxpy_tdr.hstack((A.T*R*A-R, A.T*R*B, c.T)),
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 36edb75..f168547 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -143,4 +143,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.ravel(c.value)[::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..6b01d53 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -30,9 +30,10 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     """
     quiet = not opts['show_progress']
     order = np.size(Qs, 0)-1
-    br = cvxpy_tdr.variable(order, 1, name='br')
+    br = cvxpy_tdr.arrays.cvxpy_var(order, 1, name='br')
     b = cvxpy_tdr.vstack((1, br))
-    X = cvxpy_tdr.variable(order, order, structure='symmetric', name='X')
+    X = cvxpy_tdr.arrays.cvxpy_var(order, order, structure='symmetric',
+                                   name='X')
     Qs = cvxpy_tdr.matrix(Qs)
     target = cvxpy_tdr.norm2(Qs*b)
     A = cvxpy_tdr.matrix(A)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..da0625d 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -62,4 +62,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.ravel(br.value)))
-- 
2.43.0


From e64271dce543f80fe162fcb485ab5a83d342de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 33/62] fix: let dtft place the first sample at time t0 as
 documented

---
 src/pydsm/ft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 54a3d66..06424f2 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -111,7 +111,7 @@ def dtft(x, fs=1, t0=0):
         the time when x[0] is sampled (defaults to 0). This is expressed
         in sample intervals.
     """
-    return lambda f: np.sum(x*np.exp(-2j*np.pi*f/fs*(np.arange(len(x))-t0)))
+    return lambda f: np.sum(x*np.exp(-2j*np.pi*f/fs*(np.arange(len(x))+t0)))
 
 
 def dtft_hermitian(x, fs=1):
-- 
2.43.0


From de340ff8eb7d3eed2d6eef526a92ef6bd93089fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 34/62] fix: let undbm take any array_like as documented

---
 src/pydsm/delsig/_decibel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index b05a1ce..1c98563 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((x-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
-- 
2.43.0


From 2ee07106e3d7c2b8da53e6f84e6de489aef0329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 35/62] fix: start clans from poles on the rmax circle

The damping of poles that get projected on the circle with radius rmax is
null. Rounding could make it slightly negative, so that the optimization was
started from a NaN and failed with a LinAlgError (e.g., clans(4, 32, 5, .5)).
---
 src/pydsm/delsig/_clans.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index 8a86af3..e90954e 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -194,7 +194,8 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         s = (z-1)/(z+1)
         coeffs = np.poly(s).real
         wn = np.sqrt(coeffs[2])
-        zeta = coeffs[1]/(2*wn)
+        # Damping is null, up to rounding errors, for poles on the circle
+        zeta = max(coeffs[1]/(2*wn), 0)
         x[i] = np.sqrt(zeta)
         x[i+1] = np.sqrt(wn)
 
-- 
2.43.0


From 339633e7a2f38fba8b5d1ec4b44a9247dcbece72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 36/62] fix: restore numpy error state when guess_ir_length
 fails

---
 src/pydsm/ir.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/ir.py b/src/pydsm/ir.py
index baf314f..6522662 100644
--- a/src/pydsm/ir.py
+++ b/src/pydsm/ir.py
@@ -131,9 +131,8 @@ def guess_ir_length(h, db=80):
         # one to the other or overlapping.
         # Furthermore, this code should not be called if there is
         # a pole in z=1.
-        os = np.seterr(divide='ignore')
-        sr = np.log(np.abs(pp))
-        np.seterr(**os)
+        with np.errstate(divide='ignore'):
+            sr = np.log(np.abs(pp))
         # Take slowlest pole
         wmin = np.min(np.abs(sr))
         # 1/omega min is time constant in sample periods.
-- 
2.43.0


From ffbab8e73a7450a871515e36a2843ce287600fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 37/62] fix: sparse constant minus object array kept the sign
 of the array where the constant has no entries

---
 src/pydsm/cvxpy_tdr/arrays.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index f57dcd8..4fb8b91 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -286,7 +286,10 @@ class cvxpy_array(object):
             else:
                 for i in range(0,m):
                     for j in range(0,n):
-                        new_ar.data[i][j] = self.data[i][j]
+                        if action == RIGHT_SUBTRACT:
+                            new_ar.data[i][j] = -self.data[i][j]
+                        else:
+                            new_ar.data[i][j] = self.data[i][j]
                 for i in range(0,m,1):
                     rowi_indeces = other.rows[i]
                     rowi_values = other.data[i]
@@ -300,7 +303,7 @@ class cvxpy_array(object):
                         elif action == RIGHT_ADD:
                             new_ar.data[i][j] = value + new_ar.data[i][j]
                         else:
-                            new_ar.data[i][j] = value - new_ar.data[i][j]
+                            new_ar.data[i][j] = value + new_ar.data[i][j]
                 return new_ar
 
         # Not implemented
-- 
2.43.0


From dc753841b793bd04fae3f801280b954c9aa24d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 38/62] fix: derivatives of a convex set constraint when a
 variable enters more than once

---
 src/pydsm/cvxpy_tdr/sets/exp_cone.py          | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/kl_div_epi.py        | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py |  6 +++---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py     |  6 +++---
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/exp_cone.py b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
index bad3764..c082fbe 100644
--- a/src/pydsm/cvxpy_tdr/sets/exp_cone.py
+++ b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
@@ -101,12 +101,12 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = np.exp((v*1.)/(y*1.))
+                g[mp[el[0,0]]] += np.exp((v*1.)/(y*1.))
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                g[mp[el[1,0]]] = np.exp(t)*(1-t)
+                g[mp[el[1,0]]] += np.exp(t)*(1-t)
             if type(el[2,0]) is cvxpy_scalar_var:
-                g[mp[el[2,0]]] = -1.
+                g[mp[el[2,0]]] += -1.
             return g
 
         # hess f
@@ -119,16 +119,16 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = np.exp((v*1.)/(y*1.))/(y*1.)
+                h[mp[el[0,0]],mp[el[0,0]]] += np.exp((v*1.)/(y*1.))/(y*1.)
             if (type(el[0,0]) is cvxpy_scalar_var and
                 type(el[1,0]) is cvxpy_scalar_var):
                 t = (v*1.)/(y*1.)
                 w = -np.exp(t)*t/(y*1.)
-                h[mp[el[0,0]],mp[el[1,0]]] = w
-                h[mp[el[1,0]],mp[el[0,0]]] = w
+                h[mp[el[0,0]],mp[el[1,0]]] += w
+                h[mp[el[1,0]],mp[el[0,0]]] += w
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                h[mp[el[1,0]],mp[el[1,0]]] = np.exp(t)*(t**2.)/(y*1.)
+                h[mp[el[1,0]],mp[el[1,0]]] += np.exp(t)*(t**2.)/(y*1.)
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
index 9b3ed3e..fe46190 100644
--- a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
@@ -102,11 +102,11 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    g[mp[u[i,0]]] = np.log(u_i*1./v_i)
+                    g[mp[u[i,0]]] += np.log(u_i*1./v_i)
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    g[mp[v[i,0]]] = (-u_i*1./v_i)+1.
+                    g[mp[v[i,0]]] += (-u_i*1./v_i)+1.
             if type(t) is cvxpy_scalar_var:
-                g[mp[t]] = -1.
+                g[mp[t]] += -1.
             return g
 
         # hess f
@@ -122,14 +122,14 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    h[mp[u[i,0]],mp[u[i,0]]] = 1./u_i
+                    h[mp[u[i,0]],mp[u[i,0]]] += 1./u_i
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    h[mp[v[i,0]],mp[v[i,0]]] = u_i*1./(v_i**2.)
+                    h[mp[v[i,0]],mp[v[i,0]]] += u_i*1./(v_i**2.)
                 if (type(u[i,0]) is cvxpy_scalar_var and
                     type(v[i,0]) is cvxpy_scalar_var):
                     w = -1./v_i
-                    h[mp[u[i,0]],mp[v[i,0]]] = w
-                    h[mp[v[i,0]],mp[u[i,0]]] = w
+                    h[mp[u[i,0]],mp[v[i,0]]] += w
+                    h[mp[v[i,0]],mp[u[i,0]]] += w
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
index ee90b06..70f7180 100644
--- a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
+++ b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
@@ -88,9 +88,9 @@ class cvxpy_log_norm_cdf_hypo(object):
             if v is None:
                 v = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = -norm.pdf(v)/norm.cdf(v)
+                g[mp[el[0,0]]] += -norm.pdf(v)/norm.cdf(v)
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = 1.
+                g[mp[el[1,0]]] += 1.
             return g
 
         # hess f
@@ -103,7 +103,7 @@ class cvxpy_log_norm_cdf_hypo(object):
                 t = norm.pdf(v)
                 s = norm.cdf(v)
                 r = t/s
-                h[mp[el[0,0]],mp[el[0,0]]] = r **2.+v*r
+                h[mp[el[0,0]],mp[el[0,0]]] += r **2.+v*r
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index d5d2609..4e3cabc 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -89,9 +89,9 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = p*(z**(p-1.))
+                g[mp[el[0,0]]] += p*(z**(p-1.))
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = -1.
+                g[mp[el[1,0]]] += -1.
             return g
 
         # hess f
@@ -101,7 +101,7 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = p*(p-1.)*(z**(p-2.))
+                h[mp[el[0,0]],mp[el[0,0]]] += p*(p-1.)*(z**(p-2.))
             return h
 
         # ind f
-- 
2.43.0


From 14b823498d74efd496416a450d7816bcf524b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 39/62] fix: value of programs with a constant objective

---
 src/pydsm/cvxpy_tdr/procedures/solve_prog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
index 9f2306d..e8587b0 100644
--- a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
+++ b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
@@ -62,5 +62,9 @@ def solve_prog(p,quiet):
     else:
         obj =sol[PRIMAL_OBJECTIVE]*sign
 
+    # A constant objective does not enter the solver cost
+    if p_expanded.objective.type == CONSTANT:
+        obj = obj+p_expanded.objective.value
+
     # Return optimal value
     return obj,valid
-- 
2.43.0


From c8dcb6bddb82b77a27771b8c6e7f2c7bcaa4ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 40/62] fix: arguments of a program that contain its formals
 were replaced again

---
 src/pydsm/cvxpy_tdr/procedures/re_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/re_eval.py b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
index 5e730c1..fbe0f27 100644
--- a/src/pydsm/cvxpy_tdr/procedures/re_eval.py
+++ b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
@@ -47,14 +47,14 @@ def re_eval(arg,replace_map):
     # Scalar variable
     elif type(arg) is cvxpy_scalar_var:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
     # Scalar param
     elif type(arg) is cvxpy_scalar_param:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
-- 
2.43.0


From 6808df86a4536fe2d616fdee5594acd96c5d5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 41/62] fix: inner variables of a program were shared by all
 its uses

---
 src/pydsm/cvxpy_tdr/programs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 3f5b4c0..a76b8c7 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -340,6 +340,11 @@ class cvxpy_program(object):
         replace_map = {}
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
+
+        # Remaining variables are private to each use of the program
+        for v in sorted(self.variables):
+            if v not in replace_map:
+                replace_map[v] = cvxpy_scalar_var()
         new_p = cvxpy_program(self.action,
                               re_eval(self.objective,replace_map),
                               re_eval(self.constraints,replace_map),
-- 
2.43.0


From 2116286ee274e71b6a0b3ad907b3ee0588570d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 42/62] fix: ds_quantize with unsigned or narrow integers

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index cdd0f12..f8116a2 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -223,7 +223,7 @@ def ds_quantize(y, n):
     mid-tread quantizers.
     """
     shape = np.shape(y)
-    y = np.atleast_1d(y)
+    y = np.atleast_1d(np.asarray(y, dtype=float))
     n = np.atleast_1d(n)
     v = np.empty_like(y)
     for qi in range(np.size(n)):
@@ -231,6 +231,6 @@ def ds_quantize(y, n):
             v[qi] = 2*np.floor(0.5*y[qi])+1
         else:
             v[qi] = 2*np.floor(0.5*(y[qi]+1))
-        L = n[qi]-1
+        L = int(n[qi])-1
         v[qi] = np.maximum(np.minimum(v[qi], L), -L)
     return v.reshape(shape)[()]
-- 
2.43.0


From 7b8db2fd3c601da5d0af61117278bdf8827da060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 43/62] fix: solving programs no longer alters the global
 options of CVXOPT

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 308e66c..c0e6689 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -68,16 +68,17 @@ def call_solver(p,quiet):
     F = construct_F(constr_list._get_ineq_in(),var_to_index,n)
 
     # Call cvxopt
-    solvers.options['maxiters'] = p.options['maxiters']
-    solvers.options['abstol'] = p.options['abstol']
-    solvers.options['reltol'] = p.options['reltol']
-    solvers.options['feastol'] = p.options['feastol']
-    solvers.options['show_progress'] = not quiet
+    options = dict(solvers.options)
+    options['maxiters'] = p.options['maxiters']
+    options['abstol'] = p.options['abstol']
+    options['reltol'] = p.options['reltol']
+    options['feastol'] = p.options['feastol']
+    options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
     if F is None:
-        r =  solvers.conelp(c,G,h,dims,A,b)
+        r =  solvers.conelp(c,G,h,dims,A,b,options=options)
     else:
-        r =  solvers.cpl(c,F,G,h,dims,A,b)
+        r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
-- 
2.43.0


From bc69289830819078e1de2e65522758520d7096d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 44/62] fix: plotPZ drew the imaginary axis between the wrong
 limits

---
 src/pydsm/delsig/_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_plot.py b/src/pydsm/delsig/_plot.py
index 9380b2a..e1d3b49 100644
--- a/src/pydsm/delsig/_plot.py
+++ b/src/pydsm/delsig/_plot.py
@@ -114,7 +114,7 @@ def plotPZ(H, color='b', markersize=5, showlist=False):
     plt.plot(circle.real, circle.imag, 'k')
     plt.axis('equal')
     limits = plt.axis()
-    plt.plot([0, 0], limits[1:3], 'k:')
+    plt.plot([0, 0], limits[2:4], 'k:')
     plt.plot(limits[0:2], [0, 0], 'k:')
 
     if showlist:
-- 
2.43.0


From 490e8edfa079e3e36614bffd3184caa90534e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 45/62] fix: programs with dependent or contradictory equations
 or free variables failed or returned wrong optima

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 98 ++++++++++++++++++-
 1 file changed, 97 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index c0e6689..f792b83 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -43,7 +43,7 @@ def call_solver(p,quiet):
     constr_list = cvxpy_list(pm_expand(p.constraints))
 
     # Get variables
-    variables = constr_list.variables
+    variables = cvxpy_list(set(constr_list.variables+p.objective.variables))
     variables.sort()
 
     # Count variables
@@ -75,10 +75,24 @@ def call_solver(p,quiet):
     options['feastol'] = p.options['feastol']
     options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
+
+    # Independent equations and no free direction are needed
+    direction = None
+    fixed = [var_to_index[v] for con in constr_list._get_ineq_in()
+             if con.right.type == SET and con.right.expansion_type == DIF
+             for v in con.left.variables]
+    I = opt.spmatrix(1.,range(len(fixed)),fixed,(len(fixed),n))
+    if not (independent(A.T) and independent(opt.sparse([G,A,I]))):
+        c,A,b,direction = regularize(c,opt.sparse([G,I]),A,b)
+        if A is None:
+            return {'status':PRIMAL_INFEASIBLE}
+
     if F is None:
         r =  solvers.conelp(c,G,h,dims,A,b,options=options)
     else:
         r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
+    if direction is not None and r['status'] == OPTIMAL:
+        r = {'status':DUAL_INFEASIBLE, 'x':direction}
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
@@ -88,6 +102,88 @@ def call_solver(p,quiet):
     # Return result
     return r
 
+# Function: independent
+def independent(M):
+    """
+    Checks if the columns of a sparse matrix are linearly independent.
+
+    :param M: Sparse matrix.
+    """
+
+    S = sp.csr_matrix((np.array(M.V).reshape(-1),
+                       (np.array(M.I).reshape(-1),
+                        np.array(M.J).reshape(-1))),M.size)
+    B = (S != 0).astype(int)
+    rows = np.ones(M.size[0],dtype=int)
+    cols = np.ones(M.size[1],dtype=int)
+
+    # Take away the columns for which independence is apparent
+    while True:
+        left = np.sum(cols)
+        # Rows with a single entry
+        cols[B.T.dot((B.dot(cols)*rows == 1)*1) > 0] = 0
+        # Columns with a single entry
+        entries = B.T.dot(rows)
+        if np.any(entries[cols == 1] == 0):
+            return False
+        single = B.dot((entries*cols == 1)*1)*rows
+        if np.any(single > 1):
+            return False
+        cols[(B.T.dot(single) > 0) & (entries == 1)] = 0
+        rows[single > 0] = 0
+        if np.sum(cols) == left:
+            break
+
+    # Check the other ones
+    core = S[rows == 1][:,cols == 1].toarray()
+    return left == 0 or rank(core)[3] == left
+
+# Function: rank
+def rank(M):
+    """
+    Singular value decomposition of a matrix with normalized rows.
+
+    :param M: Array.
+    :return: Norms of the rows, U and V matrices of the decomposition,
+             rank and singular values.
+    """
+
+    scale = np.linalg.norm(M,axis=1)
+    scale[scale == 0] = 1.
+    U,s,V = np.linalg.svd(M/scale.reshape(-1,1))
+    return scale,U,V,int(np.sum(s > 1e-9)),s
+
+# Function: regularize
+def regularize(c,G,A,b):
+    """
+    Puts a program in the form expected by cvxopt, with independent
+    equations and no direction left free by all the constraints.
+
+    :param c,G,A,b: Program matrices.
+    :return: New c, A and b (A is None if the equations have no solution)
+             and the free direction that improves the objective if any
+             (in which case the new c is null).
+    """
+
+    # Independent equations
+    scale,U,V,r,s = rank(np.array(opt.matrix(A)).reshape(A.size))
+    b = np.dot(U.T,np.array(b).reshape(-1)/scale)
+    if np.linalg.norm(b[r:]) > 1e-9*(1+np.linalg.norm(b)):
+        return c,None,None,None
+    b = b[:r]/s[:r]
+
+    # Free directions, left unused
+    M = np.vstack((np.array(opt.matrix(G)).reshape(G.size),V[:r]))
+    N,r = rank(M)[2:4]
+    N = N[r:]
+    A = opt.matrix(np.vstack((V[:len(b)],N)))
+    b = opt.matrix(np.hstack((b,np.zeros(len(N)))))
+    g = np.dot(N,np.array(c).reshape(-1))
+    if np.linalg.norm(g) > 1e-9:
+        direction = opt.matrix(-np.dot(N.T,g)/np.sum(g**2))
+        return 0*c,A,b,direction
+    return c,A,b,None
+
 # Function: construct_c
 def construct_c(objective,mapping,n,action):
     """
-- 
2.43.0


From 9789536f170983160e558aa2b92a88bfa04477f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 46/62] fix: audio weightings at integer frequencies could wrap
 around

---
 src/pydsm/audio_weightings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index 99f775b..5d62ab7 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -193,6 +193,7 @@ def a_weighting(f, normal=True, power=True):
     """
     if power:
         return a_weighting(f, normal, power=False)**2
+    f = 1.0*f
     w = (12200.0**2*f**4)/((f**2+20.6**2) *
                            np.sqrt((f**2+107.7**2) *
                            (f**2+737.9**2))*(f**2+12200.0**2))
@@ -224,6 +225,7 @@ def b_weighting(f, normal=True, power=True):
     """
     if power:
         return b_weighting(f, normal, power=False)**2
+    f = 1.0*f
     w = (12200.0**2*f**3)/((f**2+20.6**2) *
                            np.sqrt(f**2+158.5**2)*(f**2+12200.0**2))
     return w if not normal else w*b_weighting_gain
@@ -254,6 +256,7 @@ def c_weighting(f, normal=True, power=True):
     """
     if power:
         return c_weighting(f, normal, power=False)**2
+    f = 1.0*f
     w = (12200.0**2*f**2)/((f**2+20.6**2)*(f**2+12200.0**2))
     return w if not normal else w*c_weighting_gain
 
@@ -284,6 +287,7 @@ def d_weighting(f, normal=True, power=True):
     """
     if power:
         return d_weighting(f, normal, power=False)**2
+    f = 1.0*f
 
     def h(f):
         return (((1037918.48-f**2)**2+1080768.16*f**2) /
-- 
2.43.0


From d0b015483a9b76efbc915a9f900954ec4d91a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 47/62] fix: raw correlations of narrow integers wrapped around

---
 src/pydsm/correlations.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 607ca42..01c301b 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -49,6 +49,12 @@ if sys.version_info < (3,):
 __all__ = ["raw_acorr", "raw_xcorr"]
 
 
+def _to_wide(x):
+    """Avoid computing in narrow types (e.g. int16 samples may wrap around)"""
+    x = np.asarray(x)
+    return x.astype(np.result_type(x, np.int64))
+
+
 def raw_acorr(x, N):
     """
     Computes the raw autocorrelation of a vector up to lag N.
@@ -74,6 +80,7 @@ def raw_acorr(x, N):
     is responsibility of the user to assure that len(x)>=N. In some cases
     (but only in some cases), zero padding is practiced.
     """
+    x = _to_wide(x)
     m = len(x)
     q = np.asarray([np.dot(x[k:m], x[0:m-k]) for k in range(N+1)])
     return q
@@ -106,6 +113,8 @@ def raw_xcorr(x, y, N):
     is responsibility of the user to assure that N<=len(y). In some cases
     (but only in some cases), zero padding is assumed.
     """
+    x = _to_wide(x)
+    y = _to_wide(y)
     mx = len(x)
     my = len(y)
     q = np.asarray([np.dot(x[k:min(mx, my+k)],
-- 
2.43.0


From 68ca9abafec9d9e5954b04c36c869e4b4bd28331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 48/62] fix: decibels of narrow integers wrapped around or lost
 precision

---
 src/pydsm/delsig/_decibel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index 1c98563..a268986 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -73,7 +73,7 @@ def dbv(x):
     y : real or array_like of reals
         20*log10(x)
     """
-    x = np.asarray(np.abs(x))
+    x = np.asarray(np.abs(1.0*np.asarray(x)))
     y = np.asarray(-np.inf*np.ones_like(x))
     nonzero = np.asarray(x != 0)
     y[nonzero] = 20*np.log10(x[nonzero])
@@ -94,7 +94,7 @@ def dbp(x):
     y : real or array_like of reals
         10*log10(x)
     """
-    x = np.asarray(np.abs(x))
+    x = np.asarray(np.abs(1.0*np.asarray(x)))
     y = np.asarray(-np.inf*np.ones_like(x))
     nonzero = np.asarray(x != 0)
     y[nonzero] = 10*np.log10(x[nonzero])
@@ -118,7 +118,7 @@ def dbm(v, R=50.):
         dBm value corresponding to the power provided by the rms voltag v
         on the test resistor R, normalized over the reference value of 1mW
     """
-    v = np.asarray(np.abs(v))
+    v = np.asarray(np.abs(1.0*np.asarray(v)))
     y = np.asarray(-np.inf*np.ones_like(v))
     nonzero = np.asarray(v != 0)
     y[nonzero] = 10*np.log10(v[nonzero]**2/R)+30
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30.)/10.))
-- 
2.43.0


From cebfaf8e800fa07716809560fe47c5534069b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 49/62] fix: transfer functions at integer points could wrap
 around

---
 src/pydsm/delsig/_tf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_tf.py b/src/pydsm/delsig/_tf.py
index bfea06c..5202b9e 100644
--- a/src/pydsm/delsig/_tf.py
+++ b/src/pydsm/delsig/_tf.py
@@ -89,6 +89,8 @@ def evalTF(tf, x):
     so that the last coefficient is in fact the constant term in the
     numerator/denominator polynomial.
     """
+    # Integers could wrap around
+    x = 1.0*np.asarray(x)
     if len(tf) == 3:
         retval = np.asarray(evalRPoly(tf[0], x, tf[2]))/evalRPoly(tf[1], x, 1)
     elif len(tf) == 2:
@@ -118,6 +120,8 @@ def evalRPoly(roots, x, k=1):
     y : ndarray
         value of polynomial at the given complex values.
     """
+    # Integers could wrap around
+    x = 1.0*np.asarray(x)
     y = k*np.ones_like(x)
     roots = np.asarray(roots)
     # Remove roots at infinity
-- 
2.43.0


From 33fa536f10eadb7168fc4696963af6886c343f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 50/62] fix: infeasible programs were reported as unbounded
 when also dual infeasible

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index f792b83..80ab975 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -89,6 +89,11 @@ def call_solver(p,quiet):
 
     if F is None:
         r =  solvers.conelp(c,G,h,dims,A,b,options=options)
+        if r['status'] == DUAL_INFEASIBLE:
+            # The program can be infeasible at the same time
+            r0 = solvers.conelp(0*c,G,h,dims,A,b,options=options)
+            if r0['status'] == PRIMAL_INFEASIBLE:
+                r = r0
     else:
         r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
     if direction is not None and r['status'] == OPTIMAL:
-- 
2.43.0


From 0c0f6ad8cf5dcbfd2ebc271a974bd0b6dd6ea594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 51/62] fix: axisLabels rejected NumPy integers as increments

---
 src/pydsm/delsig/_axisLabels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_axisLabels.py b/src/pydsm/delsig/_axisLabels.py
index 14e12e3..209514a 100644
--- a/src/pydsm/delsig/_axisLabels.py
+++ b/src/pydsm/delsig/_axisLabels.py
@@ -89,12 +89,12 @@ def axisLabels(points, incr):
     # Flatten assures that a copy is taken, so that the following assignement
     # does not alter the original vector
     points[np.abs(points) < 1e-6] = 0
-    if isinstance(incr, int):
+    if isinstance(incr, (int, np.integer)):
         start = 0
         step = incr
     elif (hasattr(incr, '__len__') and
           len(incr) == 2 and
-          np.all([isinstance(x, int) for x in incr])):
+          np.all([isinstance(x, (int, np.integer)) for x in incr])):
         start = incr[0]
         step = incr[1]
     else:
-- 
2.43.0


From 5423008616ee22cbcf5dd0b2615fb15b59435b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 52/62] fix: rmsGain lost precision when N is a narrow NumPy
 integer

---
 src/pydsm/delsig/_rmsGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_rmsGain.py b/src/pydsm/delsig/_rmsGain.py
index 794b926..a30a643 100644
--- a/src/pydsm/delsig/_rmsGain.py
+++ b/src/pydsm/delsig/_rmsGain.py
@@ -107,4 +107,4 @@ def rmsGain(H, f1, f2, N=100):
     faster, using algorithms for the numerical computation of integrals.
     """
     w = np.linspace(2*np.pi*f1, 2*np.pi*f2, N)
-    return np.linalg.norm(evalTF(H, np.exp(1j*w))) / np.sqrt(N)
+    return np.linalg.norm(evalTF(H, np.exp(1j*w))) / np.sqrt(1.0*N)
-- 
2.43.0


From 901040d6716a6771075041bca74add368446984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 53/62] fix: synthesizeChebyshevNTF failed with an unsigned
 order

---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 458d6ab..5ffc12f 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -106,6 +106,9 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
     -----
     Parameter opt is ignored.
     """
+    # NumPy integers may be unsigned: cheby2 needs to negate the order
+    if isinstance(order, np.integer):
+        order = int(order)
     if f0 != 0 and order % 2 != 0:
         raise ValueError('Order must be even for a bandpass modulator.')
     else:
-- 
2.43.0


From 8efae08acbcb388f7529136a1ce24b72fc593b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 54/62] fix: db lost precision on narrow integers

---
 src/pydsm/relab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 959fd04..c09b8be 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -108,6 +108,8 @@ def db(x, signal_type='voltage', R=1):
     The default R value assures that when signal_type is 'voltage' dB defaults
     to the classical 20*log10(x) computation.
     """
+    # Floating point arithmetic, since narrow integers have few digits
+    x = 1.0*np.asarray(x)
     if signal_type == 'power':
         return 10*np.log10(x)
     else:
-- 
2.43.0


From b9e621e85d8785995c2432a6a7d134338f956b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 55/62] fix: shiftdim went the wrong way with an unsigned shift

---
 src/pydsm/relab.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index c09b8be..aec8fe5 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -171,6 +171,9 @@ def shiftdim(x, n=None, nargout=2):
     m = next((i for i, v in enumerate(s) if v > 1), 0)
     if n is None:
         n = m
+    # NumPy integers may be unsigned: the shift needs to be negated
+    if isinstance(n, np.integer):
+        n = int(n)
     if n > 0:
         n = n % x.ndim
     if n > 0:
-- 
2.43.0


From 3a59d78982cb850189c8a4ae4916c475f53a15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 56/62] fix: synthesizeNTF went wrong with narrow integer
 orders and oversampling ratios

---
 src/pydsm/delsig/_synthesizeNTF0.py | 4 ++--
 src/pydsm/delsig/_synthesizeNTF1.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index b08411d..6686bdd 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -66,7 +66,7 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
     if f0 != 0:
         # Bandpass design-- halve the order temporarily.
         order = order//2
-        dw = np.pi/(2*osr)
+        dw = np.pi/osr/2
     else:
         dw = np.pi/osr
 
@@ -96,7 +96,7 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
 
     if f0 == 0:
         # Lowpass design
-        HinfLimit = 2**order
+        HinfLimit = 2.**order
         # !!! The limit is actually lower for opt=1 and low OSR
         if H_inf >= HinfLimit:
             warn('Unable to achieve specified H_inf, '
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index e73717f..58b9795 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -69,7 +69,7 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
     if f0 != 0:
         # Bandpass design-- halve the order temporarily.
         order = order//2
-        dw = np.pi/(2*osr)
+        dw = np.pi/osr/2
     else:
         dw = np.pi/osr
 
@@ -114,7 +114,7 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
             z_inf = -1
         if f0 == 0:
             # Lowpass design
-            HinfLimit = 2**order
+            HinfLimit = 2.**order
             # !!! The limit is actually lower for opt=1 and low OSR
             if H_inf >= HinfLimit:
                 warn('Unable to achieve specified Hinf, '
-- 
2.43.0


From ae34f20494cc0ab0ca4786fdb18b69407613fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 57/62] fix: FIR NTF design failed with an unsigned H_inf

---
 src/pydsm/NTFdesign/minmax/_fir_minmax.py       | 3 ++-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax.py b/src/pydsm/NTFdesign/minmax/_fir_minmax.py
index b6d88c8..0d8d129 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax.py
@@ -176,7 +176,8 @@ def ntf_fir_minmax(order=32, osr=32, H_inf=1.5, f0=0, zf=False,
     if not len(osr) == len(f0):
         raise ValueError('Incorrect multiband specification')
     # Do the computation
-    ntf_ir = _ntf_fir_from_digested(order, osr, H_inf, f0, zf, **dig_opts)
+    ntf_ir = _ntf_fir_from_digested(
+        order, osr, 1.0*H_inf, f0, zf, **dig_opts)
     return (np.roots(ntf_ir), np.zeros(order), 1.)
 
 ntf_fir_minmax.default_options = {"cvxpy_opts": {'override_kktsolver': False,
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index c0674fe..56d3f89 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -278,7 +278,7 @@ def ntf_fir_from_q0(q0, H_inf=1.5, normalize="auto", **options):
     Qs = v.dot(np.diag(np.sqrt(d))).dot(v.T)
     A = np.eye(order, order, 1)
     C = np.zeros((1, order))
-    ntf_ir = _ntf_fir_from_digested(Qs, A, C, H_inf, **dig_opts)
+    ntf_ir = _ntf_fir_from_digested(Qs, A, C, 1.0*H_inf, **dig_opts)
     return (np.roots(ntf_ir), np.zeros(order), 1.)
 
 
@@ -633,7 +633,7 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
     A = np.eye(order, order, 1)
     A[order-1] = -ar[::-1]
     C = -ar[::-1].reshape((1, order))
-    ntf_ir = _ntf_fir_from_digested(Qs, A, C, H_inf, **dig_opts)
+    ntf_ir = _ntf_fir_from_digested(Qs, A, C, 1.0*H_inf, **dig_opts)
     return (np.roots(ntf_ir), poles, 1.)
 
 ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
-- 
2.43.0


From 32a9886c18cf5d46d1ab40d63b79bc13404d7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 58/62] fix: audio weighting design went wrong with an unsigned
 max_attn

---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 180de99..6f904b3 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -300,7 +300,7 @@ def ntf_fir_audio_weighting(
     opts.update(digested_options(options, defaults, [], [solver + '_opts']))
 
     def w(f):
-        ma = undbp(-max_attn)
+        ma = undbp(-1.0*max_attn)
         fx = f*audio_band*2*osr
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
-- 
2.43.0


From 388cf35dda040dd287db53994fab41b6509ff896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 59/62] fix: simulate modulators with no state variables or no
 inputs in the compiled backends

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 18 ++++++++++++------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index c1ea350..f2cea42 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -172,19 +172,25 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         xmax = np.empty(0, dtype=np.float64)
 
     # y0 is output before the quantizer
-    cdef np.ndarray y0 = np.empty(nq, dtype=np.float64)
+    cdef np.ndarray y0 = np.zeros(nq, dtype=np.float64)
 
     cdef int i
+    # BLAS does not take null leading dimensions and, with nothing to sum up,
+    # leaves the output alone. Mind this for modulators with no state variables
+    # or no inputs
+    cdef int ldorder = max(order, 1)
+    cdef int ldnu = max(nu, 1)
+    cdef double keep_y0 = 1.0 if order > 0 else 0.0
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
         cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, order,\
-            1.0, dbldata(C), order, \
+            1.0, dbldata(C), ldorder, \
             dbldata(c_x0), 1, \
             0.0, dbldata(y0), 1)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, nu,\
-            1.0, dbldata(D1), nu, \
+            1.0, dbldata(D1), ldnu, \
             dbldata(c_u)+i, N, \
-            1.0, dbldata(y0), 1)
+            keep_y0, dbldata(y0), 1)
         if store_y:
             #y[:, i] = y0[:]
             cblas_dcopy(nq, dbldata(y0), 1,\
@@ -195,11 +201,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
         cblas_dgemv(CblasRowMajor, CblasNoTrans, order, order,\
-            1.0, dbldata(A), order, \
+            1.0, dbldata(A), ldorder, \
             dbldata(c_x0), 1,\
             0.0, dbldata(c_x0_temp), 1)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nu,\
-            1.0, dbldata(B1), nu, \
+            1.0, dbldata(B1), ldnu, \
             dbldata(c_u)+i, N, \
             1.0, dbldata(c_x0_temp), 1)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nq,\
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 801ddca..11835dc 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -175,22 +175,28 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         xmax = np.abs(c_x0)
 
     # y0 is output before the quantizer
-    cdef np.ndarray y0 = np.empty(nq, dtype=np.float64)
+    cdef np.ndarray y0 = np.zeros(nq, dtype=np.float64)
 
     cdef int i
     cdef int one=1
     cdef double onedot = 1.0
     cdef double zerodot = 0.0
+    # BLAS does not take null leading dimensions and, with nothing to sum up,
+    # leaves the output alone. Mind this for modulators with no state variables
+    # or no inputs
+    cdef int ldorder = max(order, 1)
+    cdef int ldnu = max(nu, 1)
+    cdef double keep_y0 = 1.0 if order > 0 else 0.0
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
         dgemv('T', &order, &nq,\
-            &onedot, dbldata(C), &order, \
+            &onedot, dbldata(C), &ldorder, \
             dbldata(c_x0), &one, \
             &zerodot, dbldata(y0), &one)
         dgemv('T', &nu, &nq,\
-            &onedot, dbldata(D1), &nu, \
+            &onedot, dbldata(D1), &ldnu, \
             dbldata(c_u)+i, &N, \
-            &onedot, dbldata(y0), &one)
+            &keep_y0, dbldata(y0), &one)
         if store_y:
             #y[:, i] = y0[:]
             dcopy(&nq, dbldata(y0), &one,\
@@ -201,11 +207,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
         dgemv('T', &order, &order,\
-            &onedot, dbldata(A), &order, \
+            &onedot, dbldata(A), &ldorder, \
             dbldata(c_x0), &one,\
             &zerodot, dbldata(c_x0_temp), &one)
         dgemv('T', &nu, &order,\
-            &onedot, dbldata(B1), &nu, \
+            &onedot, dbldata(B1), &ldnu, \
             dbldata(c_u)+i, &N, \
             &onedot, dbldata(c_x0_temp), &one)
         dgemv('T', &nq, &order,\
-- 
2.43.0


From 52db2f277cae7fb8376dcd9b4b878223a0968878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 60/62] fix: cplxpair never returned for some values with a
 coarse tolerance

---
 src/pydsm/relab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index aec8fe5..664683b 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -270,7 +270,8 @@ def cplxpair(x, tol=None, dim=None):
         while start < x_cplx.size:
             sim_len = next((i for i, v in enumerate(x_cplx[start+1:]) if
                            (np.abs(np.real(v)-np.real(x_cplx[start])) >
-                            tol*np.abs(v))), x_cplx.size-start-1)+1
+                            tol*np.abs(x_cplx[start]))),
+                           x_cplx.size-start-1)+1
             if (sim_len % 2) != 0:
                 sim_len -= 1
             # At this point, sim_len elements with identical real part
-- 
2.43.0


From 6f8c46849f5a020f723f1f5306d141cda1040256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 61/62] fix: power_pos_epi accepted elements that are not pairs

---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index 4e3cabc..a7bdde9 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -44,7 +44,7 @@ class cvxpy_power_pos_epi(object):
     # Method: valid_shape
     def valid_shape(self,shape):
 
-        return shape[1] == 1
+        return shape == (2,1)
 
     # Method: __str__
     def __str__(self):
-- 
2.43.0


From 608c479180f9bb61cc4f4ec151f13abe6bd32dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 62/62] fix: preassigned zero at half the sample rate made
 minmax designs fail

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py     | 6 +++++-
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py | 6 +++++-
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index b0a57e3..1a427ba 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -125,7 +125,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vi = np.sin(omega0*nn)
                 vn = np.array(
                     [[-np.cos(omega0*order), -np.sin(omega0*order)]])
-                F += [c @ np.hstack((vr, vi)) == vn]
+                if f0 == 0.5:
+                    # The zero is real
+                    F += [c @ vr == vn[:, :1]]
+                else:
+                    F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index b2f9055..916c844 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -125,7 +125,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vi = cvxpy_tdr.matrix(np.sin(omega0*nn))
                 vn = cvxpy_tdr.matrix(
                     [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
+                if f0 == 0.5:
+                    # The zero is real
+                    F += [cvxpy_tdr.equals(c*vr, vn[0, 0])]
+                else:
+                    F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index f168547..9e48e7f 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -130,7 +130,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                     np.hstack((np.cos(omega0*nn), np.sin(omega0*nn))))
                 vn = cvxopt.matrix(
                     [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
-                p.add_constraint(c*vv == vn)
+                if f0 == 0.5:
+                    # The zero is real
+                    p.add_constraint(c*vv[:, 0] == vn[0])
+                else:
+                    p.add_constraint(c*vv == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0

