From 82612853c2e0798e50bb14ce21ad90c2d726ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 001/102] fix: never judge convergence on fewer than 17 samples

happiness_check zero-pads shorter samples, so a 9 point grid always looked
resolved and f**2, f**3, 1/f of short functions came out aliased.
---
 funpy/cheb/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index f6d2d7c..2051a80 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -25,7 +25,7 @@ class FunctionContainer:
 """ Base class for resampling and refining operations  """
 class RefineBase:
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = max(9, kwargs.pop('minSamples', 9))
+        self.minSamples = max(17, kwargs.pop('minSamples', 17))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), order='F')
-- 
2.43.0


From 02d12c1986a878c2ff18703cc3d199ebd70d72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 002/102] fix: sample a function of a function on a grid at
 least as fine as its argument

np.exp(f), f**2, ... started from a fixed 17 point grid whatever the length of
f and accepted aliased results.
---
 funpy/cheb/chebtech.py | 1 +
 funpy/cheb/ufuncs.pyx  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 553f80d..03f071c 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -131,6 +131,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             # If we don't have a special implementation we default to evaluating by value!
             if len(inputs) == 1:
                 return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)),
+                               minSamples=max(17, 2 * self.n),
                                eps=self.eps, maxLength=self.maxLength)
             elif len(inputs) == 2:
                 return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)),
diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6167917..aef6972 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -41,7 +41,7 @@ def power(x1, x2, **kwargs):
         # Do nothing just return the function
         if x2 == 1.0:
             return x1
-        return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
+        return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=2 * x1.n, eps=x1.eps)
     else:
         return NotImplemented
 
-- 
2.43.0


From 99b45f4e593895359ebb940e9c5830df9eadd15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 003/102] fix: chop coefficients relative to the size of the
 function

The envelope was divided by its first entry in place, so only that entry was
ever normalised and the chop tolerance was absolute: small functions were
truncated to nothing and large ones never resolved. The happiness tolerance no
longer scales with the function a second time.
---
 funpy/cheb/chebtech.py | 2 +-
 funpy/cheb/detail.pyx  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 03f071c..2a0d0ff 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -252,7 +252,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def happy(self, eps=None):
         eps = self.eps if eps is None else eps
-        tol = np.maximum(self.hscale, self.vscale) * eps * np.ones(self.m)
+        tol = max(self.hscale, 1.0) * eps * np.ones(self.m)
         self.ishappy, cutoff = happiness_check(self.coeffs, tol)
         # cutoff is the last entry to keep -> increment by one.
         return bool(self.ishappy), cutoff+1
diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7860fd6..3ee1977 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -245,8 +245,9 @@ cpdef standardChop(double[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
+    abs_value = envelop[0]
     for j in range(n):
-        envelop[j] /= envelop[0]
+        envelop[j] /= abs_value
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
     for j in range(1, n):
@@ -333,8 +334,9 @@ cpdef standardChopCmplx(complex[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
+    abs_value = envelop[0]
     for j in range(n):
-        envelop[j] /= envelop[0]
+        envelop[j] /= abs_value
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
     for j in range(1, n):
-- 
2.43.0


From 8e5baa16e0cd0c07bbfd3a6225e8399e00c0c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 004/102] fix: pass the tolerance through the root finder,
 reject linear roots outside the interval

roots_main fell back to its 1.48e-8 default for the tail truncation, which
moved roots by 1e-7 and lost roots next to the ends; a linear piece returned
its root wherever it was.
---
 funpy/cheb/detail.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 3ee1977..ea9d85d 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -531,11 +531,11 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
     elif n == 2:
         r = [-c[0] / c[1]]
 
-        if all_roots:
-            if np.abs(np.imag(r)) > htol or (r < -(1 + htol)) or (r > (1 + htol)):
+        if not all_roots:
+            if np.abs(np.imag(r[0])) > htol or r[0] < -(1 + htol) or r[0] > 1 + htol:
                 r = []
             else:
-                r = [max(min(np.real(r), 1), -1)]
+                r = [max(min(np.real(r[0]), 1), -1)]
 
     elif n <= maxEigSize:
         # Adjust the coefficients for the colleague matrix:
@@ -580,8 +580,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = np.matmul(TRight[:n, :n], c)
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -600,8 +600,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = polyfit(v[n:]).squeeze()
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -622,7 +622,7 @@ def roots_scalar(f, eps=1.48e-8):
     c = f.coeffs / f.vscale
 
     # call the recursive roots_main function
-    r = roots_main(c.squeeze(), 100*eps, splitPoint)
+    r = roots_main(c.squeeze(), 100*eps, splitPoint, eps=eps)
     return r
 
 def roots(f, *args, **kwargs):
-- 
2.43.0


From d52b4c0676fc04757b02109ed3b6a02df84fb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 005/102] fix: evaluating a real trigonometric function must
 not modify its coefficients

---
 funpy/trig/eval.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/eval.py b/funpy/trig/eval.py
index 98ee671..8b8919d 100644
--- a/funpy/trig/eval.py
+++ b/funpy/trig/eval.py
@@ -65,9 +65,8 @@ def horner_scl_real(x, c):
     # Get all negative indexed coefficients so that the constant is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
-    b.flags.writeable = True
+    a = np.array(np.real(c))
+    b = np.array(np.imag(c))
 
     if np.remainder(N, 2) == 0:
         a[n-1] *= 0.5
@@ -96,8 +95,8 @@ def horner_vec_real(x, c):
     # Get all negative indexed coefficients so that the constant term is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
+    a = np.array(np.real(c))
+    b = np.array(np.imag(c))
     e = np.ones((nValsX, 1))
 
     if np.remainder(N, 2) == 0:
-- 
2.43.0


From af551584534a42e803708817b9021180863754eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 006/102] fix: products and reciprocals of trigonometric
 functions

An even-length product was aliased (one coefficient short on each side), a
square called a property, and number / function returned function / number.
---
 funpy/trig/ufuncs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 96d72f9..24d59b4 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -237,7 +237,7 @@ def multiply(x1, x2, **kwargs):
         gn, gm = x2.shape
 
         # prolong
-        ncoeffs, nvals = prolong(x1.coeffs, fn + gn - 1, x1.isReal)
+        ncoeffs, nvals = prolong(x1.coeffs, fn + gn + 1, x1.isReal)
 
         # check dimensions
         if fm != gm:
@@ -259,14 +259,14 @@ def multiply(x1, x2, **kwargs):
         # multiply values
         if x1 == x2:
             v = np.power(nvals, 2)
-            if x1.isreal():
+            if x1.isreal:
                 pos = True
 
         elif np.conj(x1) == x2:
             v = np.conj(nvals) * nvals
             pos = True
         else:
-            gcoeffs, gvals = prolong(x2.coeffs, fn + gn - 1, x2.isReal)
+            gcoeffs, gvals = prolong(x2.coeffs, fn + gn + 1, x2.isReal)
             v = nvals * gvals
 
         # Compute values and coefficients of result
@@ -283,7 +283,7 @@ def multiply(x1, x2, **kwargs):
             # when the product should be positive make sure it is after call to simplify
             v = np.abs(v)
             c = vals2coeffs(v)
-            is_real = np.ones((1, c.shape[1])).astype(bool)
+            is_real = np.ones(c.shape[1]).astype(bool)
         else:
             is_real = x1.isreal and x2.isreal
 
@@ -308,7 +308,7 @@ def divide(x1, x2, **kwargs):
 def true_divide(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, (np.ndarray, Number)):
-        return divide(x2, x1, **kwargs)
+        return trigtech(op=lambda x: np.divide(x1, x2(x)), minSamples=2 * x2.n)
 
     out = kwargs.pop('out', None)
     if out is not None:
-- 
2.43.0


From 74a51517cc895979fcd56060976854bc6328c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 007/102] fix: look at both positive and negative frequencies
 when chopping trigonometric functions

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 34f0dce..312a1c0 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -333,7 +333,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         cutoff = np.zeros(m).astype(int)
         for k in range(m):
             # FIXME!
-            cutoff[k] = standardChopCmplx(np.asfortranarray(self.coeffs[:, k]), tol[k])
+            cutoff[k] = standardChopCmplx(np.asfortranarray(coeffs[:n, k], dtype=complex), tol[k])
             # check if happy - TODO: check this for numpy adaptation
             ishappy[k] = (cutoff[k] < n)
 
-- 
2.43.0


From 748dcf407abf0c465c4a4536ca36976ba18e6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 008/102] fix: real part of a trigonometric function with
 negative values

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 312a1c0..1b4d449 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -515,7 +515,7 @@ def real(trig):
         return trig
 
     fvalues = np.real(trig.values)
-    if np.all(fvalues < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From abf4f5286c7f7fca890e831f215d4a162cb87524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 009/102] fix: odd derivatives of even-length trigonometric
 functions

---
 funpy/trig/trigtech.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1b4d449..9801db4 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -578,6 +578,12 @@ def diff(f, n=1, axis=0):
 
     # derivative in Fourier space
     c = c * (1j * np.pi * waveNumber)**n
+
+    # The highest mode of an even number of coefficients is cos(N/2 pi x) on the
+    # grid; its odd derivatives vanish there.
+    if n & 1 and not m & 1:
+        c[0, :] = 0
+
     return trigtech(coeffs=c, ishappy=f.ishappy, isreal=f.isReal, simplify=False)
 
 
-- 
2.43.0


From e816aad682e5f29a743132df69b0295bfa381415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 010/102] fix: antiderivative of trigonometric functions
 (constant term, columns, operand left alone)

---
 funpy/trig/trigtech.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 9801db4..9f9dbda 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -625,7 +625,7 @@ def cumsum(f, m=1, **kwargs):
         b_k = c_k / (i pi k).
 
     """
-    c = f.coeffs
+    c = np.copy(f.coeffs)
     n = f.n
     isEven = np.remainder(n, 2) == 0
 
@@ -636,7 +636,7 @@ def cumsum(f, m=1, **kwargs):
         ind = (n+1)//2 - 1
 
     # check that the mean of the trigtech is zero. If it is not, then throw an error.
-    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.vscale*f.eps):
+    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.get_vscale()*f.eps):
         raise RuntimeError("Indefinite integrals are only possible for trigtech objects with zero mean!")
 
     # throw error that this is only possible for mean zero trigtechs
@@ -648,13 +648,13 @@ def cumsum(f, m=1, **kwargs):
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
     else:
-        c[(n+1)//2, :] = 0
+        c[(n-1)//2, :] = 0
         highestDegree = (n-1)//2
 
     # TODO silence warning here!
     # loop over integration factor for each coefficient
     sumIndices = np.expand_dims(np.arange(-highestDegree, highestDegree+1), axis=1)
-    integrationFactor = (-1j/sumIndices/np.pi)**m
+    integrationFactor = (-1j/np.where(sumIndices == 0, 1, sumIndices)/np.pi)**m
     # zero out the one corresponding to the zeroth term
     integrationFactor[highestDegree] = 0
     c = c * integrationFactor
@@ -666,7 +666,7 @@ def cumsum(f, m=1, **kwargs):
         c[n, :] = 0
 
     # fix the constant term
-    c[highestDegree+1, :] = -np.sum(c * (-1+0j)**sumIndices)
+    c[highestDegree, :] = -np.sum(c * (-1.0)**sumIndices, axis=0)
 
     if isEven:
         c = c[:-1]
-- 
2.43.0


From bff0baa6ae0fc59746b6724441e04f955909880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 011/102] fix: multiplying trigonometric functions leaves the
 operands alone and honours the in-place target

The factor was multiplied into the operand's own coefficients when the other
operand was a constant with several columns, and 'f *= g' was lost when one of
them was constant.
---
 funpy/trig/ufuncs.py | 66 ++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 49 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 24d59b4..9b96ea0 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -166,46 +166,30 @@ def multiply(x1, x2, **kwargs):
 
     out = kwargs.pop('out', None)
     if isinstance(x2, Number):
-        # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            # FIXME???
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
         # update coefficients
-        c *= x2
-        v *= x2
+        c = np.asfortranarray(x1.coeffs * x2, dtype=complex)
+        v = np.asfortranarray(x1.values * x2, dtype=complex)
 
         # update the is real number
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isReal & np.isreal(x2)
         ishappy = x1.ishappy
 
     elif isinstance(x2, np.ndarray):
         if x2.size == 1:
-            return multiply(x1, x2.item(), **kwargs)
+            return multiply(x1, x2.item(), out=out, **kwargs)
 
         if len(x2.shape) == 1:
             x2 = np.expand_dims(x2, axis=1)
 
         # Otherwise the shape of the ndarray must be the same as
-        # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
-
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = x1.coeffs
-            v = x1.values
+        # for the coefficients, or be one row with a factor for each column
+        assert x2.shape in (x1.shape, (1, x1.m)), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
-        c *= x2
-        v *= x2
+        c = x1.coeffs * x2
+        v = coeffs2vals(c)
 
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isReal & np.all(np.isreal(x2), axis=0)
         ishappy = x1.ishappy
 
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
@@ -221,16 +205,9 @@ def multiply(x1, x2, **kwargs):
     elif isinstance(x2, type(x1)):
         # Multiplication with other chebtech
         if x1.n == 1:  # x1 is a constant function
-            return multiply(x2, x1.coeffs, **kwargs)
+            return multiply(x2, x1.coeffs, out=out, **kwargs)
         elif x2.n == 1:  # x2 is a constant function
-            return multiply(x1, x2.coeffs, **kwargs)
-
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
+            return multiply(x1, x2.coeffs, out=out, **kwargs)
 
         # Get the shapes
         fn, fm = x1.shape
@@ -239,18 +216,9 @@ def multiply(x1, x2, **kwargs):
         # prolong
         ncoeffs, nvals = prolong(x1.coeffs, fn + gn + 1, x1.isReal)
 
-        # check dimensions
-        if fm != gm:
-            if fm == 1:
-                # Allow [inf x 1] .* [Inf x m]
-                nvals = np.tile(nvals, (1, gm))
-                ncoeffs = np.tile(ncoeffs, (1, gm))
-            elif gm == 1:
-                # Allow [inf x m] .* [Inf x 1]
-                x2.values = np.tile(x2.values, (1, fm))
-                x2.coeffs = np.tile(x2.coeffs, (1, fm))
-            else:
-                assert False, 'Inner matrix dimensions must agree!'
+        # check dimensions: [inf x 1] .* [inf x m] and [inf x m] .* [inf x 1] are fine
+        if fm != gm and fm != 1 and gm != 1:
+            assert False, 'Inner matrix dimensions must agree!'
 
         # check for two cases where the output is known in advance to be
         # positive namely F == conj(G) or F == G and isreal(F)
@@ -276,7 +244,8 @@ def multiply(x1, x2, **kwargs):
         ishappy = x1.ishappy and x2.ishappy
 
         # Call simplify
-        v, c = simplify_coeffs(c, x1.isReal)
+        is_real = x1.isReal & x2.isReal
+        v, c = simplify_coeffs(c, is_real)
 
         # TODO
         if pos:
@@ -284,8 +253,6 @@ def multiply(x1, x2, **kwargs):
             v = np.abs(v)
             c = vals2coeffs(v)
             is_real = np.ones(c.shape[1]).astype(bool)
-        else:
-            is_real = x1.isreal and x2.isreal
 
         # if values are real -> make the result real
         v[:, is_real] = np.real(v[:, is_real])
@@ -297,6 +264,7 @@ def multiply(x1, x2, **kwargs):
         out[0].ishappy = ishappy
         out[0].coeffs = c
         out[0].values = v
+        out[0].isReal = is_real
         return out[0]
     else:
         return trigtech(values=v, coeffs=c, simplify=True,
-- 
2.43.0


From 3a7bfa04a151a5203697da445a7c710aa8b021e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 012/102] fix: sample compositions of trigonometric functions
 finely enough, keep the realness flag in step in place

exp(f) and friends started at 8 samples whatever the length of f, adding or
dividing by a complex number in place left the function flagged real, and
number ** f returned f ** number.
---
 funpy/cheb/refine.py   | 2 +-
 funpy/trig/refine.py   | 4 ++--
 funpy/trig/trigtech.py | 7 ++++---
 funpy/trig/ufuncs.py   | 7 ++++---
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 2051a80..88308fc 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -36,7 +36,7 @@ class RefineBase:
     """ Guess the next domain size to use """
     def get_n(self, f):
         if f.size == 0:
-            n = 2**np.ceil(np.log2(self.minSamples - 1)) + 1
+            n = min(2**np.ceil(np.log2(self.minSamples - 1)) + 1, f.maxLength)
         else:
             pow = np.log2(f.shape[0] - 1)
             if pow == np.floor(pow) and pow > 5:
diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index 7076e0b..51496e5 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -14,7 +14,7 @@ def expand(array, axis=1):
 """ Base class for resampling and refining operations  """
 class RefineBase(object):
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = kwargs.pop('minSamples', 9)
+        self.minSamples = max(9, kwargs.pop('minSamples', 9))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), dtype='complex', order='F')
@@ -25,7 +25,7 @@ class RefineBase(object):
     """ Guess the next domain size to use """
     def get_n(self, f):
         if f.size == 0:
-            n = 2**np.ceil(np.log2(self.minSamples - 1))
+            n = min(2**np.ceil(np.log2(self.minSamples - 1)), f.maxLength)
         else:
             pow = np.log2(f.shape[0])
             if pow == np.floor(pow) and pow > 5:
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 9f9dbda..1e18358 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -67,7 +67,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 else:   # Assume that it's a lambda -> TODO check that
                     # TODO implement this for the other parts too
                     self.__check_callable(op)
-                    refine = Refine(op=op, strategy=kwargs.pop('resample', 'nested'))
+                    refine = Refine(op=op, strategy=kwargs.pop('resample', 'nested'),
+                                    minSamples=kwargs.pop('minSamples', 9))
                     self.populate(refine)
 
                 # check whether the function should be real or not ???
@@ -154,10 +155,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             # If we don't have a special implementation we default to evaluating by value!
             if len(inputs) == 1:
                 op = lambda x: numpy_ufunc(inputs[0](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=2*inputs[0].n)
             elif len(inputs) == 2:
                 op = lambda x: numpy_ufunc(inputs[0](x), inputs[1](x))
-                return trigtech(op=op)
+                return trigtech(op=op, minSamples=2*max(inputs[0].n, inputs[1].n))
             else:
                 return NotImplemented
         else:
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 9b96ea0..faa2beb 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -31,7 +31,7 @@ def fabs(x, **kwargs):
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return power(x2, x1)
+        return trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=2*x2.n)
 
     if isinstance(x2, Number):
         return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
@@ -73,7 +73,7 @@ def add(x1, x2, **kwargs):
 
         # update is real
         # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.imag(other) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
 
         # Don't I need to do this?
         ishappy = x1.ishappy
@@ -303,13 +303,14 @@ def true_divide(x1, x2, **kwargs):
         if out is not None:
             out[0].values = fun.values
             out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
             return out[0]
         return fun
     else:
         return NotImplemented
 
     if out is not None:
-        # out[0].values = v
+        out[0].isReal = x1.isReal & np.all(np.isreal(x2))
         return out[0]
     else:
         return trigtech(coeffs=c, values=v, ishappy=x1.ishappy, isreal=x1.isReal)
-- 
2.43.0


From 0655880a28434ad9740f000d8e920a1ed9c84cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 013/102] fix: reject operands whose domains differ in either
 direction

The comparison lacked an absolute value: [0, 3] + [0, 2] was accepted.
---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 77e29e3..10d783b 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -171,7 +171,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.asarray(x.domain) - np.asarray(self.domain) < SMALL_EPS):
+                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
                     raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
 
         if method == "__call__":
-- 
2.43.0


From 2c7d795de74bd81c7ef3c8148122d825890cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 014/102] fix: +f, f**1 and the real part of f do not share
 storage with f

An in-place update of the result changed the operand.
---
 funpy/cheb/chebtech.py | 4 ++--
 funpy/cheb/ufuncs.pyx  | 6 +++---
 funpy/trig/ufuncs.py   | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 2a0d0ff..ba7c4d9 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -456,7 +456,7 @@ def argmax(f):
 @implements(np.real)
 def real(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.real(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.real(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
@@ -464,7 +464,7 @@ def real(cheb):
 @implements(np.imag)
 def imag(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.imag(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.imag(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index aef6972..05d15d8 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -26,7 +26,7 @@ def negative(x, **kwargs):
                        maxLength=x.maxLength, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def absolute(x, **kwargs):
     return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
@@ -38,9 +38,9 @@ def power(x1, x2, **kwargs):
         return NotImplemented
 
     if isinstance(x2, Number):
-        # Do nothing just return the function
+        # Do nothing just return a copy of the function
         if x2 == 1.0:
-            return x1
+            return np.copy(x1)
         return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=2 * x1.n, eps=x1.eps)
     else:
         return NotImplemented
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index faa2beb..569c305 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -21,7 +21,8 @@ def negative(x, **kwargs):
                         simplify=False, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return trigtech(values=np.copy(x.values), coeffs=np.copy(x.coeffs),
+                    simplify=False, ishappy=x.ishappy, isreal=x.isReal)
 
 def fabs(x, **kwargs):
     abs_values = np.abs(x.get_values())
-- 
2.43.0


From b9de7af4a2281c6ac42263aa3abd4d85a28dc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 015/102] fix: multiply by a constant function with several
 columns

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 05d15d8..5e937f2 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -200,8 +200,8 @@ def multiply(x1, x2, **kwargs):
             x2 = np.expand_dims(x2, axis=1)
 
         # Otherwise the shape of the ndarray must be the same as
-        # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
+        # for the coefficients, or be one row with a factor for each column
+        assert tuple(x2.shape) in (tuple(x1.shape), (1, x1.m)), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
         if out is not None:
-- 
2.43.0


From 939a07262541a5bd61a99f8dc8d1f73352675168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 016/102] fix: the real part of a real trigonometric function
 does not share storage with it

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1e18358..35d62c7 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -513,7 +513,7 @@ def argmax(f):
 def real(trig):
     """ Returns real part of a trigtech """
     if trig.isreal:
-        return trig
+        return +trig
 
     fvalues = np.real(trig.values)
     if np.all(np.abs(fvalues) < trig.eps):
-- 
2.43.0


From 31812132a63b50c14f8c25aa83ef0beec08eb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 017/102] fix: do not hand out the cached Chebyshev points and
 weights themselves

Scaling the points of one grid in place changed every later grid of that size.
---
 funpy/cheb/pts.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index d62bfa0..3ba5fe8 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -9,18 +9,22 @@ from functools import lru_cache
 
 """ Barycentric weights """
 @lru_cache(maxsize=25)
-def bary_weights(N):
+def _bary_weights_cached(N):
     c = np.hstack((np.ones(N-1), 0.5))
     c[-2::-2] = -1
     c[0] *= 0.5
     return c
 
 
+def bary_weights(N):
+    return _bary_weights_cached(N).copy()
+
+
 """ Quadrature weights for Curtis-Clenshaw """
 @lru_cache(maxsize=25)
-def quadwts(N):
+def _quadwts_cached(N):
     if N == 0:
-        return np.empty()
+        return np.empty(0)
     elif N == 1:
         return np.array([2.])
 
@@ -32,6 +36,10 @@ def quadwts(N):
     return w.real
 
 
+def quadwts(N):
+    return _quadwts_cached(N).copy()
+
+
 """ Scale Chebyshev nodes to a domain [a, b] """
 def scaleNodes(x, interval):
     a = interval[0]
@@ -76,7 +84,7 @@ def barymat(y, x, w):
 
 
 @lru_cache(maxsize=25)
-def chebpts_type1_compute(N):
+def _chebpts_type1_cached(N):
     if N == 0:
         return []
     elif N == 1:
@@ -86,7 +94,7 @@ def chebpts_type1_compute(N):
 
 
 @lru_cache(maxsize=25)
-def chebpts_type2_compute(N):
+def _chebpts_type2_cached(N):
     if N == 0:
         return []
     elif N == 1:
@@ -95,6 +103,15 @@ def chebpts_type2_compute(N):
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * (N - 1)))
 
 
+# Callers own what they get: the cached arrays are never handed out themselves.
+def chebpts_type1_compute(N):
+    return _chebpts_type1_cached(N).copy()
+
+
+def chebpts_type2_compute(N):
+    return _chebpts_type2_cached(N).copy()
+
+
 """ Functions to compute everything associated with type-1 points """
 def chebpts_type1(N, interval=None):
     # some special cases
-- 
2.43.0


From 8f82706a92ed456608d08302bdaa3b904914f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 018/102] fix: accept sparse arrays as well as sparse matrices
 in the sparse helpers

---
 funpy/colloc/sparse/csc.py |  8 +++++---
 funpy/colloc/sparse/csr.py | 13 +++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index f2c5ceb..b4a0214 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -4,6 +4,8 @@
 import numpy as np
 import scipy.sparse as sps
 
+from .csr import is_format
+
 
 # def csr_vappend(a,b):
 #     """ Takes in 2 csr_matrices and appends the second one to the bottom of the first one.
@@ -19,7 +21,7 @@ import scipy.sparse as sps
 
 
 def delete_col_csc(mat, i):
-    if not isinstance(mat, sps.csc_matrix):
+    if not is_format(mat, 'csc'):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +39,7 @@ def delete_cols_csc(mat, indices):
     """
         Deletes rows in indices from a csc sparse matrix
     """
-    if not isinstance(mat, sps.csc_matrix):
+    if not is_format(mat, 'csc'):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     if not (isinstance(indices, list) or isinstance(indices, np.ndarray)):
         indices = [indices]
@@ -50,7 +52,7 @@ def eliminate_zeros_csc(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not isinstance(mat, sps.csc_matrix):
+    if not is_format(mat, 'csc'):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
 
     if eps is None:
diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 704e974..e7e0bef 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -5,11 +5,16 @@ import numpy as np
 import scipy.sparse as sps
 
 
+def is_format(mat, fmt):
+    """ Both the sparse matrix and the sparse array classes of scipy come in each format """
+    return sps.issparse(mat) and mat.format == fmt
+
+
 def csr_vappend(a, b):
     """ Takes in 2 csr_matrices and appends the second one to the bottom of the first one.
     Much faster than scipy.sparse.vstack but assumes the type to be csr and overwrites
     the first matrix instead of copying it. The data, indices, and indptr still get copied."""
-    if not isinstance(a, sps.csr_matrix) or not isinstance(b, sps.csr_matrix):
+    if not is_format(a, 'csr') or not is_format(b, 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     a.data = np.hstack((a.data,b.data))
     a.indices = np.hstack((a.indices,b.indices))
@@ -19,7 +24,7 @@ def csr_vappend(a, b):
 
 
 def delete_row_csr(mat, i):
-    if not isinstance(mat, sps.csr_matrix):
+    if not is_format(mat, 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +42,7 @@ def delete_rows_csr(mat, indices):
     """
         Deletes rows in indices from a csr sparse matrix
     """
-    if not isinstance(mat, sps.csr_matrix):
+    if not is_format(mat, 'csr'):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     indices = list(indices)
     mask = np.ones(mat.shape[0], dtype=bool)
@@ -49,7 +54,7 @@ def eliminate_zeros(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not (isinstance(mat, sps.csr_matrix) or isinstance(mat, sps.csc_matrix)):
+    if not (is_format(mat, 'csr') or is_format(mat, 'csc')):
         raise ValueError("Work only for CSR / CSC format -- use .tocsr() or .tocsc() first!")
 
     if eps is None:
-- 
2.43.0


From c3a0949725ff0dde22a99467eb239efc6ef4d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 019/102] fix: deleting one row of a csr matrix dropped the
 wrong column indices

---
 funpy/colloc/sparse/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index e7e0bef..9ebee4e 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -31,7 +31,7 @@ def delete_row_csr(mat, i):
         mat.data[mat.indptr[i]:-n] = mat.data[mat.indptr[i+1]:]
         mat.data = mat.data[:-n]
         mat.indices[mat.indptr[i]:-n] = mat.indices[mat.indptr[i+1]:]
-        mat.indices = mat.indices[i+1:]
+        mat.indices = mat.indices[:-n]
     mat.indptr[i:-1] = mat.indptr[i+1:]
     mat.indptr[i:] -= n
     mat.indptr = mat.indptr[:-1]
-- 
2.43.0


From feb101182c88d1740c757070fbb76fc44ffaf22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 020/102] fix: multiply sparse arrays with their public
 operator

The private method used before is not there on sparse arrays, so no boundary
value problem could be solved.
---
 funpy/newton/FrechetDeflated.py   | 4 ++--
 funpy/newton/deflated_residual.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/newton/FrechetDeflated.py b/funpy/newton/FrechetDeflated.py
index 8f7e5b5..52812fc 100644
--- a/funpy/newton/FrechetDeflated.py
+++ b/funpy/newton/FrechetDeflated.py
@@ -50,13 +50,13 @@ class FrechetDeflated(LinearOperator):
         """
         # If no known solutions we bail and simply compute the regular part
         if self.functional is None:
-            return self.mat._mul_vector(x)
+            return self.mat @ x
 
         # Compute the derivative of eta
         deta = self.functional(x)
 
         # The b here should be just F(u)
-        return self.eta * self.mat._mul_vector(x) + self.b * deta
+        return self.eta * (self.mat @ x) + self.b * deta
 
     def _rmatvec(self, y):
         assert False, ''
diff --git a/funpy/newton/deflated_residual.py b/funpy/newton/deflated_residual.py
index 51405de..62e8601 100644
--- a/funpy/newton/deflated_residual.py
+++ b/funpy/newton/deflated_residual.py
@@ -159,13 +159,13 @@ class DeflatedResidual(LinearOperator):
         if not self.known_solutions:
             # Apply preconditioner
             #return self.M._mul_vector(self.prcond._matvec(c))
-            return self.M._mul_vector(c)
+            return self.M @ c
 
         # Compute the derivative of eta
         deta = self.functional(c)
 
         # The b here should be just F(u)
-        return self.eta * self.M._mul_vector(c) + self.b * deta
+        return self.eta * (self.M @ c) + self.b * deta
 
     def _rmatvec(self, x):
         """ Implements x = A^T y """
@@ -174,14 +174,14 @@ class DeflatedResidual(LinearOperator):
 
         if not self.known_solutions:
             #return self.prcond._rmatvec(self.MT._mul_vector(x))
-            return self.MT._mul_vector(x)
+            return self.MT @ x
 
         # Compute the derivative of eta
         deta = self.functional(x)
         assert False, 'FIXME!'
 
         # The b here should be just F(u)
-        return self.eta * self.MT._mul_vector(x) + self.b * deta
+        return self.eta * (self.MT @ x) + self.b * deta
 
     def to_matrix(self):
         """ Faster than tosparse -> since whenever we are not deflating we
-- 
2.43.0


From 430f12518e6a4c2b36ca77b8eabdfbb596e1f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 021/102] fix: GIANT returned the previous iterate instead of
 the converged one

When the simplified Newton correction met the tolerance the correction was
added to the iterate before the accepted trial step, so for example every
linear problem was reported solved with the initial guess as its solution.
---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index bac7cbc..ab3626a 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -198,7 +198,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
-                    x += dxbar
+                    x = xkp1 + dxbar
                     precision = normdxbar
                     # RETURN SUCCESS
                     rcode = 0
-- 
2.43.0


From 8711ed00f9fb556f4cd1e5734838003fa84874d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 022/102] fix: constant coefficients in Fourier multiplication
 matrices

numpy.asscalar is gone.
---
 funpy/colloc/trigspec/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index 2318ffe..453fd49 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -50,7 +50,7 @@ def multmat(k, f, format=None):
     # Multiplication using a scalar is simple!
     if n == 1:
         # the function f is a scalar
-        return np.asscalar(c) * eye(k)
+        return c.item() * eye(k)
 
     # Deal with the even case
     if np.remainder(n, 2) == 0:
-- 
2.43.0


From 54c2e89290805fa7d262975522b391a0423d8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 023/102] fix: real, imaginary part and conjugate of states
 with other than one real and one function

The loops over the functions and the reals had each other's bounds.
---
 funpy/vectorspaces/base_state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 42cb9f4..0aae50b 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -402,10 +402,10 @@ def real(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.real(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
@@ -417,10 +417,10 @@ def imag(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.imag(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
@@ -432,10 +432,10 @@ def conj(state):
     nreals = np.empty_like(state.reals)
     nfuncs = np.empty_like(state.funcs)
 
-    for i in range(n):
+    for i in range(m):
         nreals[i] = np.conj(state.reals[i])
 
-    for i in range(m):
+    for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
-- 
2.43.0


From e33bf64631c1a1354879ace203ca6a3395f819d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 024/102] fix: weighted inner product of states

The function called itself on the components instead of the functions' product.
---
 funpy/vectorspaces/base_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 0aae50b..bf63ff0 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -7,7 +7,8 @@ from numbers import Number
 
 import numpy as np
 
-from ..fun import norm2, minandmax, innerw
+from ..fun import norm2, minandmax
+from ..fun import innerw as fun_innerw
 from .namespace import Namespace
 from .parameter import Parameter
 
@@ -387,7 +388,7 @@ def innerw(state1, state2):
     inner = 0.0
     n, m = state1.fshape
     for i in range(n):
-        ip = state1.weights[i] * innerw(state1.funcs[i], state2.funcs[i])
+        ip = state1.weights[i] * fun_innerw(state1.funcs[i], state2.funcs[i])
         inner += np.sum(ip)
 
     for i in range(m):
-- 
2.43.0


From f99f26054f96c278d8068db3e049695bd759a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 025/102] fix: arithmetic on states keeps the weights of the
 inner product

---
 funpy/vectorspaces/base_state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index bf63ff0..7e07ef7 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -307,7 +307,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     nfuncs[i] = numpy_ufunc(*tlist)
 
-                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns)
+                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns, weights=self.weights)
         else:
             return NotImplemented
 
@@ -331,7 +331,7 @@ def zeros_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.zeros_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals, weights=state.weights)
 
 
 @implements(np.ones_like)
@@ -345,7 +345,7 @@ def ones_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.ones_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals, weights=state.weights)
 
 
 @implements(np.dot)
@@ -409,7 +409,7 @@ def real(state):
     for i in range(n):
         nfuncs[i] = np.real(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns, weights=state.weights)
 
 
 @implements(np.imag)
@@ -424,7 +424,7 @@ def imag(state):
     for i in range(n):
         nfuncs[i] = np.imag(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns, weights=state.weights)
 
 
 @implements(np.conj)
@@ -439,7 +439,7 @@ def conj(state):
     for i in range(n):
         nfuncs[i] = np.conj(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns, weights=state.weights)
 
 
 @implements(np.sum)
-- 
2.43.0


From c4030bdddf80dc67ae80cbbaf20772db06c17a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 026/102] fix: the Chebyshev grid of a constant is an array
 like every other grid

---
 funpy/cheb/pts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 3ba5fe8..742e006 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -86,9 +86,9 @@ def barymat(y, x, w):
 @lru_cache(maxsize=25)
 def _chebpts_type1_cached(N):
     if N == 0:
-        return []
+        return np.empty(0)
     elif N == 1:
-        return [0]
+        return np.zeros(1)
     else:
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * N))
 
@@ -96,9 +96,9 @@ def _chebpts_type1_cached(N):
 @lru_cache(maxsize=25)
 def _chebpts_type2_cached(N):
     if N == 0:
-        return []
+        return np.empty(0)
     elif N == 1:
-        return [0]
+        return np.zeros(1)
     else:
         return np.sin(np.pi * np.arange(-N+1, N, 2) / (2. * (N - 1)))
 
-- 
2.43.0


From b54243e8ce35d3b7da236ce282a6bca3aac1cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 027/102] fix: restrict functions with a single column

---
 funpy/cheb/chebtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index ba7c4d9..8b6f501 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -312,7 +312,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
         # compute values on new grid
         y = 0.5 * np.vstack((1-self.x, 1+self.x)).T @ np.vstack((s[:-1], s[1:]))  # new grid
-        values = self.feval(y.flatten())  # values on new grid
+        # values on new grid
+        values = self.feval(y.flatten()).reshape((n, m * numInts))
 
         # must rearrange the order of columns
         if m > 1:
-- 
2.43.0


From 59b559d1c3808e9d70f06fa2113a67031e54e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 028/102] fix: fliplr keeps the coefficients in Fortran order

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 8b6f501..ac9adf4 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -381,7 +381,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def fliplr(self):
         """ Flip columns of an array-valued chebtech object. """
-        return chebtech(coeffs=np.fliplr(self.coeffs), eps=self.eps,
+        return chebtech(coeffs=np.asfortranarray(np.fliplr(self.coeffs)), eps=self.eps,
                        hscale=self.hscale, simplify=False,
                        ishappy=self.ishappy, maxLength=self.maxLength)
 
-- 
2.43.0


From 1ae1a37e90e9b357327afbc4edb3341da748fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 029/102] fix: functions can be evaluated at the end points of
 every domain

---
 funpy/fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 10d783b..22ce581 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -129,6 +129,9 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
     def __call__(self, x):
         """ x in [a, b] -> [-1, 1] """
         z = self.mapping.bwd(x)
+        # The end points of the domain may be mapped just outside of [-1, 1] by rounding
+        tol = 4 * np.finfo(float).eps * (1 + self.hscale / (self.domain[-1] - self.domain[0]))
+        z = np.where(np.abs(np.abs(z) - 1.0) <= tol, np.clip(z, -1.0, 1.0), z)
         assert np.min(z) >= -1.0 and np.max(z) <= 1.0, 'Mapping must return an interval [-1, 1] instead of [%.12g, %.12g]!' % (np.min(z), np.max(z))
         return self.onefun.feval(z)
 
-- 
2.43.0


From bd2e32198cb2fdac66c09a523d7ae8e4754166d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 030/102] fix: antiderivative of functions with several columns

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index ac9adf4..acc5478 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -558,7 +558,7 @@ def cumsum(cheb, **kwargs):
     """
     n, m = cheb.shape
     c = np.vstack((cheb.coeffs, np.zeros((2, m))))  # pad with zeros
-    b = np.zeros((n+1, m))
+    b = np.zeros((n+1, m), order='F')
 
     # compute b_(2) ... b_(n+1)
     b[2:n+1, :] = (c[1:n, :] - c[3:n+2, :]) / np.tile(np.expand_dims(2*np.arange(2, n+1), axis=1), (1, m))
-- 
2.43.0


From 6361a00ccb3245cab94aa4f2e41043bd54de9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 031/102] fix: roots of functions one of whose columns vanishes

---
 funpy/cheb/detail.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index ea9d85d..d607ef3 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -610,8 +610,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
 def roots_scalar(f, eps=1.48e-8):
     splitPoint = -0.004849834917525
 
-    # Trivial case for f constant:
-    if f.shape[0] == 1:
+    # Trivial case for f constant (columns of an array-valued zero function may be longer)
+    if f.shape[0] == 1 or not np.any(f.coeffs):
         if f.coeffs[0, 0] == 0:
             r = [0]
         else:
-- 
2.43.0


From 08135087b34c6df0add07a05a82a49f90902dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 032/102] fix: inner product of trigonometric functions with
 different numbers of columns

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 35d62c7..95e78d6 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -694,7 +694,7 @@ def inner(trig1, trig2, weighted=False):
     out = np.matmul(fvalues.T * w, np.conj(gvalues))
 
     # FIXME for array valued trigtechs!
-    if np.all(trig1.isReal * trig2.isReal):
+    if np.all(trig1.isReal) and np.all(trig2.isReal):
         out = np.real(out)
 
     # Force non-negative output when the inputs are the same
-- 
2.43.0


From a70bd59a058f69c919cb650bbc178c0981e8c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 033/102] fix: add a row of numbers to a trigonometric function

---
 funpy/trig/ufuncs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 569c305..719a460 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -56,12 +56,13 @@ def add(x1, x2, **kwargs):
 
         other = np.asanyarray(x2, order='F')
 
-        # simply add to the values
-        v += other
-
-        # Update coefficients
+        # a row with a number for each column
         if other.shape and other.shape[1] > 1 and x1.m == 1:
             c = np.tile(x1.coeffs, (1, other.shape[1]))
+            v = np.tile(x1.values, (1, other.shape[1]))
+
+        # simply add to the values
+        v += other
 
         n = x1.n
         # determine index of constant coefficient term
@@ -70,7 +71,7 @@ def add(x1, x2, **kwargs):
         else:
             const_index = n//2
 
-        c[const_index, :] += other
+        c[const_index, :] += np.ravel(other)
 
         # update is real
         # TODO FIX THE EPS HERE!
-- 
2.43.0


From 20bea5e8a5974279f66fe07060582484a029ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 034/102] fix: the values of an in-place product of a
 trigonometric function stay complex

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 719a460..fdf8457 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -252,7 +252,7 @@ def multiply(x1, x2, **kwargs):
         # TODO
         if pos:
             # when the product should be positive make sure it is after call to simplify
-            v = np.abs(v)
+            v = np.abs(v).astype(complex)
             c = vals2coeffs(v)
             is_real = np.ones(c.shape[1]).astype(bool)
 
-- 
2.43.0


From 2503cf5665f2d6ac6b6ccb2ea04ccfd8aa570ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 035/102] fix: multiplication matrices of large dimension for
 functions without a constant term

---
 funpy/colloc/ultraS/transform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 82053d8..bb81ba8 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -39,9 +39,10 @@ def sptoeplitz_fast(col, format=None):
         # locate non-zero diagonals
         ic, jc, sc = find(col)
 
-        # use spdiags for construction
-        d = np.hstack((ic[1:], -ic))
-        B = np.tile(np.hstack((sc[1:], sc)), (n, 1)).T
+        # use spdiags for construction, the diagonal itself must only appear once
+        off = ic > 0
+        d = np.hstack((ic[off], -ic))
+        B = np.tile(np.hstack((sc[off], sc)), (n, 1)).T
         T = spdiags(B, d, n, n, format=format)
 
     return T
-- 
2.43.0


From 7a9cc145d4072edd7728ed0dc42b8ecddc67f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 036/102] fix: converting between ultraspherical bases leaves
 the coefficients given alone

---
 funpy/ultra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/ultra.py b/funpy/ultra.py
index 0084bd4..a243a86 100644
--- a/funpy/ultra.py
+++ b/funpy/ultra.py
@@ -92,7 +92,7 @@ def scl(lam, n):
 
 def ultra2ultra(c, lam_in, lam_out):
     n = len(c) - 1
-    c /= scl(lam_in, n)[:, None]
+    c = c / scl(lam_in, n)[:, None]
     c = jac2jac(c, lam_in - 0.5, lam_in - 0.5, lam_out - 0.5, lam_out - 0.5)
     c *= scl(lam_out, n)[:, None]
 
-- 
2.43.0


From f3e1330ff0355898ae264e0b4ef6be826942493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 037/102] fix: multiplication matrices of functions of small
 size keep all their terms

---
 funpy/colloc/ultraS/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index c96261d..ff8e6fe 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -137,7 +137,7 @@ def multmat(k, f, lam, format=None, eps=np.finfo(float).eps):
             M = M + c[nn+2] * M2
             M0 = M1
             M1 = M2
-            if np.all(np.abs(c[nn + 3:]) < eps):
+            if np.all(np.abs(c[nn + 3:]) < eps * np.max(np.abs(c))):
                 break
 
         # Extract the sub-matrix
-- 
2.43.0


From 949c9e5340dea708987d9dde5c898cae6ada8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 038/102] fix: Fourier multiplication matrices smaller than the
 function they multiply with

---
 funpy/colloc/trigspec/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index 453fd49..f0e61d2 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -67,7 +67,7 @@ def multmat(k, f, format=None):
         col = np.hstack((c[Na:],    np.zeros(k-Na-1)))
         row = np.hstack((c[Na::-1], np.zeros(k-Na-1)))
     else:  # truncate
-        col = c[Na:k-Na-1]
+        col = c[Na:Na+k]
         row = c[Na:Na-k:-1]
 
     return sptoeplitz(col, row, format=format)
-- 
2.43.0


From ae792112554e1dbf01908b6b69c0c0ff8fe38ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 039/102] fix: determinant of Hessenberg matrices larger than
 three

---
 funpy/linalg/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index eb4ead7..8574c05 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -194,9 +194,9 @@ def detH(A):
     for k in range(1, n):
         # Update the products
         for j in range(k):
-            p[j] *= d[j] * A[k, k-1]
+            p[j] *= A[k, k-1]
 
-        d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k])
+        d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k] * d[:k])
 
     return d[k+1]
 
-- 
2.43.0


From 88d51fc0d4d5617c3ff0702d0b4144500dda4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 040/102] fix: undo the pivoting when computing null vectors

---
 funpy/linalg/nullspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index f485dd0..79d87bf 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -42,7 +42,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
 
         # now to compute phi we have to multiply by Q
-        phi = phi[Q]  # Q.dot(phi)
+        phi[Q] = phi.copy()  # Q.dot(phi)
 
         if normalize:
             phi /= np.linalg.norm(phi, ord=2)
@@ -60,7 +60,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
 
         # now to compute psi we have to multiply by P^-1
-        psi = P.T.dot(psi)
+        psi[P] = psi.copy()  # P.T.dot(psi)
 
         if normalize:
             psi /= np.linalg.norm(psi, ord=2)
-- 
2.43.0


From b4861d6aa3b1a9b9ffd593f38fb7e854ce189711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 041/102] fix: completely pivoted LU leaves the matrix given
 alone

---
 funpy/linalg/lucp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index 698f92f..db1c369 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -29,6 +29,7 @@ def lucp(A, tol=1e-8, full=False, format='csr'):
         A = A.astype(dtype)
     else:
         dtype = A.dtype
+        A = A.copy()
 
     # pivot vectors
     p = np.arange(0, n, 1, dtype=np.int64)
-- 
2.43.0


From 80c413d2a2ed281bbe1181860bc4b7f13f2ec59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 042/102] fix: exact linear solver by QR

---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 7e36bf7..ee2f679 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -29,7 +29,7 @@ class ExactLinearSolver:
         elif method == 'lu' and not sparse:
             self.solver = DenseLUSolver(A, *args, **kwargs)
         elif method == 'qr':
-            self.solver = QRCholesky(A, rank=self.A.shape[0], *args, **kwargs)
+            self.solver = QRCholesky(A, rank=self.m, *args, **kwargs)
         else:
             raise RuntimeError(f'Unknown exact linear solver {method} requested!')
 
-- 
2.43.0


From c609771ff248a3e34df172e1b3d49e5565f5ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 043/102] fix: pseudo-inverse of matrices of rank deficiency
 larger than one

---
 funpy/linalg/qr_chol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index 03aae1b..dafc093 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -193,8 +193,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
@@ -222,8 +222,8 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        tmp = LA.solve_triangular(self.L, Qyk, trans=1)
+        Qxk = LA.solve_triangular(self.L, tmp)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
-- 
2.43.0


From 17c5b037f0818428eda1957527058d4372d79128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 044/102] fix: the pseudo-rank of a matrix does not depend on
 its scale

---
 funpy/linalg/qr_chol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index dafc093..e06907e 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -145,7 +145,7 @@ class QRCholesky:
 
     def pseudo_rank(self, R):
         r = np.abs(R.diagonal())
-        s = (r[1:] / r[0]) <= r[0] * self.eps
+        s = r[1:] <= r[0] * self.eps
         if np.all(~s):
             return r.size
         return np.argmax(s) + 1
-- 
2.43.0


From eee44539466f4fc20e7bee541217357f825a9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 045/102] fix: sign of the determinant of sparse matrices

---
 funpy/linalg/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index 8574c05..83bfecc 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -42,7 +42,7 @@ def logdet_detail_superlu(lu):
 
     logdet = np.log(diagL).sum() + np.log(diagU).sum()
 
-    swap_sign = minimumSwaps(lu.perm_r)
+    swap_sign = minimumSwaps(lu.perm_r) + minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
-- 
2.43.0


From 2c1d3901bc53c3ef37a5f5b3bbfd4c75d30313af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 046/102] fix: null vectors keep the result of the triangular
 solves

---
 funpy/linalg/nullspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index 79d87bf..990947d 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -39,7 +39,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         phi[:m-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Ustar = nu = u
-        spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        phi[:m-1] = spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
 
         # now to compute phi we have to multiply by Q
         phi[Q] = phi.copy()  # Q.dot(phi)
@@ -57,7 +57,7 @@ def null_vector(A, right=True, left=False, normalize=True):
         psi[:m-1] = L_dual.getcol(m-1).toarray().reshape(n)[:n-1]
 
         # then we must solve: Lstar w = l
-        spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        psi[:m-1] = spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
 
         # now to compute psi we have to multiply by P^-1
         psi[P] = psi.copy()  # P.T.dot(psi)
-- 
2.43.0


From 751bb85062b5131ca6cd62f5406fdb07ae866805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 047/102] fix: completely pivoted LU leaves complex matrices
 alone as well

---
 funpy/linalg/lucp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index db1c369..509cf69 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -23,6 +23,7 @@ def lucp(A, tol=1e-8, full=False, format='csr'):
 
     if np.any(np.iscomplex(A)):
         dtype = A.dtype
+        A = A.copy()
     elif issubclass(A.dtype.type, numbers.Integral):
         # make sure the matrix is float
         dtype = np.float64
-- 
2.43.0


From 94896c785987cfff6255f6dc27af7aa4e2ade1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 048/102] fix: quasi-Gauss-Newton corrections stay in the
 hyperplane normal to the tangent

---
 funpy/linalg/schur_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/schur_solve.py b/funpy/linalg/schur_solve.py
index a6a5b95..be1c550 100644
--- a/funpy/linalg/schur_solve.py
+++ b/funpy/linalg/schur_solve.py
@@ -99,7 +99,7 @@ class LinearSolverNGSchur:
         delta = self.solve_core(rhs)
 
         # Finally compute correction to u component
-        delta_a = sprod(self.tangent.u, delta) / self.schur_comp
+        delta_a = -sprod(self.tangent.u, delta) / self.schur_comp
         delta_u = delta - delta_a * self.W
 
         return self.to_state(delta_u, delta_a)
-- 
2.43.0


From 6eb7e29e1d1124feef35718f3d66f8342eb97e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 049/102] fix: linear and nonlinear solvers stop when an
 iterate is the exact solution

---
 funpy/linalg/gbit.py  | 3 +++
 funpy/newton/giant.py | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 4b3cd92..70a4385 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -114,6 +114,9 @@ def gbit(A, P, b, y=None,
             else:
                 stop_iter = epsilon <= rho * normyip1 * errtol
 
+            # The correction vanishes only when y solves the system exactly
+            stop_iter = stop_iter or sigma[i + 1] == 0.0
+
             # Update iteration counters
             iter += 1
             i += 1
diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index ab3626a..47370e7 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -178,6 +178,15 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
                 return x, newton_success, k, njac, nsystem
 
             normdxbar = norm(dxbar)
+
+            # The trial iterate is an exact solution
+            if lam == 1.0 and normdxbar == 0.0:
+                x = xkp1
+                precision = normdxbar
+                rcode = 0
+                newton_success = True
+                break
+
             theta = normdxbar / normdx
             w = dxbar - s * dx
             normdiff = norm(w)
-- 
2.43.0


From 2973143ac779822213b1a853fd439e830de547f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 050/102] fix: functions without coefficients are not read or
 written out of bounds

---
 funpy/cheb/detail.pyx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index d607ef3..25a1870 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -56,7 +56,7 @@ cpdef polyfit(const double[:, :] sampled, int workers = 1):
     """
     N = sampled.shape[0]
     M = sampled.shape[1]
-    if N == 1:
+    if N <= 1:
         return np.copy(sampled, order='F')
 
     c = np.empty((N , M), dtype=cb_t, order='F')
@@ -85,7 +85,7 @@ cpdef polyval(const double[:, :] chebcoeff, int workers = 1):
     """ compute the interpolation values at chebyshev points. """
     N = chebcoeff.shape[0]
     M = chebcoeff.shape[1]
-    if N == 1:
+    if N <= 1:
         return np.copy(chebcoeff, order='F')
 
     v = np.empty((N , M), dtype=cb_t, order='F')
@@ -383,6 +383,10 @@ cpdef clenshaw_scalar(np.ndarray[DTYPE_t, ndim=1] x, np.ndarray[DTYPE_t, ndim=1]
     cdef np.ndarray[DTYPE_t, ndim=1] bk2 = np.zeros(N)
     cdef DTYPE_t tmp
 
+    # there are no coefficients
+    if n < 0:
+        return np.expand_dims(bk1, axis=1)
+
     x = 2*x
     for i in range(n, 1, -2):
         for j in range(N):
@@ -416,6 +420,10 @@ cpdef clenshaw_vector(np.ndarray[DTYPE_t, ndim=1] x, np.ndarray[DTYPE_t, ndim=2]
     cdef np.ndarray[DTYPE_t, ndim=2] bk2 = np.zeros((N, m), dtype=cb_t)
     cdef DTYPE_t tmp
 
+    # there are no coefficients
+    if n < 0:
+        return bk1
+
     x = 2*x
     for i in range(n, 1, -2):
         for j in range(N):
-- 
2.43.0


From a5a36200c952588af2dddf317d215946436729d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 051/102] fix: in-place sums and products of a trigonometric
 and a Chebyshev function reach their target

---
 funpy/trig/ufuncs.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index fdf8457..745b490 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -12,6 +12,18 @@ from .trigtech import trigtech
 from .transform import coeffs2vals, vals2coeffs
 
 
+def from_chebtech(x, out=None):
+    """ Map a chebtech back to a trigtech, which is stored in the in-place target if there is one """
+    result = trigtech(op=lambda z: x.feval(z))
+    if out is None:
+        return result
+
+    target = out[0]
+    target.coeffs, target.values = result.coeffs, result.values
+    target.isReal, target.ishappy = result.isReal, result.ishappy
+    return target
+
+
 def negative(x, **kwargs):
     # Create the new function
     if not isinstance(x, trigtech):
@@ -85,7 +97,7 @@ def add(x1, x2, **kwargs):
         x1_cheb = chebtech(op=lambda x: x1.feval(x))
         x2_cheb = chebtech(op=lambda x: x2.feval(x))
         result = cb_funcs.add(x1_cheb, x2_cheb)
-        return trigtech(op=lambda x: result.feval(x))
+        return from_chebtech(result, out)
 
     elif isinstance(x2, type(x1)):  # other is expected to be a chebfun object now
         nf = x1.n
@@ -199,7 +211,7 @@ def multiply(x1, x2, **kwargs):
         x1_cheb = chebtech(op=lambda x: x1.feval(x))
         x2_cheb = chebtech(op=lambda x: x2.feval(x))
         result = cb_funcs.multiply(x1_cheb, x2_cheb)
-        return trigtech(op=lambda x: result.feval(x))
+        return from_chebtech(result, out)
 
     # We interpret multiplication with another numpy array of size equal to
     # the size of the chebpy object as element-wise multiplication in
-- 
2.43.0


From 1c236c14c74f14fff1a19cb232a4c3920071eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 052/102] fix: stacking refuses functions on different domains,
 inner products accept one domain written in two ways

---
 funpy/fun.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 22ce581..21d90e3 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -174,8 +174,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
-                    raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
+                check_domains(x, self)
 
         if method == "__call__":
             out = kwargs.pop('out', None)
@@ -245,6 +244,12 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
                    type=type, *args, **kwargs)
 
 
+def check_domains(f, g):
+    """ Two functions can only be combined when they are defined on the same domain """
+    if not np.all(np.abs(np.asarray(f.domain) - np.asarray(g.domain)) < SMALL_EPS):
+        raise ValueError("Domain mismatch %s != %s!" % (f.domain, g.domain))
+
+
 def implements(np_function):
     """ Register an __array_function__ implementation """
     def decorator(func):
@@ -320,8 +325,7 @@ def asfun(obj, *args, **kwargs):
 
 @implements(np.dot)
 def dot(input1, input2):
-    if not np.all(input1.domain == input2.domain):
-        raise ValueError("Domain mismatch %s != %s!" % (input1.domain, input2.domain))
+    check_domains(input1, input2)
 
     if isinstance(input1, Functional) and isinstance(input2, Fun):
         return np.dot(input1.coeffs, input2.coeffs)
@@ -492,8 +496,7 @@ def convolve(f, g):
     assert f.istrig == g.istrig, 'Fun type must match for computing convolutions!'
     if f.istrig:
         # Compute a circular convolution
-        if not np.all(f.domain == g.domain):
-            raise ValueError("Domain mismatch %s != %s!" % (f.domain, g.domain))
+        check_domains(f, g)
 
         rescaleFactor = 0.5 * np.diff(f.domain)
         df = circconv(f, g, f.domain) * rescaleFactor
@@ -556,16 +559,14 @@ def cumsum(f, *args, **kwargs):
 
 @implements(np.inner)
 def inner(f, g):
-    if not np.all(f.domain == g.domain):
-        raise ValueError("Domain mismatch %s != %s!" % (f.domain, g.domain))
+    check_domains(f, g)
 
     rescaleFactor = 0.5 * np.diff(f.domain)
     return np.inner(f.onefun, g.onefun) * rescaleFactor
 
 
 def innerw(f, g):
-    if not np.all(f.domain == g.domain):
-        raise ValueError("Domain mismatch %s != %s!" % (f.domain, g.domain))
+    check_domains(f, g)
 
     rescaleFactor = 0.5 * np.diff(f.domain)
     if f.istrig and g.istrig:
@@ -584,6 +585,9 @@ def roll(f, a):
 
 @implements(np.hstack)
 def hstack(funs):
+    for f in funs:
+        check_domains(f, funs[0])
+
     nf = np.hstack([f.onefun for f in funs])
     return Fun(domain=funs[0].domain, mapping=funs[0].mapping, onefun=nf)
 
-- 
2.43.0


From 8561709cca4917976b5cff27ac8a741a57bad44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 053/102] fix: sign of the third Fourier collocation
 differentiation matrix

---
 funpy/colloc/trigcolloc/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/trigcolloc/matrices.py b/funpy/colloc/trigcolloc/matrices.py
index e640b95..e369f88 100644
--- a/funpy/colloc/trigcolloc/matrices.py
+++ b/funpy/colloc/trigcolloc/matrices.py
@@ -67,7 +67,7 @@ def diffmat(n, m=1, format=None):
             csc_cot = (1. / np.sin(0.5 * v * h)**2) * (1. / np.tan(0.5 * h * v))
             column = np.hstack((0, 3./4 * csc_cot - np.pi**2 / 2 / h**2 / np.tan(0.5 * h * v)))
 
-        column[::2] *= -1.0
+        column[1::2] *= -1.0
         row = column[np.roll(np.arange(n)[::-1], 1)]
         D = LA.toeplitz(column, row)
 
-- 
2.43.0


From 8994b50995c9cf4ce5b43e42d5ecb7d0b37f0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 054/102] fix: linearization of functions multiplied by
 integrals

---
 funpy/colloc/source/DiffOperatorSource.py     | 3 ++-
 funpy/colloc/source/IntegralOperatorSource.py | 6 ++++--
 funpy/colloc/source/compiler.py               | 2 +-
 funpy/fun.py                                  | 2 ++
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 378ee95..8cfe5ff 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -66,6 +66,7 @@ class DiffOperatorSource:
             cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
-            cg.write('return asfun({0}, type=\'{1:s}\')'.format(ccode, ftype))
+            cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                     format(ccode, ftype, domain[0], domain[1]))
 
         cg.dedent()
diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index 9c80230..e421d2f 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -55,7 +55,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                         format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
@@ -84,7 +85,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{1:s}\', domain=[{2:.16f}, {3:.16f}])'.\
+                         format(ccode, ftype, domain[0], domain[1]))
 
         else:  # nothing -> write zero
             self.posInfo = False
diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 41fb84a..9a1f8c4 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -538,7 +538,7 @@ class Source:
             DM[i, j] = syp.expand(DM[i, j])
 
             # Collect integral terms so that we can extract them!
-            integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral)]
+            integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral) and arg.has(pfun)]
             for dpfun in integrals:
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
diff --git a/funpy/fun.py b/funpy/fun.py
index 21d90e3..8888c80 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -315,6 +315,8 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
+        # the function's own domain takes precedence
+        kwargs.pop('domain', None)
         return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
-- 
2.43.0


From b2313aa7590a62a2da5e0e6b89b96fbcde9d99cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 055/102] fix: linearization counted integrals appearing in
 several terms repeatedly

---
 funpy/colloc/source/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 9a1f8c4..57ab1b2 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -539,7 +539,8 @@ class Source:
 
             # Collect integral terms so that we can extract them!
             integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral) and arg.has(pfun)]
-            for dpfun in integrals:
+            # The same integral may appear in several terms, its coefficient collects all of them
+            for dpfun in dict.fromkeys(integrals):
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
 
-- 
2.43.0


From 5210fe510ae9c085180feb40f7424b641aa3a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 056/102] fix: order of a system ignored derivatives of one
 function in the equation of another

---
 funpy/colloc/source/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 57ab1b2..4384fcd 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -125,7 +125,7 @@ class Source:
         return len(self.cts_src)
 
     def get_diff_order(self, srcs):
-        return [0] + [ode_order(src, func) for src, func in zip(srcs, self.functions)]
+        return [0] + [ode_order(src, func) for src in srcs for func in self.functions]
 
     def get_function_names(self, type=None, constant=False):
         function_names = []
-- 
2.43.0


From 4c167c6850b9470995424ac0584bbbefc7e8713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 057/102] fix: rectangular projections initialise their
 operator base class, eigenvalues can be computed again

---
 funpy/colloc/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/colloc/projection.py b/funpy/colloc/projection.py
index be2e350..315012f 100644
--- a/funpy/colloc/projection.py
+++ b/funpy/colloc/projection.py
@@ -16,8 +16,7 @@ class RectangularProjection(LinearOperator):
         self.adj = adjoint
 
         # Basic setup for the linear operator
-        self.shape = self.mat.shape
-        self.dtype = np.dtype(dtype)
+        super().__init__(dtype=np.dtype(dtype), shape=self.mat.shape)
         self.explicit = False
 
     def _matvec(self, x):
-- 
2.43.0


From eb1ba96c68919722bd27e05954197cb83116ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 058/102] fix: a list of numbers, one for each column, could
 not be added to a trigonometric function

---
 funpy/trig/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 745b490..966c45b 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -69,7 +69,7 @@ def add(x1, x2, **kwargs):
         other = np.asanyarray(x2, order='F')
 
         # a row with a number for each column
-        if other.shape and other.shape[1] > 1 and x1.m == 1:
+        if other.ndim > 1 and other.shape[1] > 1 and x1.m == 1:
             c = np.tile(x1.coeffs, (1, other.shape[1]))
             v = np.tile(x1.values, (1, other.shape[1]))
 
-- 
2.43.0


From d94848b44c26d16be570fd3ff4cbe9efc483d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 059/102] fix: even-order repeated integral of a periodic
 function halved the highest mode

---
 funpy/trig/trigtech.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 95e78d6..625cad5 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -670,6 +670,8 @@ def cumsum(f, m=1, **kwargs):
     c[highestDegree, :] = -np.sum(c * (-1.0)**sumIndices, axis=0)
 
     if isEven:
+        # the highest mode is stored as one cosine
+        c[0, :] += c[n, :]
         c = c[:-1]
 
     # call simplify
-- 
2.43.0


From f27e17c79d01789af83086e3555cec983b00f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 060/102] fix: direct linear solvers reject the linearized
 operator

The linearization is a pylops operator, which is not a scipy LinearOperator:
its matrix was never taken, and NLEQ_ERR, QNERR and the standard Newton
method ended in a TypeError.
---
 funpy/linalg/exact_linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index ee2f679..d50aa33 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -18,7 +18,7 @@ class ExactLinearSolver:
         self.to_fun = to_fun
 
         # Is the matrix sparse?
-        if isinstance(A, LAS.LinearOperator): A = A.to_matrix()
+        if hasattr(A, 'to_matrix'): A = A.to_matrix()
         sparse = sps.issparse(A)
 
         # What linear method are we using?
-- 
2.43.0


From 4a8baec6acba73677d868c9112a6a3035a1576aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 061/102] fix: Newton and QNERR iterations overwrite their
 starting state

The adaptive solver compares the result with the starting state; updated in
place the two are the same object, and the coarsest solve was reported as
converged.
---
 funpy/newton/newton_standard.py | 2 +-
 funpy/newton/qnerr.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index e7f5ead..736b67e 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -68,7 +68,7 @@ def newton_standard(NewtonSystem, x, linear_solver='lu',
         normdx = norm(dx)
 
         # NEXT STEP
-        x += dx
+        x = x + dx
         k += 1
 
         if debug:
diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2e7d4d4..4c6ed98 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -98,7 +98,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
 
     while not newton_success and k <= miter:
         if not skipstep:
-            x += dx[k]
+            x = x + dx[k]
 
             if sigma[k] <= tol * tol:
                 k += 1
-- 
2.43.0


From 699cba31e11bf03edb6d5a4336bc20992365fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 062/102] fix: direct Newton corrections lose their highest
 coefficients

The projection of the residual was applied to the solution of the linear
system, so that the last coefficients of the iterate were never corrected.
---
 funpy/newton/NewtonSystem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index 116f77a..b41b45b 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -56,8 +56,7 @@ class NewtonSystem:
         linOp, precd, proj = self.matrix(precond=precond)
 
         # Create the exact linear solver
-        self.linSys = ExactLinearSolver(linOp, proj=lambda x: proj.dot(x),
-                                        method=linear_solver)
+        self.linSys = ExactLinearSolver(linOp, method=linear_solver)
 
     def solve(self, b):
         assert self.linSys is not None, 'Solving via sparse method don\'t call this!'
-- 
2.43.0


From c52a2ad1626e703bdd210cf7c0391034687575aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 063/102] fix: dot product of periodic functions with several
 columns returned a matrix

The Chebyshev dot product is the sum over the columns; the periodic one
returned all pairs, so that Newton's method failed on every periodic system.
---
 funpy/trig/trigtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 625cad5..fc35bef 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -712,7 +712,8 @@ def innerw(trig1, trig2, weighted=False):
 
 @implements(np.dot)
 def dot(cheb1, cheb2):
-    return inner(cheb1, cheb2)
+    rval = inner(cheb1, cheb2)
+    return np.sum(np.diagonal(rval)).item() if rval.size > 1 else rval
 
 
 def diffmat(self, n, k=1):
-- 
2.43.0


From a864c26b969732f984035aad00483f73fcfed3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 064/102] fix: boundary conditions of systems of several
 functions

---
 funpy/colloc/LinSys.py           |  1 +
 funpy/colloc/chebOpConstraint.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index 18ac750..086fabf 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -136,6 +136,7 @@ class LinSys(LinSysBase):
             try:
                 print('op_name = ', bc_op.symbol_name)
                 constraint = ChebOpConstraint(op=self.ns[bc_op.symbol_name],
+                                              m=self.linOp.shape[1],
                                               domain=src.domain)
 
                 self.constraints.append(constraint)
diff --git a/funpy/colloc/chebOpConstraint.py b/funpy/colloc/chebOpConstraint.py
index 5d4b1dc..a3cebe5 100644
--- a/funpy/colloc/chebOpConstraint.py
+++ b/funpy/colloc/chebOpConstraint.py
@@ -20,13 +20,16 @@ class ChebOpConstraint:
                 required for constraint collocation.
 
             values: Equal value of the constraint.
+            m: Number of functions the constraint is for.
         """
         self.op     = kwargs.get('op', None)
         self.domain = kwargs.pop('domain', [-1, 1])
         self.values = np.atleast_1d(kwargs.get('values', 0.0))
 
+        self.m      = kwargs.pop('m', 1)
+
         # Assemble dummy function
-        zf = zeros(1, domain=self.domain)
+        zf = zeros(self.m, domain=self.domain)
         offset = -self.residual(zf)
 
         def functional(*args):
@@ -47,8 +50,11 @@ class ChebOpConstraint:
         return self
 
     def __call__(self, n):
-        colloc = chebcolloc2(values=np.eye(n), domain=self.domain)
-        return self.functional(colloc)
+        # the k-th function takes the k-th block of the values of all functions
+        values = np.eye(self.m * n)
+        collocs = [chebcolloc2(values=values[k*n:(k+1)*n], domain=self.domain)
+                   for k in range(self.m)]
+        return self.functional(*collocs)
 
     def residual(self, u):
         """ Compute the residual of the functional """
-- 
2.43.0


From 963cd700b1f2eb3fd613b8dc9208a2ab4b9a1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 065/102] fix: boundary conditions given as functions, as
 documented

---
 funpy/colloc/LinSys.py                         | 3 ++-
 funpy/colloc/source/BoundaryConditionSource.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index 086fabf..47e6fe8 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -135,7 +135,8 @@ class LinSys(LinSysBase):
         for bc_op in src.bcs:
             try:
                 print('op_name = ', bc_op.symbol_name)
-                constraint = ChebOpConstraint(op=self.ns[bc_op.symbol_name],
+                op = bc_op.coeffs if callable(bc_op.coeffs) else self.ns[bc_op.symbol_name]
+                constraint = ChebOpConstraint(op=op,
                                               m=self.linOp.shape[1],
                                               domain=src.domain)
 
diff --git a/funpy/colloc/source/BoundaryConditionSource.py b/funpy/colloc/source/BoundaryConditionSource.py
index d38b557..cf37777 100644
--- a/funpy/colloc/source/BoundaryConditionSource.py
+++ b/funpy/colloc/source/BoundaryConditionSource.py
@@ -42,6 +42,9 @@ class BoundaryConditionSource:
         # Store symbol name of function
         self.symbol_name = '{0:s}'.format(name)
 
+        # A condition given as a callable needs no code
+        if callable(self.coeffs): return
+
         # Write to the code gen
         #
         # TODO: A current limitation of the chebcolloc2 code is that chebcollocs
-- 
2.43.0


From 366b1a3b060e290f5c6227c6edbe929d5a8388ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 066/102] fix: diagram coordinates by Sobolev norm (plot_values
 with norm_type='Wkp' raised TypeError)

---
 funpy/vectorspaces/State.py         | 4 ++--
 funpy/vectorspaces/cont_state.py    | 4 ++--
 funpy/vectorspaces/tp_cont_state.py | 4 ++--
 funpy/vectorspaces/tp_state.py      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/funpy/vectorspaces/State.py b/funpy/vectorspaces/State.py
index 6a98633..17e32e5 100644
--- a/funpy/vectorspaces/State.py
+++ b/funpy/vectorspaces/State.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 import warnings
 
-from funpy.fun import h1norm, norm, sturm_norm, sturm_norm_alt
+from funpy.fun import wkpnorm, norm, sturm_norm, sturm_norm_alt
 from funpy.fun import Fun
 
 from .namespace import Namespace
@@ -98,7 +98,7 @@ class ContinuationState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.a), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.a), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.a), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.a), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index ab0bc1e..d4e956c 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 import warnings
 
-from ..fun import Fun, h1norm, norm, norm2, sturm_norm, sturm_norm_alt
+from ..fun import Fun, wkpnorm, norm, norm2, sturm_norm, sturm_norm_alt
 
 from .namespace import Namespace
 from .base_state import BaseState
@@ -118,7 +118,7 @@ class ContinuationState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.a), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.a), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.a), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.a), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_cont_state.py b/funpy/vectorspaces/tp_cont_state.py
index 2d4c167..fb5105f 100644
--- a/funpy/vectorspaces/tp_cont_state.py
+++ b/funpy/vectorspaces/tp_cont_state.py
@@ -4,7 +4,7 @@
 import numpy as np
 from copy import deepcopy
 
-from ..fun import Fun, h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import Fun, wkpnorm, norm, sturm_norm, sturm_norm_alt
 from .base_state import BaseState
 from .parameter import Parameter
 
@@ -113,7 +113,7 @@ class TwoParContState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_state.py b/funpy/vectorspaces/tp_state.py
index 74bef34..171de81 100644
--- a/funpy/vectorspaces/tp_state.py
+++ b/funpy/vectorspaces/tp_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 
 from ..fun import Fun
-from ..fun import h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import wkpnorm, norm, sturm_norm, sturm_norm_alt
 
 from .base_state import BaseState
 from .parameter import Parameter
@@ -129,7 +129,7 @@ class TwoParameterState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
-- 
2.43.0


From 375c7f296b6d93cddb4e6842c9ca3d3304934975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 067/102] fix: deep copies keep the horizontal scale

---
 funpy/cheb/chebtech.py | 2 +-
 funpy/trig/trigtech.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index acc5478..8d26786 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -87,7 +87,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         if _copy is None:
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index fc35bef..2ad6394 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -113,7 +113,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
                 values=deepcopy(self.values),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 ishappy=self.ishappy,
                 isreal=self.isReal)
-- 
2.43.0


From 7656f6172553fc67bd0d0aeb17b18bd8c434da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 068/102] fix: coefficients given row by row (from_coeffs with
 order='C' raised ValueError)

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 8888c80..bb04f15 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -217,7 +217,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
     def from_coeffs(cls, coeffs, n_funs, type='cheb', order='F', *args, **kwargs):
         assert coeffs.size % n_funs == 0, 'Array must fit!'
         m = coeffs.size // n_funs
-        return cls(coeffs=coeffs.reshape((m, n_funs), order=order),
+        return cls(coeffs=np.asfortranarray(coeffs.reshape((m, n_funs), order=order)),
                    simplify=False, eps=np.finfo(float).eps,
                    type=type, *args, **kwargs)
 
-- 
2.43.0


From 63dbee5496a66fed8dda416af64366daf34f4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 069/102] fix: select every k-th column of a Chebyshev function
 (slices with a step raised ValueError)

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 8d26786..82e4c57 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -220,7 +220,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx.start < 0 or idx.stop > self.m:
                 raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(idx.start, idx.stop, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, idx], eps=self.eps,
+            return chebtech(coeffs=np.asfortranarray(self.coeffs[:, idx]), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
 
-- 
2.43.0


From 40762d3a42afae48b4cd28ba4b2164f3215b7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 070/102] fix: periodic functions from values (Fun.from_values
 with type='trig' raised AttributeError)

---
 funpy/trig/trigtech.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 2ad6394..4ef78d0 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -106,6 +106,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         else:
             assert False, 'Don\'t know what to do with this!'
 
+    @classmethod
+    def from_values(cls, values, *args, **kwargs):
+        return cls(values=values, *args, **kwargs)
+
     def __deepcopy__(self, memo):
         id_self = id(self)
         _copy = memo.get(id_self)
-- 
2.43.0


From c2a14760f90866da0a27181a812fe05fff112e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 071/102] fix: convert functions with several columns between
 the Chebyshev and periodic representations

---
 funpy/fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index bb04f15..6f804b5 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -317,7 +317,8 @@ def asfun(obj, *args, **kwargs):
 
         # the function's own domain takes precedence
         kwargs.pop('domain', None)
-        return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
+        op = [lambda x, col=col: col(x) for col in obj]
+        return Fun(op=op, type=ftype, domain=obj.domain, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
         return Fun(coeffs=np.reshape(np.asarray(obj, dtype=float), (1, 1), order='F'), *args, **kwargs)
-- 
2.43.0


From 726c9352b9246363362cc337c725a551f9d2f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 072/102] fix: f != g is the opposite of f == g

---
 funpy/fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 6f804b5..3bb2506 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -94,6 +94,9 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         return np.all(self.domain == other.domain) and np.all(self.onefun == other.onefun) \
                 and np.all(self.mapping == other.mapping)
 
+    def __ne__(self, other):
+        return not self == other
+
     def simplify(self, *args, **kwargs):
         self.onefun = self.onefun.simplify(*args, **kwargs)
         return self
-- 
2.43.0


From fbfb66c394d0b6d95348e315201c6a00f19f59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 073/102] fix: quadrature weights, barycentric weights and
 angles of the first kind Chebyshev points; one-point grids on any interval

---
 funpy/cheb/pts.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 742e006..0b37b55 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -40,6 +40,14 @@ def quadwts(N):
     return _quadwts_cached(N).copy()
 
 
+""" Quadrature weights for the first kind points (Fejer's first rule) """
+def quadwts_type1(N):
+    theta = np.pi * (2. * np.arange(0, N, 1) + 1.) / (2. * N)
+    j = np.arange(1, N // 2 + 1)
+    w = 1. - 2. * np.sum(np.cos(2. * np.outer(theta, j)) / (4. * j**2 - 1.), axis=1)
+    return 2. * w / N
+
+
 """ Scale Chebyshev nodes to a domain [a, b] """
 def scaleNodes(x, interval):
     a = interval[0]
@@ -121,8 +129,11 @@ def chebpts_type1(N, interval=None):
         v = []
         t = []
     elif N == 1:
-        x = [0]
-        w = [2]
+        x = np.zeros(1)
+        w = np.full(1, 2.)
+        if interval is not None:
+            x = scaleNodes(x, interval)
+            w = scaleWeights(w, interval)
         v = [1]
         t = [0.5 * np.pi]
     else: # general case
@@ -133,15 +144,16 @@ def chebpts_type1(N, interval=None):
             x = scaleNodes(x, interval)
 
         # quadrature weights
-        w = quadwts(N)
+        w = quadwts_type1(N)
         if interval is not None:
             w = scaleWeights(w, interval)
 
-        # barycentric weights
-        v = bary_weights(N)
-
         # angles
-        t = np.pi * np.flip(np.arange(0, N, 1)) / (N - 1)
+        t = np.pi * (2. * np.flip(np.arange(0, N, 1)) + 1.) / (2. * N)
+
+        # barycentric weights: the last one is positive
+        v = np.sin(t)
+        v[-2::-2] *= -1
 
     return np.asarray(x), np.asarray(w), np.asarray(v), np.asarray(t)
 
@@ -155,8 +167,11 @@ def chebpts_type2(N, interval=None):
         v = []
         t = []
     elif N == 1:
-        x = [0]
-        w = [2]
+        x = np.zeros(1)
+        w = np.full(1, 2.)
+        if interval is not None:
+            x = scaleNodes(x, interval)
+            w = scaleWeights(w, interval)
         v = [1]
         t = [0.5 * np.pi]
     else: # general case
-- 
2.43.0


From 8be77a7c663f3b91c83588ec9b1f9c59569921c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 074/102] fix: qr of a function (one column, several columns,
 large functions; the operand is left unchanged)

---
 funpy/cheb/qr.py | 18 ++++++------------
 funpy/qr.py      |  9 +++------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index deb0f5f..99fa65d 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -5,7 +5,7 @@ import numpy as np
 import scipy.linalg as LA
 
 from .pts import chebpts
-from .detail import polyfit
+from .detail import polyfit, polyval
 
 from ..qr import abstractQR
 
@@ -19,26 +19,20 @@ def qr(f, eps=1.48e-8):
     if m == 0:
         return f, None
 
-    # If it contains only one column we simply scale
-    if m == 1:
-        R = np.sqrt(f.innerproduct(f))
-        Q = f/R
-        return Q, R
-
     tol = eps * np.max(f.vscale)
 
     # make discrete analog of f
     newN = 2 * max(n, m)
-    # get values?
-    f.prolong(newN)
-    A = f.values
+    # the values of f on the finer grid (f itself is left as it is)
+    A = polyval(f.prolong_coeffs(newN))
 
     # Get the chebyshev points
     x, w, _, _ = chebpts(newN)
 
     # generate discrete E (Legendre-Chebyshev-Vandermonde matrix) directly
     E = np.ones(A.shape)
-    E[:, 1] = x
+    if m > 1:
+        E[:, 1] = x
     for k in range(3, m+1):
         E[:, k-1] = ((2 * k - 3) * x * E[:, k-2] - (k - 2) * E[:, k-3]) / (k - 1)
 
@@ -53,6 +47,6 @@ def qr(f, eps=1.48e-8):
 
     # compute the corresponding Chebyshev coefficients
     coeffs = polyfit(Q)
-    return coeffs[:newN//2+1, :], R
+    return np.asfortranarray(coeffs[:newN//2+1, :]), R
     #Q = chebtec(coeffs=coeffs[:newN//2+1, :], interval=f.interval, simplify=False)
     return Q, R
diff --git a/funpy/qr.py b/funpy/qr.py
index 9892c46..614d0b7 100644
--- a/funpy/qr.py
+++ b/funpy/qr.py
@@ -9,18 +9,15 @@ def abstractQR(A, E, inner_product, norm, tol):
     V = np.copy(A)
 
     for k in range(numCols):
-        I = np.arange(0, k-1)
+        I = np.arange(0, k)
         J = np.arange(k+1, numCols)
 
-        # scale
-        scl = max(norm(E[:, k]), norm(A[:, k]))
-
         # Multiply the k-th column of A with the basis in E:
         ex = inner_product(E[:, k], A[:, k])
         aex = abs(ex)
 
         # Adjust the sign of the k-th column in E
-        if aex < tol * scl:
+        if aex < tol:
             s = 1
         else:
             s = -np.sign(ex / aex)
@@ -40,7 +37,7 @@ def abstractQR(A, E, inner_product, norm, tol):
 
         # normalize
         nv = np.sqrt(inner_product(v, v))
-        if nv < tol * scl:
+        if nv < tol:
             v = E[:, k]
         else:
             v /= nv
-- 
2.43.0


From 35dc9bfb38d95cdff0814d7b0f1dbc0585f7c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 075/102] fix: roots, in-place sums, convolutions, functionals
 and projections leave the length and coefficients of their operands alone;
 prolong of periodic functions

---
 funpy/cheb/chebtech.py            |  3 +--
 funpy/cheb/ufuncs.pyx             |  4 ++--
 funpy/colloc/trigspec/trigspec.py |  4 ++--
 funpy/colloc/ultraS/ultraS.py     |  4 ++--
 funpy/fun.py                      |  2 +-
 funpy/functional.py               |  3 ++-
 funpy/trig/operations.py          | 10 ++++++----
 funpy/trig/ufuncs.py              |  7 +++----
 8 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 82e4c57..0322f8c 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -399,8 +399,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def roots(self, *args, **kwargs):
         # If we don't simplify this may lead to crashes!
-        self.simplify()
-        return roots(self, eps=self.eps)
+        return roots(np.copy(self).simplify(), eps=self.eps)
 
     def minandmax(self, *args, **kwargs):
         fp = np.diff(self)
diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 5e937f2..133580d 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -85,12 +85,12 @@ def add(x1, x2, **kwargs):
         no = x2.n
 
         if out is not None:
+            oc = x2.coeffs
             if nf > no:
-                x2.prolong(nf)
+                oc = detail.prolong(oc, nf)
             elif nf < no:
                 x1.prolong(no)
             c = out[0].coeffs
-            oc = x2.coeffs
         else:
             c = np.copy(x1.coeffs, order='F')
             oc = x2.coeffs
diff --git a/funpy/colloc/trigspec/trigspec.py b/funpy/colloc/trigspec/trigspec.py
index 233dff7..2a0534b 100644
--- a/funpy/colloc/trigspec/trigspec.py
+++ b/funpy/colloc/trigspec/trigspec.py
@@ -5,7 +5,7 @@ import numpy as np
 import scipy.sparse as sps
 from scipy.sparse import eye, csr_matrix
 
-from ...fun import Fun
+from ...fun import Fun, prolong
 
 from ..coeffsDiscretization import coeffsDiscretization
 from ..sparse.csr import eliminate_zeros
@@ -176,7 +176,7 @@ class trigspec(coeffsDiscretization):
 
         """
         if isinstance(vector, Fun):
-            vector = vector.prolong(self.source.dshape[0]).flatten()
+            vector = prolong(vector, self.source.dshape[0]).flatten()
 
         if basis:
             arr = np.atleast_1d(self.projection._matvec(vector))
diff --git a/funpy/colloc/ultraS/ultraS.py b/funpy/colloc/ultraS/ultraS.py
index b2ab63e..d0c1086 100644
--- a/funpy/colloc/ultraS/ultraS.py
+++ b/funpy/colloc/ultraS/ultraS.py
@@ -13,7 +13,7 @@ except ImportError:
 
 from ..sparse.csr import eliminate_zeros
 
-from ...fun import Fun, ultra2ultra
+from ...fun import Fun, prolong, ultra2ultra
 
 from ..coeffsDiscretization import coeffsDiscretization
 
@@ -282,7 +282,7 @@ class ultraS(coeffsDiscretization):
 
         """
         if isinstance(vector, Fun):
-            vector = vector.prolong(self.source.dshape[0]).flatten()
+            vector = prolong(vector, self.source.dshape[0]).flatten()
 
         if basis:
             arr = np.atleast_1d(self.projection._matvec(vector))
diff --git a/funpy/fun.py b/funpy/fun.py
index 3bb2506..ba8dc58 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -621,7 +621,7 @@ def minandmax(f, *args, **kwargs):
 
 
 def prolong(f, Nout):
-    nf = np.copy(f)
+    nf = deepcopy(f)
     return nf.prolong(Nout)
 
 
diff --git a/funpy/functional.py b/funpy/functional.py
index 75f07c7..2594420 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -19,7 +19,8 @@ class Functional:
 
         n = kwargs.pop('n', None)
         if n is not None:
-            function = function.prolong(n)
+            # the function itself keeps its length
+            function = np.copy(function).prolong(n)
 
         if weighted:
             self.coeffs = np.asarray(function)
diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 5bc1cb3..3e029cd 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -1,6 +1,8 @@
 #!/usr/bin/python
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
+from copy import deepcopy
+
 import numpy as np
 from scipy.fft import ifft, fft
 
@@ -59,9 +61,9 @@ def circconv(f, g, domain):
 
     # Make sure the trigtech objects have the same underlying size
     if nf > ng:
-        g.prolong(nf)
+        g = deepcopy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = deepcopy(f).prolong(ng)
     n = f.n
 
     # Convolution is just multiplication of the Fourier coefficients.
@@ -91,9 +93,9 @@ def trig_adhesion(f, g, domain):
 
     # Make sure the trigtech objects have the same underlying size
     if nf > ng:
-        g.prolong(nf)
+        g = deepcopy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = deepcopy(f).prolong(ng)
 
     ncoeffs = f.coeffs * g.coeffs
     nvalues = coeffs2vals(ncoeffs)
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 966c45b..db94137 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -104,8 +104,10 @@ def add(x1, x2, **kwargs):
         no = x2.n
 
         if out is not None:
+            oc = x2.coeffs
+            ov = x2.values
             if nf > no:
-                x2.prolong(nf)
+                oc, ov = prolong(oc, nf, x2.isReal)
             elif nf < no:
                 x1.prolong(no)
 
@@ -113,9 +115,6 @@ def add(x1, x2, **kwargs):
             v = out[0].values
             # print('out!')
             # print('v = ', v.dtype, ' out = ', out[0].values.dtype)
-
-            oc = x2.coeffs
-            ov = x2.values
         else:
             # FIXME - I shouldn't need any of these silly type conversions!
             c = np.copy(x1.coeffs, order='F').astype(complex)
-- 
2.43.0


From 886380f9f3c02eb74d719ea5fd27263ccd2e062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:19 +0000
Subject: [PATCH 076/102] fix: the reversed order of a single column is a copy

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 0322f8c..0f3fdae 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -381,7 +381,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def fliplr(self):
         """ Flip columns of an array-valued chebtech object. """
-        return chebtech(coeffs=np.asfortranarray(np.fliplr(self.coeffs)), eps=self.eps,
+        return chebtech(coeffs=np.array(np.fliplr(self.coeffs), order='F'), eps=self.eps,
                        hscale=self.hscale, simplify=False,
                        ishappy=self.ishappy, maxLength=self.maxLength)
 
-- 
2.43.0


From 614286718aa10ea5dd25e58dcdd623740c0e75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:43 +0000
Subject: [PATCH 077/102] fix: adaptive construction mistook functions for
 their aliases on the coarse grid (cos(31 pi x) became a periodic function of
 length three)

---
 funpy/cheb/chebtech.py | 14 ++++++++++++++
 funpy/cheb/refine.py   |  8 ++++++++
 funpy/trig/refine.py   |  8 ++++++++
 funpy/trig/trigtech.py | 14 ++++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 0f3fdae..4e54965 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -278,10 +278,24 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             # check happiness
             ishappy, cutoff = self.happy()
 
+            if ishappy and not self.sample_test(refine, values):
+                self.ishappy = ishappy = False
+
             if ishappy:
                 self.prolong(cutoff+1)
                 break
 
+    def sample_test(self, refine, values):
+        """ Compare with the function between the grid points; on the grid it cannot be told from its aliases """
+        x = np.array([-0.357998918959666, 0.036785641195074])
+        sample = refine.sample(x)
+        if sample is None:
+            return True
+
+        scale = np.max(np.abs(values), axis=0)
+        tol = 1e-5 * scale + 1e-12 * np.max(scale)
+        return bool(np.all(np.abs(sample - self.feval(x).reshape(sample.shape)) <= tol))
+
     """ Evaluates chebtech at x = -1 """
     def lval(self):
         c = np.copy(self.coeffs)
diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 88308fc..6a26442 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -33,6 +33,10 @@ class RefineBase:
     def __call__(self, target):
         return self._call(target)
 
+    """ Values between the grid points, or None if they are not available """
+    def sample(self, x):
+        return None
+
     """ Guess the next domain size to use """
     def get_n(self, f):
         if f.size == 0:
@@ -69,6 +73,10 @@ class Refine(RefineBase):
         else:
             assert False, ''
 
+    """ Values between the grid points """
+    def sample(self, x):
+        return np.reshape(np.real(self.op(x)), (x.size, -1))
+
     """ Resample the function on a new domain """
     def __resample(self, target):
         n, giveUp = self.get_n(target)
diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index 51496e5..1f88e03 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -22,6 +22,10 @@ class RefineBase(object):
     def __call__(self, target):
         return self._call(target)
 
+    """ Values between the grid points, or None if they are not available """
+    def sample(self, x):
+        return None
+
     """ Guess the next domain size to use """
     def get_n(self, f):
         if f.size == 0:
@@ -58,6 +62,10 @@ class Refine(RefineBase):
         else:
             assert False, ''
 
+    """ Values between the grid points """
+    def sample(self, x):
+        return np.reshape(self.op(x), (x.size, -1))
+
     """ Resample the function on a new domain """
     def __resample(self, target):
         n, giveUp = self.get_n(target)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 4ef78d0..a206103 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -393,6 +393,9 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             # check happiness
             ishappy, cutoff = self.happy()
 
+            if ishappy and not self.sample_test(refine):
+                self.ishappy = ishappy = False
+
             if ishappy:
                 self.prolong(cutoff)
                 break
@@ -403,6 +406,17 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         # Always force the dtype of the array to be complex!
         self.values = self.values.astype(complex)
 
+    def sample_test(self, refine):
+        """ Compare with the function between the grid points; on the grid it cannot be told from its aliases """
+        x = np.array([-0.357998918959666, 0.036785641195074])
+        sample = refine.sample(x)
+        if sample is None:
+            return True
+
+        scale = np.max(np.abs(self.values), axis=0)
+        tol = 1e-5 * scale + 1e-12 * np.max(scale)
+        return bool(np.all(np.abs(sample - self.feval(x).reshape(sample.shape)) <= tol))
+
     def simplify(self, eps=None, tol=None):
         # if not happy simply do nothing
         if not self.ishappy:
-- 
2.43.0


From 80ea7039084e1e7450d49ad27ca4f484649af15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:38 +0000
Subject: [PATCH 078/102] fix: periodic functions of small size keep their real
 and imaginary parts

---
 funpy/trig/trigtech.py | 4 ++--
 funpy/trig/ufuncs.py   | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index a206103..47b44c5 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -31,7 +31,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
 
         self.eps = kwargs.pop('eps', 1e-10)
         self.hscale = kwargs.pop('hscale', self.eps)
-        self.vscale = kwargs.pop('vscale', self.eps)
+        self.vscale = kwargs.pop('vscale', 0)
 
         # Am I happy?
         self.ishappy = kwargs.pop('ishappy', False)
@@ -534,7 +534,7 @@ def real(trig):
         return +trig
 
     fvalues = np.real(trig.values)
-    if np.all(np.abs(fvalues) < trig.eps):
+    if np.all(np.abs(fvalues) <= trig.eps * trig.get_vscale()):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index db94137..a954446 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -86,8 +86,7 @@ def add(x1, x2, **kwargs):
         c[const_index, :] += np.ravel(other)
 
         # update is real
-        # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) <= 1e-14 * np.max(np.abs(v)))
 
         # Don't I need to do this?
         ishappy = x1.ishappy
-- 
2.43.0


From ac7696f4fad294faa4bf1b12121ccdeee1a41fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:05 +0000
Subject: [PATCH 079/102] fix: the derivative of order zero of a Chebyshev
 function was its first derivative

---
 funpy/cheb/chebtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 4e54965..b21ab1f 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -509,8 +509,7 @@ def diff(cheb, n=1, axis=0):
                        ishappy=cheb.ishappy, maxLength=cheb.maxLength)
 
     # Iteratively compute the coefficients of the derivatives
-    c = computeDerCoeffs(c)
-    for _ in range(1, n):
+    for _ in range(n):
         c = computeDerCoeffs(c)
 
     # This returns a chebtech that has only N - k Chebyshev coefficients
-- 
2.43.0


From 252e84f8fefdba6f624f2bc6c282d59565396cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:05 +0000
Subject: [PATCH 080/102] fix: a periodic function shifted by zero is a copy

---
 funpy/trig/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 3e029cd..7b33a93 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -21,7 +21,7 @@ def circshift(f, a):
 
     # The trivial case
     if a == 0:
-        return f
+        return deepcopy(f)
 
     # These interpolations are defined on the interval [0, 2*pi), but we want them on
     # (-pi, pi). To fix the coefficients for this we just need to assign
-- 
2.43.0


From 1b18c5c2635660f2a221cca26daaaed48d3dd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 081/102] fix: solve leaves the state given as starting guess
 alone

---
 funpy/colloc/chebOp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 77f14c5..acc4e64 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -333,7 +333,7 @@ class ChebOp:
 
         # Create initial state
         if f is None: f = zeros(len(self.eqn), domain=self.domain)
-        i_state = f if isinstance(f, BaseState) else DeflationState(u=f, **self.parameter_names)
+        i_state = deepcopy(f) if isinstance(f, BaseState) else DeflationState(u=f, **self.parameter_names)
         if self.linSys is not None: self.linSys.setParameters(i_state)
 
         # Call the solver -> start the timer
-- 
2.43.0


From 6c735e107f86c344b9d54cd5c6d1817a11a5d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:33 +0000
Subject: [PATCH 082/102] fix: the deep copy of an operator keeps its non-local
 operators, size and tolerance

---
 funpy/colloc/chebOp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index acc4e64..9e0cb93 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -228,17 +228,19 @@ class ChebOp:
                 debug=self.debug,
                 functions=deepcopy(self.function_names),
                 constant_functions=deepcopy(self.constant_function_names),
-                operator=deepcopy(self.operator_names),
+                operators=deepcopy(self.operator_names),
                 kernels=deepcopy(self.kernels),
                 parameters=deepcopy(self.parameter_names),
                 colloc=self.colloc,
-                domain=self.domain,
-                n_disc=self.n_disc,
+                domain=deepcopy(self.domain),
+                n=self.n_disc,
+                n_min=self.n_min,
                 eqn=deepcopy(self.eqn),
                 constraints=deepcopy(self.cts),
                 bc=deepcopy(self.bcs),
                 ftype=self.ftype,
-                cpar=self.cpar,
+                cpar=deepcopy(self.cpar),
+                eps=self.eps,
                 tol=self.lin_tol,
                 diff_order=self.diffOrder,
                 linear=self.linear
-- 
2.43.0


From 02b590368c6cb3e069eb2fe470f1b3ed06f96de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 083/102] fix: operators read back from HDF5 can be used, also
 without a continuation parameter

---
 funpy/colloc/chebOp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 9e0cb93..7dae5de 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -479,7 +479,7 @@ class ChebOp:
         dgrp['n_disc'] = self.n_disc
         dgrp['n_min'] = self.n_min
         dgrp['ftype'] = self.ftype
-        dgrp['cpar'] = self.cpar[0]
+        if self.cpar: dgrp['cpar'] = self.cpar[0]
         dgrp['domain_beg'] = self.domain[0]
         dgrp['domain_end'] = self.domain[1]
         dgrp['eps'] = self.eps
@@ -502,7 +502,8 @@ class ChebOp:
         for pname, pvalue in fh['parameters'].attrs.items():
             self.parameter_names[pname] = pvalue
 
-        self.colloc = fh['colloc'][()]
+        self.colloc = fh['colloc'][()].decode('utf-8')
+        self.colloc_type = dict(ultraS=ultraS, trigspec=trigspec).get(self.colloc, self.colloc)
 
         for eq in fh['eqn']:
             self.eqn.append(eq.decode('utf-8'))
@@ -526,9 +527,8 @@ class ChebOp:
         self.diffOrder = dgrp['diffOrder'][()]
         self.linear = dgrp['linear'][()]
         try:
-            self.cpar = [dgrp['cpar'][()]]
-            self.colloc = [dgrp['colloc'][()]]
-            self.ftype = dgrp['ftype'][()]
+            self.ftype = dgrp['ftype'][()].decode('utf-8')
+            self.cpar = [dgrp['cpar'][()].decode('utf-8')]
         except:
             pass
 
-- 
2.43.0


From 77cd521ec7b3e31b8b05b65573f4d910fe66c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 084/102] fix: the names of non-local operators read back from
 HDF5

---
 funpy/colloc/chebOp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 7dae5de..30ec94a 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -494,7 +494,7 @@ class ChebOp:
             self.function_names.append(fname.decode('utf-8'))
 
         for oname in fh['operator_names']:
-            self.operator_names.append(fname.decode('utf-8'))
+            self.operator_names.append(oname.decode('utf-8'))
 
         for kernel in fh['kernels']:
             self.kernels.append(kernel.decode('utf-8'))
-- 
2.43.0


From 2013451ff00ec5945d605267c4741cbac77607ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:51 +0000
Subject: [PATCH 085/102] fix: compose functions on any domain

---
 funpy/fun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index ba8dc58..b3b37c1 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -360,8 +360,7 @@ def compose(f, op, g=None, ftype=None):
     if ftype is None:
         ftype = f.type
 
-    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop,
-               compose=False)
+    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop)
 
 
 def qr(f, *args, **kwargs):
-- 
2.43.0


From 6448fcb247e584a6e85119e5913d18eea3bcc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:05 +0000
Subject: [PATCH 086/102] fix: sums, negatives and multiples of linear
 operators

---
 funpy/colloc/quasiOp.py      |  8 +++-----
 funpy/colloc/quasiOpBlock.py | 27 +++++++++------------------
 2 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/funpy/colloc/quasiOp.py b/funpy/colloc/quasiOp.py
index 622e54b..0e1dc25 100644
--- a/funpy/colloc/quasiOp.py
+++ b/funpy/colloc/quasiOp.py
@@ -47,14 +47,12 @@ class QuasiOp:
         return self.__add__(-other)
 
     def __mul__(self, other):
-        if not self.shape == other.shape:
-            raise ValueError("Shape mismatch! %s != %s." % (self.shape, other.shape))
-
+        """ Scalar multiplication in the vector space of operators! """
         new_blocks = np.empty(self.shape, dtype=object)
         for i, j in np.ndindex(self.shape):
-            new_blocks[i, j] = self.blocks[i, j] + other.blocks[i, j]
+            new_blocks[i, j] = self.blocks[i, j] * other
 
         return QuasiOp(blocks=new_blocks)
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index eeebd75..31cecc3 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -79,13 +79,12 @@ class QuasiOpBlock:
         new_integrand = None
 
         if self.has_nonlocal:
+            # c(x) ∫ d(x) u(x) dx changes sign with c
             new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
             for i in range(self.icoeffs.size):
-                new_icoeffs = -self.icoeffs[i]
+                new_icoeffs[i] = -self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand = -self.integrand[i]
+            new_integrand = self.integrand
 
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
@@ -121,13 +120,9 @@ class QuasiOpBlock:
         # see whether we need to add or just take the one that has one!
         # TODO: Should we just by default set the coefficient to zero?
         if self.has_nonlocal and other.has_nonlocal:
-            new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
-            for i in range(self.icoeffs.size):
-                new_icoeffs[i] = other.icoeffs[i] + self.icoeffs[i]
-
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other.integrand[i] + self.integrand[i]
+            # the sum has the non-local terms of both
+            new_icoeffs = np.concatenate((self.icoeffs, other.icoeffs))
+            new_integrand = np.concatenate((self.integrand, other.integrand))
 
         elif self.has_nonlocal and not other.has_nonlocal:
             new_icoeffs = self.icoeffs
@@ -175,15 +170,11 @@ class QuasiOpBlock:
             for i in range(self.icoeffs.size):
                 new_icoeffs[i] = other * self.icoeffs[i]
 
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other * self.integrand[i]
+            new_integrand = self.integrand
 
-        new_info = self.info() | other.info()
-        new_nl_info = self.nl_info() | other.nl_info()
         return QuasiOpBlock(self.block, coeffs=new_coeffs, icoeffs=new_icoeffs,
                             integrand=new_integrand, nl_coeffs=nl_new_coeffs,
-                            info=new_info, nl_info=new_nl_info)
+                            info=self.info(), nl_info=self.nl_info())
 
     def __rmul__(self, other):
-        return other * self
+        return self * other
-- 
2.43.0


From d343208d8047d41a92d4b16329dcd33c09307f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:06 +0000
Subject: [PATCH 087/102] fix: the integral of a real periodic function is real

---
 funpy/trig/trigtech.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 47b44c5..a747e3a 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -618,6 +618,7 @@ def sum(f, axis=0, **kwargs):
     n = f.n
     out = 2 * f.coeffs[None, floor((n+2)/2)-1, :]
     out[:, f.isReal] = np.real(out[:, f.isReal])
+    if np.all(f.isReal): out = np.real(out)
     return out.squeeze()
 
 
-- 
2.43.0


From 2b9e2615f6a5bbd27dc27a94e608e55f00afe520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:06 +0000
Subject: [PATCH 088/102] fix: integrals of products in periodic operators

---
 funpy/colloc/trigspec/trigspec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/trigspec/trigspec.py b/funpy/colloc/trigspec/trigspec.py
index 2a0534b..5c32c7b 100644
--- a/funpy/colloc/trigspec/trigspec.py
+++ b/funpy/colloc/trigspec/trigspec.py
@@ -106,7 +106,8 @@ class trigspec(coeffsDiscretization):
 
         # check if we have an integral term defined!
         if info[-1]:
-            L += self.mult(source.getICoeffs()) * self.int()
+            for icoeff, integrand in zip(source.getICoeffs(), source.getIntegrand()):
+                L += self.mult(icoeff) * self.int() * self.mult(integrand)
 
         # Deal with aggregation terms
         coeff = source.getNlCoeffs()
-- 
2.43.0


From 61aa9f76297063a98a9c548ff66dbf3b55c7eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:12 +0000
Subject: [PATCH 089/102] fix: parameter derivatives include the constraints

---
 funpy/colloc/source/compiler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 4384fcd..e3d19b5 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -462,12 +462,11 @@ class Source:
             # Look up parameter symbol and differentiation + simplify
             p = self.ns[cpar]
 
-            # TODO improve in the future!
-            if p in src.free_symbols:
-                p_src = simplify(syp.diff(src, p), ratio=1)
-            else:
-                ssrc = self.syp_src['cts']
-                p_src = simplify(syp.diff(ssrc, p), ratio=1)
+            # The constraints are added to the equations
+            full = src.copy()
+            for i in range(self.syp_src['cts'].shape[0]):
+                full[i, 0] += self.syp_src['cts'][i, 0]
+            p_src = simplify(syp.diff(full, p), ratio=1)
 
             # Create output function for derivatives!
             func = NonlinearVectorFunctionSource(p_src, self.ftype, self.domain,
-- 
2.43.0


From d5a6ffe95357a6785b881495352a8a78efc83b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:25 +0000
Subject: [PATCH 090/102] fix: the derivative of the deflation factor acts on
 coefficients, with the H1 product

---
 funpy/functional.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 2594420..5b2415f 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 import numpy as np
+from numpy.polynomial.chebyshev import chebder
 
 from .cheb import polyval
 from .cheb import quadwts
@@ -14,7 +15,13 @@ class Functional:
         Turns a function into a functional.
     """
     def __init__(self, function, *args, **kwargs):
+        """ The functional v -> <function, v>, acting on coefficients.
+
+            order: derivatives up to this order enter the inner product,
+                   i.e. order = 1 is the H1 inner product.
+        """
         weighted = kwargs.pop('weighted', False)
+        order = kwargs.pop('order', 0)
         rescaleFactor = 0.5 * np.diff(function.domain)
 
         n = kwargs.pop('n', None)
@@ -28,12 +35,30 @@ class Functional:
             self.coeffs[1:] *= 0.5 * np.pi
 
         else:
-            functional = np.empty(function.m, dtype=object)
-            w = quadwts(function.n)
-            for j, col in enumerate(function):
-                functional[j] = np.rot90(polyval(np.rot90(w * col.values.T)), -1)
+            self.coeffs = self.__inner(function) * rescaleFactor
+
+            # the terms of the inner product which contain derivatives
+            if order > 0:
+                n, m = function.shape
+                D = chebder(np.eye(n), scl=1. / rescaleFactor.item())
+                D = np.vstack((D, np.zeros((n - D.shape[0], n))))
+                df, Dk = function, np.eye(n)
+                for _ in range(order):
+                    df, Dk = np.diff(df).prolong(n), D @ Dk
+                    self.coeffs += self.__inner(df) @ np.kron(np.eye(m), Dk) * rescaleFactor
+
+    @staticmethod
+    def __inner(function):
+        functional = np.empty(function.m, dtype=object)
+        w = quadwts(function.n)
+        for j, col in enumerate(function):
+            functional[j] = np.rot90(polyval(np.rot90(w * col.values.T)), -1)
+
+        return np.hstack(functional)
 
-            self.coeffs = np.hstack(functional) * rescaleFactor
+    def __call__(self, x):
+        """ Apply the functional to the vector of coefficients x """
+        return np.dot(self.coeffs.ravel(), np.ravel(x))
 
     def __array__(self):
         return self.coeffs
-- 
2.43.0


From 4472073700718c2a3cf87c0e578393f49c147c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:25 +0000
Subject: [PATCH 091/102] fix: preconditioner of the deflated system inverts
 the rank one update

---
 funpy/newton/FrechetDeflatedPrecond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/FrechetDeflatedPrecond.py b/funpy/newton/FrechetDeflatedPrecond.py
index f396baf..0314a0e 100644
--- a/funpy/newton/FrechetDeflatedPrecond.py
+++ b/funpy/newton/FrechetDeflatedPrecond.py
@@ -26,7 +26,8 @@ class FrechetDeflatedPrecond(LinearOperator):
 
     def __compute_denom(self):
         # compute the values for the inner-product
-        return self.eta**2 + self.functional(self.b)
+        self.Pb = self.Pf.solve(self.b)
+        return self.eta + self.functional(self.Pb)
 
     def _matvec(self, x):
         """
@@ -40,7 +41,7 @@ class FrechetDeflatedPrecond(LinearOperator):
             return self.Pf.solve(x)
 
         term1 = self.Pf.solve(x)
-        term2 = self.b * (self.functional(term1) / self.denom)
+        term2 = self.Pb * (self.functional(term1) / self.denom)
         return (term1 - term2) / self.eta
 
     def _rmatvec(self, x):
-- 
2.43.0


From d3116ee330308470c6be4e3c13468e6f267d1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:15 +0000
Subject: [PATCH 092/102] fix: second derivatives are compiled also when there
 are no constraints

---
 funpy/colloc/source/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index e3d19b5..3ba3e16 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -243,6 +243,9 @@ class Source:
 
         """
         for type in ['eqn', 'cts']:
+            # There may not be any constraints
+            if not getattr(self, type + '_src'): continue
+
             # Get the action of the linearization
             daction = self.syp_src['d' + type].action
 
-- 
2.43.0


From b70f0e6a564407c94123f17f724342b364a8c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:02 +0000
Subject: [PATCH 093/102] fix: a copy of a state has its own weights

---
 funpy/vectorspaces/base_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 7e07ef7..01ba534 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -249,7 +249,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             _copy = type(self)(
                 funcs=deepcopy(self.funcs, memo),
                 reals=deepcopy(self.reals, memo),
-                weights=self.weights,
+                weights=deepcopy(self.weights, memo),
                 ns=deepcopy(self.ns, memo))
             memo[id_self] = _copy
         return _copy
-- 
2.43.0


From aa702d47c132ae430b3bf0f627a609e22fc32270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 094/102] fix: a failed linear solve is reported by the
 standard Newton iteration

---
 funpy/newton/newton_standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index 736b67e..add61ba 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from math import sqrt
+import warnings
 import numpy as np
 
 
-- 
2.43.0


From 80ff2263e1cf5ab82af828b83fb85da37ecfa9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 095/102] fix: the last Newton step does not change the
 starting guess

---
 funpy/newton/giant.py    | 2 +-
 funpy/newton/nleq_err.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index 47370e7..9791cbf 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -145,7 +145,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
         if normdx <= xtol:
             newton_success = True
             precision = normdx
-            x += dx
+            x = x + dx
             k += 1
             break
 
diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index 43ecc63..ee80259 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -102,7 +102,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
 
         # Solution found if condition here true
         if normdx <= tol:
-            x += dx
+            x = x + dx
             k += 1
             newton_success = True
             break
-- 
2.43.0


From de6a74e15c8ca1672162a92a2b52794c0bbcaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 096/102] fix: the first quasi-Newton step is scaled by the
 square of its norm

---
 funpy/newton/qnerr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 4c6ed98..2ab61b4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -69,10 +69,10 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
                                    RuntimeWarning)
             newton_success = False
             if not nleqcalled: newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
-        sigma[0] = normdx
+        sigma[0] = normdx**2
         dx[0] = dxk
 
         # default value
@@ -82,7 +82,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         if not success_callback:
             if verb: warnings.warn(f'QNERR: Failed callback indicates STOP after {k} iterations!')
             newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
     else:
         assert dx0 is not None, ''
         nsystem = NewtonSystem
-- 
2.43.0


From f1323daa7ce82e07922378c6db6bc0d8e665003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:10 +0000
Subject: [PATCH 097/102] fix: the inverse of a mapping is its inverse

---
 funpy/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/mapping.py b/funpy/mapping.py
index 993bcee..000f1cf 100644
--- a/funpy/mapping.py
+++ b/funpy/mapping.py
@@ -41,5 +41,5 @@ class Mapping(object):
         return np.all(self.ends == other.ends)
 
     def inv(self):
-        return Mapping(self.ends, fwd=self.inv,
-                       der=lambda x: 1./self.der(x), inv=self.fwd)
+        return Mapping(self.ends, fwd=self.bwd,
+                       der=lambda x: 1./self.der(self.bwd(x)), bwd=self.fwd)
-- 
2.43.0


From 7b8ca4ac2c2335e5d6b77274d7ce60368b2b8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:00 +0000
Subject: [PATCH 098/102] fix: two-parameter states drop every active parameter
 from their name space

---
 funpy/vectorspaces/base_state.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 01ba534..1483de0 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -62,13 +62,9 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                 self.ns[par] = Parameter(**{par: par_value})
 
     def sync_ns(self):
-        # Remove reals[0] name from ns
-        try:
-            # Delete the names of the parameters from the namespace!
-            for r in self.reals:
-                del self.ns[r.name]
-        except KeyError:
-            pass
+        # Delete the names of the parameters from the namespace!
+        for r in self.reals:
+            self.ns.pop(r.name, None)
 
     @property
     def number_real(self):
-- 
2.43.0


From 70912cc0160b5b78c22fc8669618a54928fa182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:03 +0000
Subject: [PATCH 099/102] fix: NewtonSeeker takes all values returned by the
 damped Newton iteration

---
 funpy/newton/newton_seeker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index 78c3fd0..f68bb17 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -54,7 +54,7 @@ class NewtonSeeker(NewtonBase):
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
-            un, success, iteration, self.neval, sys = nleq_err(
+            un, success, iteration, self.normdx, self.neval, sys = nleq_err(
                 LinOp, istate, miter=miter, inner=np.dot,
                 *args, **kwargs)
 
-- 
2.43.0


From d5b6b84041f5243a01f803709173de3a27c1d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:19 +0000
Subject: [PATCH 100/102] fix: state norms of odd order take the size of
 negative parameters

---
 funpy/vectorspaces/base_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 1483de0..34597e5 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -135,7 +135,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             norm += self.weights[i] * norm_function(function, p=p, **kwargs)
 
         for i, real in enumerate(self.reals, start=len(self.funcs)):
-            norm += self.weights[i] * float(real**p)
+            norm += self.weights[i] * abs(float(real))**p
 
         return np.power(norm, 1. / p)
 
-- 
2.43.0


From 8b7c86c23e9b18834bedf00cb544688596700a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:47 +0000
Subject: [PATCH 101/102] fix: a copy of a periodic function equals the
 original

---
 funpy/trig/trigtech.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index a747e3a..de80109 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -495,9 +495,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         return c
 
     def __eq__(self, other):
-        return np.all(self.shape == other.shape) and \
-                np.all(self.coeffs == other.coeffs) and \
-                np.all(self.values == other.values)
+        # the values follow from the coefficients, up to rounding
+        return np.all(self.shape == other.shape) and np.all(self.coeffs == other.coeffs)
 
 
 def implements(np_function):
-- 
2.43.0


From 78cf496deb0a7a757d00407e59b7f3d0c8ff7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:30 +0000
Subject: [PATCH 102/102] fix: coefficients of random decaying functions decay

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index b3b37c1..92b814b 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -307,7 +307,7 @@ def random(n, m, domain=[-1, 1], scale=1.0, *args, **kwargs):
 def random_decay(n, m, domain=[-1, 1], scale=1.0, *args, **kwargs):
     """ Creates n functions equally zero. """
     nn = (1 + np.arange(n))**2
-    coeffs = scale * (1.0 - 2.0 * np.asfortranarray(np.random.rand(n, m) / nn[:, None]))
+    coeffs = scale * np.asfortranarray((1.0 - 2.0 * np.random.rand(n, m)) / nn[:, None])
     return Fun(coeffs=coeffs, domain=domain, simplify=False, *args, **kwargs)
 
 
-- 
2.43.0

