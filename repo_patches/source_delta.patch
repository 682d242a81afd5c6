From c5b2f81f6bc12657208e8b499d54b0e1ce12c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 01/22] fix: evaluate reduced kernels without explicit x_plus

ReducedKernel.__call__ computed 1 + None when x_plus was omitted.
---
 src/sparse_ir/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 9624dad..445938d 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -386,7 +386,7 @@ class ReducedKernel(AbstractKernel):
         # The reduced kernel is defined only over the interval [0, 1], which
         # means we must add one to get the x_plus for the inner kernels.  We
         # can compute this as 1 + x, since we are away from -1.
-        x_plus = 1 + x_plus
+        x_plus = 1 + (x if x_plus is None else x_plus)
 
         K_plus = self.inner(x, y, x_plus, x_minus)
         K_minus = self.inner(x, -y, x_plus, x_minus)
-- 
2.43.0


From d487fc0562711ea670eb12a67b288628d7b39d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 02/22] fix: accept scalar and integer arguments in bosonic and
 odd kernels

Zero-dimensional arguments produced numpy scalars, which np.divide rejects as
output, and integer arrays could not hold the quotient.
---
 src/sparse_ir/kernel.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 445938d..0c5cb0b 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -276,16 +276,16 @@ class RegularizedBoseKernel(AbstractKernel):
         #
         # where we again need to use the upper equation for v >= 0 and the
         # lower one for v < 0 to avoid overflow.
-        abs_v = np.abs(v)
+        abs_v = np.asarray(np.abs(v))
         enum = np.exp(-abs_v * np.where(v >= 0, u_plus, u_minus))
-        dtype = v.dtype
+        dtype = enum.dtype
 
         # The expression ``v / (exp(v) - 1)`` is tricky to evaluate: firstly,
         # it has a singularity at v=0, which can be cured by treating that case
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
         not_tiny = abs_v >= 1e-200
-        denom = -np.ones_like(abs_v)
+        denom = np.full(abs_v.shape, dtype.type(-1), dtype)
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
         return -1/dtype.type(self.lambda_) * enum * denom
@@ -446,7 +446,8 @@ class _LogisticKernelOdd(ReducedKernel):
         K(x, y) == -sinh(Λ/2 * x * y) / cosh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        x, y = np.asarray(x), np.asarray(y)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
@@ -469,7 +470,8 @@ class _RegularizedBoseKernelOdd(ReducedKernel):
             K(x, y) = -y * sinh(Λ/2 * x * y) / sinh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        x, y = np.asarray(x), np.asarray(y)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
-- 
2.43.0


From 5fdf0893038ec139956332d3bbc49241ce75dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 03/22] fix: keep stored bound methods attached to their own
 object

The descriptor is shared by all instances of a class, so storing the instance
on it made an earlier bound method evaluate the object accessed last.
---
 src/sparse_ir/_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index e2ae6d9..01a72ba 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -22,8 +22,9 @@ class RavelArgumentDecorator(object):
         functools.update_wrapper(self, inner)
 
     def __get__(self, instance, _owner=None):
-        self.instance = instance
-        return self
+        bound = self.__class__(self.inner, self.last_dim)
+        bound.instance = instance
+        return bound
 
     def __call__(self, x):
         x = np.asarray(x)
-- 
2.43.0


From 3bdcb9b6d499dbfc3718e762f147bd88790e7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 04/22] fix: keep the order of given Matsubara sampling points

evaluate() and fit() document that the n-th item belongs to points[n], but the
constructor silently sorted the points.
---
 src/sparse_ir/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 52b274d..39f5a30 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -174,8 +174,7 @@ class MatsubaraSampling(AbstractSampling):
             sampling_points = _util.check_reduced_matsubara(sampling_points)
             if sampling_points.ndim != 1:
                 raise ValueError("sampling points must be vector")
-            sampling_points = np.sort(sampling_points)
-            if positive_only and not sampling_points[0] >= 0:
+            if positive_only and not (sampling_points >= 0).all():
                 raise ValueError("invalid negative sampling frequencies")
 
         matrix = basis.uhat(sampling_points).T
-- 
2.43.0


From 1abf66d15ae2b5f68ea604d09e846a1a6605ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 05/22] fix: accept sequences in fits from non-negative
 frequencies

---
 src/sparse_ir/sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 39f5a30..20e9307 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -338,6 +338,7 @@ class SplitDecomposedMatrix:
         return _matop_along_axis(self._a.__matmul__, x, axis)
 
     def _lstsq(self, x):
+        x = np.asarray(x)
         r = self._urealT @ x.real
         r += self._uimagT @ x.imag
         r = r / (self._s[:, None] if r.ndim > 1 else self._s)
-- 
2.43.0


From b39bb900dd572f270cf6446fdc80ee2b546b7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 06/22] fix: construct Gauss rules whose nodes are exact at
 once

With a vanishing Newton correction (e.g. n = 1) the iteration never counted as
converged, and the resulting warning failed on its format string.
---
 src/sparse_ir/_gauss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 44113d0..dc2e6b6 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -142,11 +142,11 @@ def rule_from_recurrence(alpha, beta, a, b):
         # check convergence without relying on ATOL
         currdiff = np.abs(diff).max()
         #print(currdiff)
-        if not (2 * currdiff <= prevdiff):
+        if not (2 * currdiff < prevdiff):
             break
         prevdiff = currdiff
     else:
-        warnings.warn("Newton iteration did not converge, error = {.2g}"
+        warnings.warn("Newton iteration did not converge, error = {:.2g}"
                       .format(currdiff))
 
     # Now we know that the weights are proportional to the following:
-- 
2.43.0


From 63682495cff32defe0384ace3bf7122eb9056020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 07/22] fix: truncate to sizes given as integral floats

Such a size passed validation, but could not be used as an index.
---
 src/sparse_ir/sve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 3e94cf1..cf66a0b 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -363,6 +363,8 @@ def _truncate(u, s, v, rtol=0, lmax=None):
     """
     if lmax is not None and (lmax < 0 or int(lmax) != lmax):
         raise ValueError("invalid value of maximum number of singular values")
+    if lmax is not None:
+        lmax = int(lmax)
     if not (0 <= rtol <= 1):
         raise ValueError("invalid relative tolerance")
 
-- 
2.43.0


From c603114375d68bbbef6eaa6b6508b8298aed0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 08/22] fix: reject invalid statistics strings

The substring test let the empty string and the concatenation of both symbols
through.
---
 src/sparse_ir/basis.py  | 2 +-
 src/sparse_ir/kernel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 0a4a223..304d536 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -313,7 +313,7 @@ def _fence_matsubara_sampling(wn, positive_only):
 
 
 def _get_kernel(statistics, lambda_, kernel):
-    if statistics not in 'BF':
+    if statistics not in ('B', 'F'):
         raise ValueError("statistics must either be 'B' (for bosonic basis) "
                          "or 'F' (for fermionic basis)")
     if kernel is None:
diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 0c5cb0b..fe4dea5 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -93,7 +93,7 @@ class AbstractKernel:
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """Return the weight function for given statistics"""
-        if statistics not in 'FB':
+        if statistics not in ('F', 'B'):
             raise ValueError("statistics must be 'F' for fermions or 'B' for bosons")
         return lambda x: np.ones_like(x)
 
@@ -200,7 +200,7 @@ class LogisticKernel(AbstractKernel):
          - Fermion: `w(x) == 1`
          - Boson: `w(y) == 1/tanh(Λ*y/2)`
         """
-        if statistics not in "FB":
+        if statistics not in ("F", "B"):
             raise ValueError("invalid value of statistics argument")
         if statistics == "F":
             return lambda y: np.ones_like(y)
-- 
2.43.0


From 86d45cb75b33372911cc492b3257b0a106525463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 09/22] fix: never select more functions than the basis has

Slicing resolved the stop against the full singular value expansion rather than
against the (truncated) basis, so it could return a larger basis.
---
 src/sparse_ir/basis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 304d536..f103520 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -91,9 +91,12 @@ class FiniteTempBasis(abstract.AbstractBasis):
         self._uhat = self._uhat_full[:s.size]
 
     def __getitem__(self, index):
+        size = len(range(self.size)[:_slice_to_size(index)])
+        if not size:
+            raise ValueError("cannot truncate to an empty basis")
         return FiniteTempBasis(
                     self._statistics, self._beta, self._wmax, None,
-                    max_size=_slice_to_size(index), kernel=self._kernel,
+                    max_size=size, kernel=self._kernel,
                     sve_result=self._sve_result)
 
     @property
-- 
2.43.0


From 34f82a518b7661873fc6e06c975deb295e3d1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 10/22] fix: let DLR default time points take the documented
 arguments

---
 src/sparse_ir/dlr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 91e4d65..0e7885f 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -118,8 +118,8 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
         """
         return self.matrix.matmul(g_dlr, axis)
 
-    def default_tau_sampling_points(self):
-        return self.basis.default_tau_sampling_points()
+    def default_tau_sampling_points(self, **kwargs):
+        return self.basis.default_tau_sampling_points(**kwargs)
 
     def default_matsubara_sampling_points(self, **kwargs):
         return self.basis.default_matsubara_sampling_points(**kwargs)
-- 
2.43.0


From 1ead3e09179493a8f5521b62d7d843bce103f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 11/22] fix: evaluate DLR functions for a pole at zero
 frequency

Bosonic DLR bases of odd size have a pole at exactly zero, for which the zero
Matsubara frequency evaluated to NaN, as did the time functions of that pole
alone.  Also reject invalid frequencies like the other bases do.
---
 src/sparse_ir/dlr.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 0e7885f..ef479e4 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -138,12 +138,17 @@ class MatsubaraPoles:
     @_util.ravel_argument(last_dim=True)
     def __call__(self, n):
         """Evaluate basis functions at given frequency n"""
+        zeta = {'F': 1, 'B': 0}[self._statistics]
+        n = _util.check_reduced_matsubara(n, zeta)
         iv = 1j*n * np.pi/self._beta
+        denom = iv[None, :] - self._poles[:, None]
         if self._statistics == 'F':
-            return 1 /(iv[None, :] - self._poles[:, None])
-        else:
-            return np.tanh(0.5 * self._beta * self._poles)[:, None]\
-                /(iv[None, :] - self._poles[:, None])
+            return 1 / denom
+
+        # Pole and frequency may both be zero, where we have a finite limit
+        weight = np.tanh(0.5 * self._beta * self._poles)[:, None]
+        result = np.full(denom.shape, -0.5 * self._beta, denom.dtype)
+        return np.divide(weight, denom, out=result, where=denom != 0)
 
 
 class TauPoles:
@@ -151,7 +156,7 @@ class TauPoles:
         self._beta = beta
         self._statistics = statistics
         self._poles = np.array(poles)
-        self._wmax = np.abs(poles).max()
+        self._wmax = np.abs(poles).max() or 1.0
 
     @_util.ravel_argument(last_dim=True)
     def __call__(self, tau):
-- 
2.43.0


From df7ba07f5ed2c3833d8340cf4e005a9827061b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 12/22] fix: report statistics and upper limit of augmented
 bases

The former was raised rather than returned, the latter was the lower limit.
---
 src/sparse_ir/augment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 71353cb..6cba790 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -69,7 +69,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def statistics(self):
-        raise self._basis.statistics
+        return self._basis.statistics
 
     def __getitem__(self, index):
         stop = basis._slice_to_size(index)
@@ -180,7 +180,7 @@ class AugmentedTauFunction(_AugmentedFunction):
 
     @property
     def xmax(self):
-        return self._fbasis.xmin
+        return self._fbasis.xmax
 
     def deriv(self, n=1):
         """Get polynomial for the n'th derivative"""
-- 
2.43.0


From e00bb87aa0fcae94708059bd89027143c0f5cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 13/22] fix: give augmented bases one significance per basis
 function

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 6cba790..7960732 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -88,7 +88,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def significance(self):
-        return self._basis.significance
+        return np.hstack((np.ones(self._naug), self._basis.significance))
 
     @property
     def accuracy(self):
-- 
2.43.0


From c6e16ffb3c5aabd61e6b901e22e04f6ebf5e8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 14/22] fix: compute derivatives of augmented functions

The augmentations were passed as separate arguments, and the constant derivative
was truncated to an integer for integer times.
---
 src/sparse_ir/augment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 7960732..cd544d8 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -186,7 +186,7 @@ class AugmentedTauFunction(_AugmentedFunction):
         """Get polynomial for the n'th derivative"""
         dbasis = self._fbasis.deriv(n)
         daug = [faug_l.deriv(n) for faug_l in self._faug]
-        return AugmentedTauFunction(dbasis, *daug)
+        return AugmentedTauFunction(dbasis, daug)
 
 
 class AugmentedMatsubaraFunction(_AugmentedFunction):
@@ -273,7 +273,7 @@ class TauLinear(AbstractAugmentation):
             return self
         elif n == 1:
             c = self._norm * 2/self._beta
-            return lambda tau: np.full_like(tau, c)
+            return lambda tau: np.full(np.shape(tau), c)
         else:
             return lambda tau: np.zeros_like(tau)
 
-- 
2.43.0


From 288d39f6eb862ddf15adee1ee6456c0c7e419d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 15/22] fix: transform constant and linear augmentation to
 frequency

np.complex is no longer part of numpy, and np.reciprocal rejects the numpy scalar
which a single frequency yields as output.
---
 src/sparse_ir/augment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index cd544d8..2709198 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -247,7 +247,7 @@ class TauConst(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        return np.sqrt(self._beta) * (n == 0).astype(np.complex)
+        return np.sqrt(self._beta) * (n == 0).astype(complex)
 
 
 class TauLinear(AbstractAugmentation):
@@ -279,7 +279,7 @@ class TauLinear(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        inv_w = np.pi/self._beta * n
+        inv_w = np.asarray(np.pi/self._beta * n)
         inv_w = np.reciprocal(inv_w, out=inv_w, where=n.astype(bool))
         return self._norm * 2/1j * inv_w
 
-- 
2.43.0


From 91e195a929dbb1a5cd44bf49513bf081b7002659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 16/22] fix: select from augmented functions like from other
 bases

Open-ended slices failed, negative indices picked augmentations, and slices lost
the methods specific to time and frequency functions.
---
 src/sparse_ir/augment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 2709198..ae692f2 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -72,7 +72,7 @@ class AugmentedBasis(abstract.AbstractBasis):
         return self._basis.statistics
 
     def __getitem__(self, index):
-        stop = basis._slice_to_size(index)
+        stop = len(range(self.size)[:basis._slice_to_size(index)])
         if stop <= self._naug:
             raise ValueError("Cannot truncate to only augmentation")
         return AugmentedBasis(self._basis[:stop - self._naug],
@@ -161,12 +161,12 @@ class _AugmentedFunction:
     def __getitem__(self, l):
         # TODO make this more general
         if isinstance(l, slice):
-            stop = basis._slice_to_size(l)
+            stop = len(range(self.size)[:basis._slice_to_size(l)])
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
-            return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
+            return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
-            l = int(l)
+            l = range(self.size)[int(l)]
             if l < self._naug:
                 return self._faug[l]
             else:
-- 
2.43.0


From ad7cca7320bac3e6bb715af82153e8d8e26a8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 17/22] fix: keep unconverged segments in overlap integrals

When the refinement was stopped, the contribution of all segments not yet
converged was dropped from the result rather than only being less accurate.
Also let segments over which the integrand vanishes converge.
---
 src/sparse_ir/poly.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index bc178e0..961e72c 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -481,11 +481,11 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
     res_value = 0
     res_error = 0
     res_magn = 0
-    for _ in range(max_refine_levels):
-        #print(f"Level {_}: {xstart.size} segments")
-        if xstart.size > max_refine_points:
+    for level in range(max_refine_levels):
+        #print(f"Level {level}: {xstart.size} segments")
+        too_broad = xstart.size > max_refine_points
+        if too_broad:
             warn("Refinement is too broad, aborting (increase rtol)")
-            break
 
         rule = base_rule.reseat(xstart[:, None], xstop[:, None])
 
@@ -503,9 +503,13 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         intmagn = np.abs(int10)
 
         magn = res_magn + intmagn.sum(1).max(1)
-        relerror = intdiff.max(2) / magn[:, None]
 
-        xconverged = (relerror <= rtol).all(0)
+        xconverged = (intdiff.max(2) <= rtol * magn[:, None]).all(0)
+        if not xconverged.all() and level == max_refine_levels - 1:
+            warn("Integration did not converge after refinement")
+            too_broad = True
+        if too_broad:
+            xconverged[:] = True
         res_value += int10[:, xconverged].sum(1)
         res_error += intdiff[:, xconverged].sum(1)
         res_magn += intmagn[:, xconverged].sum(1).max(1)
@@ -518,8 +522,6 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         xedge = np.linspace(xstart, xstop, radix + 1, axis=-1)
         xstart = xedge[:, :-1].ravel()
         xstop = xedge[:, 1:].ravel()
-    else:
-        warn("Integration did not converge after refinement")
 
     res_shape = poly.shape + f_shape
     return res_value.reshape(res_shape), res_error.reshape(res_shape)
-- 
2.43.0


From ccdb39ea9a5363ae9b6116e471720dfea8e9e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 18/22] fix: keep roots away from the midpoint of odd functions

---
 src/sparse_ir/poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 961e72c..ccaf96e 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -169,7 +169,8 @@ class PiecewiseLegendrePoly:
             # There must be a zero at exactly the midpoint, but we may either
             # slightly miss it or have a spurious zero
             if roots.size:
-                if roots[0] == xmid or self(xmid) * self.deriv()(xmid) < 0:
+                slipped = self(xmid) * self.deriv()(xmid) < 0
+                if roots[0] == xmid or (slipped and roots[0] < grid[1]):
                     roots = roots[1:]
             revroots = (self.xmax + self.xmin) - roots[::-1]
             roots = np.hstack((revroots, xmid, roots))
-- 
2.43.0


From 3827bccdded8ae3a0f4276dec694d4f15fa04c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 19/22] fix: fence sampling frequencies symmetrically

---
 src/sparse_ir/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index f103520..44c2166 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -307,7 +307,7 @@ def _fence_matsubara_sampling(wn, positive_only):
     # frequency with two carefully chosen oversampling points, which brings
     # the two sampling problems within a factor of 2.
     wn_outer = wn[-1:] if positive_only else wn[[0, -1]]
-    wn_diff = 2 * np.round(0.025 * wn_outer).astype(int)
+    wn_diff = 2 * np.round(0.025 * np.abs(wn_outer)).astype(int)
     if wn.size >= 20:
         wn = np.hstack([wn, wn_outer - np.sign(wn_outer) * wn_diff])
     if wn.size >= 42:
-- 
2.43.0


From ad18510162aa09cd6614a7c226d4240a4e35c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 20/22] fix: keep Gauss weights from underflowing for many
 nodes

The product of monic polynomials underflows for n > 500, for which the weights
and, from the next Newton step on, the nodes became NaN.
---
 src/sparse_ir/_gauss.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index dc2e6b6..3d24b22 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -130,13 +130,18 @@ def rule_from_recurrence(alpha, beta, a, b):
     x = sp_linalg.eigvalsh_tridiagonal(alpha, sqrt_beta)
     x = x.astype(dtype)
 
+    # Scale the polynomials such that they do not underflow for large n
+    scale = dtype.type(4) / (b - a)
+    scaled_alpha = scale * alpha
+    scaled_beta = scale * scale * beta
+
     # These roots are usually only accurate to 100 ulps or so, so we improve
     # on them using a few iterations of the Newton method.
     prevdiff = 1.0
     maxiter = 5
     for _ in range(maxiter):
-        p, dp, _, _ = _polyvalderiv(x, alpha, beta)
-        diff = p / dp
+        p, dp, _, _ = _polyvalderiv(scale * x, scaled_alpha, scaled_beta)
+        diff = p / (scale * dp)
         x -= diff
 
         # check convergence without relying on ATOL
@@ -150,7 +155,7 @@ def rule_from_recurrence(alpha, beta, a, b):
                       .format(currdiff))
 
     # Now we know that the weights are proportional to the following:
-    _, dp1, p0, _ = _polyvalderiv(x, alpha, beta)
+    _, dp1, p0, _ = _polyvalderiv(scale * x, scaled_alpha, scaled_beta)
     with np.errstate(over='ignore'):
         w = 1 / (dp1 * p0)
     w *= beta[0] / w.sum(initial=dtype.type(0))
-- 
2.43.0


From a83765afc8ea73847727467d7857c9d32e3d7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 21/22] fix: use the parity of the functions in the asymptotic
 model

---
 src/sparse_ir/poly.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index ccaf96e..652fcbf 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -429,13 +429,12 @@ def _derivs(ppoly, x):
         yield ppoly(x)
 
 
-def _power_moments(stat, deriv_x1):
+def _power_moments(stat, deriv_x1, symm):
     """Return moments"""
     statsign = {'odd': -1, 'even': 1}[stat]
-    mmax, lmax = deriv_x1.shape
+    mmax = deriv_x1.shape[0]
     m = np.arange(mmax)[:,None]
-    l = np.arange(lmax)[None,:]
-    coeff_lm = ((-1.0)**(m+1) + statsign * (-1.0)**l) * deriv_x1
+    coeff_lm = ((-1.0)**(m+1) + statsign * symm[None,:]) * deriv_x1
     return -statsign/np.sqrt(2.0) * coeff_lm
 
 
@@ -443,7 +442,11 @@ def _power_model(stat, poly):
     deriv_x1 = np.asarray(list(_derivs(poly, x=1)))
     if deriv_x1.ndim == 1:
         deriv_x1 = deriv_x1[:,None]
-    moments = _power_moments(stat, deriv_x1)
+
+    # Functions alternate between even and odd unless their parity is known
+    symm = np.ravel(poly.symm)
+    symm = np.where(symm == 0, (-1.0)**np.arange(symm.size), symm)
+    moments = _power_moments(stat, deriv_x1, symm)
     return _PowerModel(moments)
 
 
-- 
2.43.0


From 0201b7a11f88eaf54c65970351a4ca98604af28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 22/22] fix: cutting or rescaling a basis keeps its number of
 functions

The SVE's own accuracy limited the new basis even if the basis had been
constructed with a higher accuracy, so basis[:k] or basis.rescale(beta) could
have fewer functions than requested.
---
 src/sparse_ir/basis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 44c2166..9d00b23 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -94,8 +94,11 @@ class FiniteTempBasis(abstract.AbstractBasis):
         size = len(range(self.size)[:_slice_to_size(index)])
         if not size:
             raise ValueError("cannot truncate to an empty basis")
+        # The number of functions is given by `size` alone: the accuracy of the
+        # underlying SVE (eps=None) may be a stricter limit than the one used
+        # when constructing this basis.
         return FiniteTempBasis(
-                    self._statistics, self._beta, self._wmax, None,
+                    self._statistics, self._beta, self._wmax, eps=0,
                     max_size=size, kernel=self._kernel,
                     sve_result=self._sve_result)
 
@@ -207,7 +210,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         since ``lambda_ == beta * wmax`` stays constant.
         """
         new_wmax = self._kernel.lambda_ / new_beta
-        return FiniteTempBasis(self._statistics, new_beta, new_wmax, None,
+        return FiniteTempBasis(self._statistics, new_beta, new_wmax, eps=0,
                                max_size=self.size, kernel=self._kernel,
                                sve_result=self._sve_result)
 
-- 
2.43.0

