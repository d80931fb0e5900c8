From bdc285ca4669a34b63b085d67ccc69bf03436fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 01/21] fix: accept None for missing spectra, as documented

regularized_spectra() documents that missing spectra can be None, but
cov_from_spectra() raised AttributeError for them.
---
 glass/fields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..2341f81 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -1012,18 +1012,22 @@ def cov_from_spectra(
     n = nfields_from_nspectra(len(spectra))
 
     # first case: maximum length in input spectra
-    k = max((cl.shape[0] for cl in spectra), default=0) if lmax is None else lmax + 1
+    # missing spectra can be None
+    given = [cl for cl in spectra if cl is not None]
+    k = max((cl.shape[0] for cl in given), default=0) if lmax is None else lmax + 1
 
     # this is the covariance matrix of the spectra
     # the leading dimension is k, then it is a n-by-n covariance matrix
     # missing entries are zero, which is the default value
-    cov = xp.zeros((k, n, n), dtype=spectra[0].dtype)
+    cov = xp.zeros((k, n, n), dtype=given[0].dtype)
 
     # fill the matrix up by going through the spectra in order
     # skip over entries that are None
     # if the spectra are ragged, some entries at high ell may remain zero
     # only fill the lower triangular part, everything is symmetric
     for i, j, cl in enumerate_spectra(spectra):
+        if cl is None:
+            continue
         size = min(k, cl.shape[0])
         cl_flat = xp.reshape(cl, (-1,))
         cov = xpx.at(cov)[:size, i, j].set(cl_flat[:size])
-- 
2.43.0


From cbb30b8609b0bdee083e69874f17975edda4b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 02/21] fix: cov_clip() returned NaN for matrices without
 positive eigenvalues

The clipping threshold was negative if the largest eigenvalue was
negative, so that the square root of a negative number was taken.
---
 glass/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..016a8b5 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -141,7 +141,9 @@ def cov_clip(
         rtol = max(v.shape[-2], v.shape[-1]) * xp.finfo(w.dtype).eps
 
     # clip negative diagonal values
-    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)
+    # there is nothing to keep if the largest eigenvalue is itself negative
+    wmax = xp.clip(xp.max(w, axis=-1, keepdims=True), min=0.0)
+    w = xp.clip(w, rtol * wmax, None)
 
     # put matrix back together
     # enforce symmetry
-- 
2.43.0


From 37c6e7a76866e4f206831aecbfee95bec45a79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 03/21] fix: nearcorr() failed for stacks with more than one
 leading axis

The initial correction had the shape of the unflattened input.
---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 016a8b5..9179b02 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -197,7 +197,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From a175b80576c6fbf632fface008099d291d5232f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 04/21] fix: redshifts_from_bins() mixed up bins for
 multi-dimensional input

The bin indices were sorted along the last axis only, so that redshifts
were repeated, and assigned to the wrong bins.
---
 glass/galaxies.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..eeb7a95 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -171,6 +171,9 @@ def redshifts_from_bins(
         for x, k in zip(bin_label, bin_count, strict=True)
     ])
 
+    # inverse indices have the shape of the input, runs of redshifts are 1D
+    bin_index = xp.reshape(bin_index, (-1,))
+
     # argsort the runs of redshifts into their intended positions
     # argsort 1: sort bin_index into runs of the same bin
     bin_index = xp.argsort(bin_index)
-- 
2.43.0


From 75ebf5b70f27d8aeff00b37a8f76f6908ddd9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 05/21] fix: distribute() failed for empty input with
 array-api-strict

The built-in int is not a valid dtype for all array namespaces.
---
 glass/shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..c581828 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1100,7 +1100,7 @@ def distribute(
 
     # return empty array if nothing was sampled
     if not out:
-        return xp.empty(shape, dtype=int)
+        return xp.empty(shape, dtype=xp.int64)
 
     # return output in input shape
     return xp.reshape(xp.concat(out), shape)
-- 
2.43.0


From 2aed56dc456030c295c25bf510dbd9d988431e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 06/21] fix: resample_shapes() returned NaN for varg=0

The solution of the quadratic equation for the rescaling factor was
evaluated in a form that divides by varg. Use the equivalent form that
is regular for zero (and accurate for small) varg.
---
 glass/shapes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..308ba26 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,13 +411,13 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
-        r *= xp.sqrt(
-            (
-                xp.sqrt(((1 - 2 * varg) * vare) ** 2 + 4 * varg * eve4 * (vare - varg))
-                - (1 - 2 * varg) * vare
-            )
-            / (2 * varg * eve4),
-        )
+        # positive root of a quadratic, in the form without cancellation
+        b = (1 - 2 * varg) * vare
+        d = xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))
+        if varg < 0.5:
+            r *= xp.sqrt(2 * (vare - varg) / (d + b))
+        else:
+            r *= xp.sqrt((d - b) / (2 * varg * eve4))
 
     # assign random orientations to shapes
     return r * xp.exp(1j * xrng.uniform(0, 2 * xp.pi, size=r.shape))
-- 
2.43.0


From e08cfc30bd3fb7605d54212f21fb42451842f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 07/21] fix: trapezoid() without sample points failed for
 array-api-strict

The optional sample points were converted to an array even if None.
---
 glass/_array_api_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..2009eb4 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -143,7 +143,7 @@ class xp_additions:  # noqa: N801
         # If any other backend use default
         dxp = default_xp(xp.__name__)
         y_dxp = dxp.asarray(y, copy=True)
-        x_dxp = dxp.asarray(x, copy=True)
+        x_dxp = None if x is None else dxp.asarray(x, copy=True)
         result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)
         return xp.asarray(result_dxp, copy=True)
 
-- 
2.43.0


From c3a8bc8cc3416e718faa7dcfe70c5b96473b9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 08/21] fix: multi_plane_weights() contracted the wrong axis
 for 3D weights

matmul() treats the leading axis (the shells) of weights with more than
two dimensions as a stack axis.
---
 glass/lensing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..793c42b 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -681,7 +681,8 @@ def multi_plane_weights(
     weights = weights / xp.sum(weights, axis=0)
     # combine weights and the matrix of lensing contributions
     mat = multi_plane_matrix(shells, cosmo)
-    return xp.matmul(mat.T, weights)
+    # contract the shells only, there can be any number of trailing axes
+    return xp.tensordot(mat.T, weights, axes=1)
 
 
 def deflect(
-- 
2.43.0


From 31062402197e89a6ee292fdfac163dd7438de77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 09/21] fix: positions_from_delta() ignored rng for positions
 within pixels

The positions inside each pixel came from a fresh, unseeded generator, so
that a seeded rng did not make the sampled points reproducible.
---
 glass/healpix.py | 24 +++++++++++++++++++-----
 glass/points.py  |  7 ++++++-
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..4a57148 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -11,6 +11,7 @@ __lazy_modules__ = [
 
 import os
 import pathlib
+import types
 from typing import TYPE_CHECKING
 
 import healpix
@@ -25,7 +26,13 @@ if TYPE_CHECKING:
     from collections.abc import Sequence
     from types import ModuleType
 
-    from glass._types import ComplexArray, DTypeLike, FloatArray, IntArray
+    from glass._types import (
+        ComplexArray,
+        DTypeLike,
+        FloatArray,
+        IntArray,
+        UnifiedGenerator,
+    )
 
 
 def _get_healpy_datapath() -> str | None:
@@ -401,13 +408,14 @@ def randang(
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: UnifiedGenerator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
-    we run into a ``operand array with iterator write flag set is read-only``
-    error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
+    The variates from ``rng`` are copied into NumPy arrays, otherwise we run
+    into a ``operand array with iterator write flag set is read-only`` error
+    coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
 
     Parameters
     ----------
@@ -417,17 +425,23 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Returns
     -------
         A tuple ``theta, phi`` of mathematical coordinates.
 
     """
+    if rng is None:
+        rng = glass.rng.default_rng(xp=np)
     theta, phi = healpix.randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=types.SimpleNamespace(
+            random=lambda size, dtype: np.array(rng.random(size), dtype=dtype),
+        ),
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 593c023..2ef72da 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -353,6 +353,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +376,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator.
 
     Yields
     ------
@@ -428,6 +432,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=rng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +542,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From 6f44fc424052fe193cb8bb695842eed766d1f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 10/21] fix: grf.solve() did not terminate for inadmissible
 spectra

A step that is not a number can never reduce the error, so halving it
went on forever.
---
 glass/grf/_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 3f58d0f..9dc6951 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -136,7 +136,8 @@ def solve(  # noqa: PLR0912, PLR0913
             if monopole is not None:
                 fl_[0] = 0
             clerr_ = _relerr(fl_, cl)
-            if clerr_ <= clerr:
+            # a step that is not finite never improves, however often it is halved
+            if clerr_ <= clerr or not np.all(np.isfinite(xl)):
                 break
             xl /= 2
 
-- 
2.43.0


From 7f600c1b333ffa5b994c983eb2622f3518b0826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 11/21] fix: discretized_cls() cut spectra out of bounds for
 array-api-strict

---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 2341f81..c7fdd24 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -292,7 +292,7 @@ def discretized_cls(
     for cl in cls:
         if cl.shape[0] > 0:
             if lmax is not None:
-                cl = cl[: lmax + 1]  # noqa: PLW2901
+                cl = cl[: min(lmax + 1, cl.shape[0])]  # noqa: PLW2901
             if nside is not None:
                 n = min(cl.shape[0], pw.shape[0])  # ty: ignore[unresolved-attribute]
                 cl = cl[:n] * pw[:n] ** 2  # noqa: PLW2901
-- 
2.43.0


From ee42b452af3f7fed63140e690b84235c3d2d8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 12/21] fix: iternorm() sampled wrong covariance after a fully
 correlated field

The row of a field without conditional variance was not zero, so that
its (absent) variate was used for all later fields.
---
 glass/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index c7fdd24..164746d 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -155,8 +155,8 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
                 xp.ones(n, dtype=atm.dtype),
                 xp.zeros(n, dtype=atm.dtype),
             )
-            # assemble the new row
-            r = xp.concat([-atm, u[..., None, None]], axis=-1)
+            # assemble the new row, all zero where s = 0
+            r = xp.concat([-atm * u[..., None, None], u[..., None, None]], axis=-1)
             # set zero standard deviation to unity to prevent division by zero
             # this should be fine as corresponding entries in r are zero
             s = xp.where(s > 0, s, xp.ones(n, dtype=s.dtype))
-- 
2.43.0


From a3f2b886e298fb3497cfcc05a74e6c1daaa02399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 13/21] fix: nnls() stepped away from the solution when entries
 became negative

---
 glass/algorithm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 9179b02..ddb1f87 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,8 +100,11 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
-            x = xpx.at(x)[q].add(alpha * (sq - xq))
+            # step towards sq until the first entry becomes zero, remove that entry
+            step = xp.where(t, xq, 0.0) / xp.where(t & (xq > 0), xq - sq, 1.0)
+            alpha = xp.min(step[t])
+            xq = xp.where(t & (step <= alpha), 0.0, xq + alpha * (sq - xq))
+            x = xpx.at(x)[q].set(xq)
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
         x = xpx.at(x)[~q].set(0)
-- 
2.43.0


From df898b5d189d885aa6ee694a5644e4efcc831d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 14/21] fix: combine() failed for multi-dimensional weights
 with array-api-strict

---
 glass/shells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/shells.py b/glass/shells.py
index c581828..1e461b2 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -997,7 +997,7 @@ def combine(
     return xp.sum(
         xp.stack(
             [
-                xp.expand_dims(weight, axis=-1)
+                xp.expand_dims(weights[i, ...], axis=-1)
                 * uxpx.interp(
                     z,
                     shell.za,
@@ -1005,7 +1005,7 @@ def combine(
                     left=0.0,
                     right=0.0,
                 )
-                for shell, weight in zip(shells, weights, strict=False)
+                for i, shell in zip(range(weights.shape[0]), shells, strict=False)
             ],
         ),
         axis=0,
-- 
2.43.0


From 3d5e8ab07da001d8abbd1cd05ce4ff875ba381bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 15/21] fix: displace() and deflect() failed for real
 array-api-strict displacements

---
 glass/lensing.py | 2 +-
 glass/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index 793c42b..408d625 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -743,7 +743,7 @@ def deflect(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = alpha[0, ...], alpha[1, ...]
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
diff --git a/glass/points.py b/glass/points.py
index 2ef72da..33e2fd0 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -698,7 +698,7 @@ def displace(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = alpha[0, ...], alpha[1, ...]
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
-- 
2.43.0


From 1e1beb1f15b74bf4c65ae1895331f90e9531dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 16/21] fix: redshifts_from_bins() failed for empty arrays of
 bins

---
 glass/galaxies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index eeb7a95..bf95272 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -161,6 +161,10 @@ def redshifts_from_bins(
 
     xrng = glass.rng.Generator(rng=rng, xp=xp)
 
+    # nothing to sample
+    if bins.size == 0:
+        return xp.empty(bins.shape)
+
     # tally the bins
     bin_label, _, bin_index, bin_count = xp.unique_all(bins)
 
-- 
2.43.0


From a7d8bb358d2eec32728ae4b134e77a5e67eb02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 17/21] fix: trapezoid_product() failed for three functions
 without common range

---
 glass/arraytools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/arraytools.py b/glass/arraytools.py
index 5340640..7f7ff48 100644
--- a/glass/arraytools.py
+++ b/glass/arraytools.py
@@ -181,6 +181,9 @@ def trapezoid_product(
     x: FloatArray
     x, _ = f
     for x_, _ in ff:
+        # functions without a common range have no product to integrate
+        if x.size == 0:
+            break
         x = typing.cast(
             "FloatArray",
             xpx.union1d(
-- 
2.43.0


From ba8a18e9a4b22b5125539f7c9eba749aa542bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 18/21] fix: nnls() failed for matrices without full column
 rank

Columns were added on the strength of gradients that were only rounding
errors, which makes the normal equations singular for matrices that have
dependent columns or more columns than rows.
---
 glass/algorithm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index ddb1f87..98437fd 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -79,11 +79,17 @@ def nnls(
     index = xp.arange(n)
     q = xp.full(n, fill_value=False)
     x = xp.zeros(n)
+
+    # gradients that are only rounding errors do not indicate a descent
+    tiny = 10 * max(a.shape) * xp.finfo(x.dtype).eps
+    tiny = tiny * xp.linalg.vector_norm(a, axis=0) * xp.linalg.vector_norm(b)
+
     for _ in range(maxiter):
         if xp.all(q):
             break
         # The sum product over the last axis of arg1 and the second-to-last axis of arg2
         w = xp.sum((b - a @ x)[..., None] * a, axis=-2)
+        w = xp.where(w > tiny, w, -xp.inf)
 
         m = int(index[~q][xp.argmax(w[~q])])
         if w[m] <= tol:
-- 
2.43.0


From d905312b5cf0530e84264b3a86f27198e24955c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 19/21] fix: position_weights accepts an integer for the bias

---
 glass/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/points.py b/glass/points.py
index 33e2fd0..8a9216b 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -642,7 +642,7 @@ def position_weights(
     """
     xp = array_api_compat.array_namespace(densities, bias, use_compat=False)
 
-    bias = bias if bias is None or not isinstance(bias, float) else xp.asarray(bias)
+    bias = xp.asarray(float(bias)) if isinstance(bias, int | float) else bias
 
     # bring densities and bias into the same shape
     if bias is not None:
-- 
2.43.0


From 091cd95c6aad9e08a9f012cd85771facee98ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 20/21] fix: alm2map_spin() exited the interpreter if there are
 no modes of the spin

---
 glass/healpix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/healpix.py b/glass/healpix.py
index 4a57148..2ca0e27 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -111,6 +111,10 @@ def alm2map_spin(
         List of 2 out maps in RING scheme as arrays.
 
     """
+    # there are no modes below the spin, for which healpy would exit the interpreter
+    if lmax < spin:
+        return [np.zeros(nside2npix(nside)) for _ in range(2)]
+
     outputs = healpy.alm2map_spin(alms, nside, spin, lmax)
     return list(outputs)
 
-- 
2.43.0


From 2e490387553070d42d9d928f37e14406a8560c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 21/21] fix: interpolation with JAX depended on the options of
 earlier calls

jax.numpy.interp compiles a function with those of left, right and period
static that are None, and confuses the compiled functions of different such
combinations, so that e.g. interpolation with a period after one with left
returned the period as value of the left edge.  Use two combinations only.
---
 glass/_array_api_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index 2009eb4..99962ac 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -190,6 +190,15 @@ class xp_additions:  # noqa: N801
         """
         xp = array_api_compat.array_namespace(x, x_points, y_points, use_compat=False)
 
+        # jax compiles interp for the arguments that are None, and then confuses
+        # calls with different such arguments; use only two combinations of them
+        if xp.__name__ == "jax.numpy":
+            if period is not None:
+                left = right = None
+            else:
+                left = y_points[0] if left is None else left
+                right = y_points[-1] if right is None else right
+
         if xp.__name__ in {"numpy", "jax.numpy"}:
             return xp.interp(
                 x,
-- 
2.43.0

