From 966055b26663034952dde0be6acbb7f47dd24487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 01/23] fix: nnls step length had the wrong sign

The inner loop of the active set method moved away from the feasible
solution, so that results were not optimal or the loop never ended.
---
 glass/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..2bea716 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,7 +100,9 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
+            # largest step towards sq that remains feasible (zero if xq = sq = 0)
+            dq = xq[t] - sq[t]
+            alpha = xp.min(xq[t] / xp.where(dq > 0, dq, xp.ones_like(dq)))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
-- 
2.43.0


From 27eadce3270b6f1a6be470014a5a3eb29778b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 02/23] fix: nearcorr for stacks with more than one leading
 axis

---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 2bea716..5bf064e 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -197,7 +197,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From 47ef518f0456d2ad41ebc4eb7d30a4a9e923b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 03/23] fix: redshifts_from_bins for multi-dimensional bins

The inverse bin index was sorted row by row, so that redshifts were
assigned to the wrong bins.
---
 glass/galaxies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..21f2dcd 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -172,6 +172,8 @@ def redshifts_from_bins(
     ])
 
     # argsort the runs of redshifts into their intended positions
+    # redshifts are a flat array of runs here, regardless of the shape of bins
+    bin_index = xp.reshape(bin_index, (-1,))
     # argsort 1: sort bin_index into runs of the same bin
     bin_index = xp.argsort(bin_index)
     # argsort 2: invert the sort
-- 
2.43.0


From 1eda8a11a85477766369ead4e640c367f35e1414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 04/23] fix: iternorm for semi-definite covariance matrices

The row for a field with zero conditional standard deviation was not
zero, so that valid matrices were rejected or decomposed wrongly.
---
 glass/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..83f1763 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -162,6 +162,8 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
             s = xp.where(s > 0, s, xp.ones(n, dtype=s.dtype))
             # scale new row with standard deviation
             r /= s[..., None, None]
+            # fields without any residual variance do not contribute
+            r = xp.where(u[..., None, None] > 0, r, xp.zeros_like(r))
             # concatenate first row and rest of matrix
             m = xp.concat([m, r], axis=-2)
 
-- 
2.43.0


From 4de52bea07994e25235c43dbd98daf07a90b6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 05/23] fix: solve() did not return for steps that are not
 finite

The step was halved forever if it contained values that are not finite.
---
 glass/grf/_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 3f58d0f..5fda038 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -126,6 +126,10 @@ def solve(  # noqa: PLR0912, PLR0913
         if monopole is not None:
             xl[0] = 0
 
+        # without a finite step, there is no better solution to be found
+        if not np.all(np.isfinite(xl)):
+            break
+
         # we know the "direction" of the step xl at this point
         # make xl smaller (by half) until we get an improved solution
         while True:
-- 
2.43.0


From 9bf43454d1b8a416bfe286a75919a1e2323b930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 06/23] fix: solve() reports convergence in the last iteration

---
 glass/grf/_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 5fda038..a119ef5 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -149,4 +149,8 @@ def solve(  # noqa: PLR0912, PLR0913
 
         gl, gt, rl, fl, clerr = gl_, gt_, rl_, fl_, clerr_
 
+    # the last iteration may have converged
+    if clerr <= cltol:
+        info |= 1
+
     return gl, rl, info
-- 
2.43.0


From 53eb0cacc7d293c70cd721ebcb415a1c9258aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 07/23] fix: grids with given step size could exceed the limit
 by a step

rounding of start and step could add an entire extra step, for example
redshift_grid(0.0, 0.2, dz=0.1) went to 0.3.
---
 glass/shells.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..cd0510f 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -877,7 +877,9 @@ def _uniform_grid(
     xp = _utils.default_xp() if xp is None else xp
 
     if step is not None and num is None:
-        return xp.arange(start, stop + step, step)
+        # do not exceed stop by an entire step because of rounding errors
+        num = math.ceil(round(float((stop - start) / step), 9))
+        return start + step * xp.arange(num + 1, dtype=xp.float64)
     if step is None and num is not None:
         return xp.linspace(start, stop, num + 1, dtype=xp.float64)
     msg = "exactly one of grid step size or number of steps must be given"
-- 
2.43.0


From 9bcb5b0b5866342b834ab922b9d7516e40bb782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 08/23] fix: fixed_zbins with given bin size could return an
 extra bin

rounding could add an entire extra bin above zmax, for example
fixed_zbins(0.7, 0.8, dz=0.05) returned three bins.
---
 glass/observations.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/glass/observations.py b/glass/observations.py
index 5a3171a..39ae0b7 100644
--- a/glass/observations.py
+++ b/glass/observations.py
@@ -257,11 +257,9 @@ def fixed_zbins(
     if nbins is not None and dz is None:
         zbinedges = xp.linspace(zmin, zmax, nbins + 1)
     elif nbins is None and dz is not None:
-        zbinedges = xp.arange(
-            zmin,
-            xp.nextafter(xp.asarray(zmax + dz), xp.asarray(zmax)),
-            dz,
-        )
+        # do not exceed zmax by an entire bin because of rounding errors
+        nbins = math.ceil(round((zmax - zmin) / dz, 9))
+        zbinedges = zmin + dz * xp.arange(nbins + 1, dtype=xp.float64)
     else:
         msg = "exactly one of nbins and dz must be given"
         raise ValueError(msg)
-- 
2.43.0


From 4067f2cb1ad22f875c3c9e40cf023d801fd28108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 09/23] fix: iternorm refused semi-definite matrices because of
 rounding

For example, two identical fields could not be sampled, because their
conditional variance is negative by a rounding error.
---
 glass/fields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/fields.py b/glass/fields.py
index 83f1763..6e0cb29 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -179,6 +179,9 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
 
         # compute new standard deviation
         s = row[..., 0] - xp.vecdot(a, a)
+        # a variance that vanishes to within rounding errors is zero
+        tol = (k + 1) * xp.finfo(s.dtype).eps
+        s = xp.where(xp.abs(s) <= tol * xp.abs(row[..., 0]), xp.zeros_like(s), s)
         if xp.any(s < 0):
             raise ValueError("covariance matrix is not positive definite")
         s = xp.sqrt(s)
-- 
2.43.0


From 8810205bf37bc3786efd359a2d6d3989e79271bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 10/23] fix: redshifts_from_bins for catalogues without
 galaxies

---
 glass/galaxies.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 21f2dcd..567e13a 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -166,9 +166,13 @@ def redshifts_from_bins(
 
     # sample the redshifts from each nz
     # concatenate into runs of redshifts for each bin
+    # start from an empty run, since there may be no bins at all
     redshifts = xp.concat([
-        _draw_nz(int(k), z, nz_values[nz_keys.index(x)], rng=xrng)
-        for x, k in zip(bin_label, bin_count, strict=True)
+        xp.empty(0),
+        *(
+            _draw_nz(int(k), z, nz_values[nz_keys.index(x)], rng=xrng)
+            for x, k in zip(bin_label, bin_count, strict=True)
+        ),
     ])
 
     # argsort the runs of redshifts into their intended positions
-- 
2.43.0


From 052c314b27a5eecd622fd1dd5df7c8c3b68b37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 11/23] fix: gaussian_phz accepted one array limit of the wrong
 shape

---
 glass/galaxies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 567e13a..43cb780 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -439,8 +439,9 @@ def gaussian_phz(  # noqa: PLR0913
     zphot = xp.asarray(xrng.normal(z_arr, sigma))
 
     # Check for valid user input
-    if (lower_arr.ndim == upper_arr.ndim != 0) and not (
-        lower_arr.shape == upper_arr.shape == zphot.shape
+    if any(
+        bound.ndim != 0 and bound.shape != zphot.shape
+        for bound in (lower_arr, upper_arr)
     ):
         msg = "lower and upper must best scalars or have the same shape as z"
         raise ValueError(msg)
-- 
2.43.0


From ada8f828c90a8530f2b595f84b381cc9eedfd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 12/23] fix: resample_shapes without variance of the reduced
 shear

---
 glass/shapes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..c5dcd6b 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,12 +411,11 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
+        # solve the quadratic in the form that does not suffer from cancellation
+        b = (1 - 2 * varg) * vare
+        d = xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))
         r *= xp.sqrt(
-            (
-                xp.sqrt(((1 - 2 * varg) * vare) ** 2 + 4 * varg * eve4 * (vare - varg))
-                - (1 - 2 * varg) * vare
-            )
-            / (2 * varg * eve4),
+            2 * (vare - varg) / (d + b) if varg < 0.5 else (d - b) / (2 * varg * eve4),
         )
 
     # assign random orientations to shapes
-- 
2.43.0


From 0296860d202d1700144c704c7a224ca1cce4df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 13/23] fix: displace and deflect failed for real displacements
 of several points where arrays cannot be iterated

---
 glass/lensing.py | 2 +-
 glass/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..096330c 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -742,7 +742,7 @@ def deflect(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = (alpha[i, ...] for i in range(alpha.shape[0]))
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
diff --git a/glass/points.py b/glass/points.py
index 593c023..03c0e8a 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -693,7 +693,7 @@ def displace(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = (alpha[i, ...] for i in range(alpha.shape[0]))
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
-- 
2.43.0


From cbeb6ad4974c8a89c52869ac33c40f43d18ffe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 14/23] fix: multi_plane_weights for weights with more than two
 axes

---
 glass/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index 096330c..c5f2779 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -681,7 +681,7 @@ def multi_plane_weights(
     weights = weights / xp.sum(weights, axis=0)
     # combine weights and the matrix of lensing contributions
     mat = multi_plane_matrix(shells, cosmo)
-    return xp.matmul(mat.T, weights)
+    return xp.tensordot(mat.T, weights, axes=1)
 
 
 def deflect(
-- 
2.43.0


From bdfda6e697416ef0d4134abc8c471a5ae324c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 15/23] fix: discretized_cls failed for spectra shorter than
 lmax where slices must be in bounds

---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 6e0cb29..13e5b8f 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -297,7 +297,7 @@ def discretized_cls(
     for cl in cls:
         if cl.shape[0] > 0:
             if lmax is not None:
-                cl = cl[: lmax + 1]  # noqa: PLW2901
+                cl = cl[: min(cl.shape[0], lmax + 1)]  # noqa: PLW2901
             if nside is not None:
                 n = min(cl.shape[0], pw.shape[0])  # ty: ignore[unresolved-attribute]
                 cl = cl[:n] * pw[:n] ** 2  # noqa: PLW2901
-- 
2.43.0


From 4ebba14dbfe64603956bb4442c49b4e614b962f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 16/23] fix: combine for weights with more than one axis where
 arrays cannot be iterated

---
 glass/shells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/shells.py b/glass/shells.py
index cd0510f..e353658 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -999,7 +999,7 @@ def combine(
     return xp.sum(
         xp.stack(
             [
-                xp.expand_dims(weight, axis=-1)
+                xp.expand_dims(weights[i, ...], axis=-1)
                 * uxpx.interp(
                     z,
                     shell.za,
@@ -1007,7 +1007,7 @@ def combine(
                     left=0.0,
                     right=0.0,
                 )
-                for shell, weight in zip(shells, weights, strict=False)
+                for i, shell in zip(range(weights.shape[0]), shells, strict=False)
             ],
         ),
         axis=0,
-- 
2.43.0


From d7badcff92429c5069c6a237c0318d66d53af3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 17/23] fix: distribute for empty arrays on backends without
 Python dtypes

---
 glass/shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index e353658..ce8a002 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1102,7 +1102,7 @@ def distribute(
 
     # return empty array if nothing was sampled
     if not out:
-        return xp.empty(shape, dtype=int)
+        return xp.empty(shape, dtype=xp.asarray(0).dtype)
 
     # return output in input shape
     return xp.reshape(xp.concat(out), shape)
-- 
2.43.0


From 139342d516935243e6da70707678dff92b719bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 18/23] fix: cov_from_spectra failed for missing spectra given
 as None

---
 glass/fields.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index 13e5b8f..85ddc5b 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -1016,19 +1016,24 @@ def cov_from_spectra(
     # recover the number of fields from the number of spectra
     n = nfields_from_nspectra(len(spectra))
 
+    # the spectra that are not missing
+    present = [cl for cl in spectra if cl is not None]
+
     # first case: maximum length in input spectra
-    k = max((cl.shape[0] for cl in spectra), default=0) if lmax is None else lmax + 1
+    k = max((cl.shape[0] for cl in present), default=0) if lmax is None else lmax + 1
 
     # this is the covariance matrix of the spectra
     # the leading dimension is k, then it is a n-by-n covariance matrix
     # missing entries are zero, which is the default value
-    cov = xp.zeros((k, n, n), dtype=spectra[0].dtype)
+    cov = xp.zeros((k, n, n), dtype=present[0].dtype)
 
     # fill the matrix up by going through the spectra in order
     # skip over entries that are None
     # if the spectra are ragged, some entries at high ell may remain zero
     # only fill the lower triangular part, everything is symmetric
     for i, j, cl in enumerate_spectra(spectra):
+        if cl is None:
+            continue
         size = min(k, cl.shape[0])
         cl_flat = xp.reshape(cl, (-1,))
         cov = xpx.at(cov)[:size, i, j].set(cl_flat[:size])
-- 
2.43.0


From bf25b3d7b5a5d9e9591226c6fa569f827fcc1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 19/23] fix: nnls did not return when rounding kept a variable
 positive

---
 glass/algorithm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 5bf064e..55ab369 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -101,9 +101,12 @@ def nnls(
             if not xp.any(t):
                 break
             # largest step towards sq that remains feasible (zero if xq = sq = 0)
-            dq = xq[t] - sq[t]
-            alpha = xp.min(xq[t] / xp.where(dq > 0, dq, xp.ones_like(dq)))
-            x = xpx.at(x)[q].add(alpha * (sq - xq))
+            dq = xp.where(t, xq - sq, xp.zeros_like(sq))
+            step = xp.where(t, xq / xp.where(dq > 0, dq, xp.ones_like(dq)), xp.inf)
+            alpha = xp.min(step)
+            # entries that limit the step become zero, regardless of rounding
+            xq = xp.where(step <= alpha, xp.zeros_like(xq), xq + alpha * (sq - xq))
+            x = xpx.at(x)[q].set(xq)
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
         x = xpx.at(x)[~q].set(0)
-- 
2.43.0


From a016acdb659d1a6b93b5bcbc5b5ed983ea88f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 20/23] fix: Generator.from_key raised AttributeError for
 Python scalars

---
 glass/jax.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glass/jax.py b/glass/jax.py
index 0f68b72..121ba2d 100644
--- a/glass/jax.py
+++ b/glass/jax.py
@@ -14,7 +14,6 @@ import jax.dtypes
 import jax.numpy as jnp
 import jax.random
 import jax.scipy
-import jax.typing
 
 if TYPE_CHECKING:
     from typing import Self
@@ -88,7 +87,7 @@ class Generator:
     @classmethod
     def from_key(cls, key: PRNGKeyArray) -> Self:
         """Wrap a JAX random key."""
-        if not isinstance(key, jax.typing.ArrayLike) or not jax.dtypes.issubdtype(
+        if not isinstance(key, jax.Array) or not jax.dtypes.issubdtype(
             key.dtype,
             jax.dtypes.prng_key,
         ):
-- 
2.43.0


From c2192b89633dc28b33c364f0e379052ae44efe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 21/23] fix: positions_from_delta ignored the generator given
 for positions within pixels

---
 glass/healpix.py | 31 ++++++++++++++++++++++++++-----
 glass/points.py  |  7 ++++++-
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..3ddc231 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -25,7 +25,13 @@ if TYPE_CHECKING:
     from collections.abc import Sequence
     from types import ModuleType
 
-    from glass._types import ComplexArray, DTypeLike, FloatArray, IntArray
+    from glass._types import (
+        ComplexArray,
+        DTypeLike,
+        FloatArray,
+        IntArray,
+        UnifiedGenerator,
+    )
 
 
 def _get_healpy_datapath() -> str | None:
@@ -395,19 +401,32 @@ def query_strip(
     return xp.asarray(output, dtype=dtype)
 
 
+class _NumPyRandom:
+    """Random numbers of any generator as writable NumPy arrays."""
+
+    def __init__(self, rng: UnifiedGenerator) -> None:
+        """Initialise from the generator of the random numbers."""
+        self.rng = rng
+
+    def random(self, size: tuple[int, ...], dtype: DTypeLike) -> FloatArray:
+        """Return random floats in the half-open interval [0.0, 1.0)."""
+        return np.array(self.rng.random(size), dtype=dtype)
+
+
 @numpy_fallback
 def randang(
     nside: int,
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: UnifiedGenerator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
-    we run into a ``operand array with iterator write flag set is read-only``
-    error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
+    The random numbers are copied into NumPy arrays, as otherwise we run into a
+    ``operand array with iterator write flag set is read-only`` error coming
+    from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
 
     Parameters
     ----------
@@ -417,6 +436,8 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Returns
     -------
@@ -427,7 +448,7 @@ def randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=glass.rng.default_rng(xp=np) if rng is None else _NumPyRandom(rng),
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 03c0e8a..a734b7b 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -353,6 +353,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +376,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator.
 
     Yields
     ------
@@ -428,6 +432,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=rng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +542,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From a1262e5b92a1eb82b947c57d9db2216775383f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 22/23] fix: position_weights raised an exception for an
 integer bias

---
 glass/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/points.py b/glass/points.py
index a734b7b..3c805fa 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -642,7 +642,7 @@ def position_weights(
     """
     xp = array_api_compat.array_namespace(densities, bias, use_compat=False)
 
-    bias = bias if bias is None or not isinstance(bias, float) else xp.asarray(bias)
+    bias = xp.asarray(float(bias)) if isinstance(bias, (int, float)) else bias
 
     # bring densities and bias into the same shape
     if bias is not None:
-- 
2.43.0


From 88273c52aa85d110e92fe0dc9f127725bd8acf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 23/23] fix: loglinear_bias did not broadcast the bias against
 the density contrast

---
 glass/points.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glass/points.py b/glass/points.py
index 3c805fa..c077968 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -155,8 +155,7 @@ def loglinear_bias(
     """
     xp = array_api_compat.array_namespace(delta, b, use_compat=False)
 
-    delta_g = xp.log1p(delta)
-    delta_g *= b
+    delta_g = b * xp.log1p(delta)
     return xp.expm1(delta_g)
 
 
-- 
2.43.0

