From be27a0559af0a0c9fce35d78fc787d483c572a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 01/18] fix: do not change MultiPlaneConvergence when the
 cosmology fails

A plane used to be half added when a call to the cosmology raised an
exception: source redshift, mass plane and weight were already updated,
while the convergence was not.  Adding the plane again was then rejected,
and adding the next plane silently gave a wrong convergence.
---
 glass/lensing.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..de72e7c 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -540,34 +540,42 @@ class MultiPlaneConvergence:
             msg = "source redshift must be increasing"
             raise ValueError(msg)
 
-        # cycle mass plane, ...
-        delta2, self.delta3 = self.delta3, delta
+        # the cosmology can fail, so compute everything that is needed from it
+        # before changing anything: a plane is either added or it is not
+
+        # mass plane, ...
+        delta2 = self.delta3
 
         # redshifts of source planes, ...
-        z1, self.z2, self.z3 = self.z2, self.z3, zsrc
+        z1, z2, z3 = self.z2, self.z3, zsrc
 
-        # and weights of mass plane
-        w2, self.w3 = self.w3, wlens
+        # and weight of mass plane to be added
+        w2 = self.w3
 
         # extrapolation law
-        x2, self.x3 = (
+        x2, x3 = (
             self.x3,
-            self.cosmo.transverse_comoving_distance(self.z3)
-            / self.cosmo.hubble_distance,
+            self.cosmo.transverse_comoving_distance(z3) / self.cosmo.hubble_distance,
         )
         r12 = self.r23
-        r13, self.r23 = self.cosmo.transverse_comoving_distance(
-            [z1, self.z2],
-            self.z3,
-        ) / (self.cosmo.hubble_distance * self.x3)
+        r13, r23 = self.cosmo.transverse_comoving_distance(
+            [z1, z2],
+            z3,
+        ) / (self.cosmo.hubble_distance * x3)
         t = r13 / r12
 
         # lensing weight of mass plane to be added
         f = 3 * self.cosmo.Omega_m0 / 2
-        f *= x2 * self.r23
-        f *= (1 + self.z2) / self.cosmo.H_over_H0(self.z2)
+        f *= x2 * r23
+        f *= (1 + z2) / self.cosmo.H_over_H0(z2)
         f *= w2
 
+        # cycle mass plane, redshifts, weight and distances
+        self.delta3 = delta
+        self.z2, self.z3 = z2, z3
+        self.w3 = wlens
+        self.x3, self.r23 = x3, r23
+
         # create kappa planes on first iteration
         if self.kappa2 is None:
             self.kappa2 = xp.zeros_like(delta)
-- 
2.43.0


From 4dd0326025d2ca1fefe23a31a67f213e52d724cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 02/18] fix: always terminate grf.solve

The solver used to halve its step forever if the transformations return
NaNs, e.g. if the spectrum cannot be realised by the transformations.
---
 glass/grf/_solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 3f58d0f..cf5ed52 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -126,6 +126,10 @@ def solve(  # noqa: PLR0912, PLR0913
         if monopole is not None:
             xl[0] = 0
 
+        # there is no step to take if the error or the step are not well-defined
+        if np.isnan(clerr) or not np.all(np.isfinite(xl)):
+            break
+
         # we know the "direction" of the step xl at this point
         # make xl smaller (by half) until we get an improved solution
         while True:
@@ -138,6 +142,9 @@ def solve(  # noqa: PLR0912, PLR0913
             clerr_ = _relerr(fl_, cl)
             if clerr_ <= clerr:
                 break
+            # no improvement even from a vanishing step, give up
+            if not np.any(xl):
+                return gl, rl, info
             xl /= 2
 
         if _relerr(xl, gl) <= gltol:
-- 
2.43.0


From 2a429b591fa5aa703c810d240db66fb4b69d714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 03/18] fix: sample positions within pixels from the given
 generator

positions_from_delta() used a new generator with the default seed for the
positions within pixels of every batch.  The positions of galaxies relative
to their pixels were hence the same in all batches, for all populations, in
all shells, and for all random number generators.
---
 glass/healpix.py | 30 +++++++++++++++++++++++++-----
 glass/points.py  |  7 ++++++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..e89275d 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -25,7 +25,13 @@ if TYPE_CHECKING:
     from collections.abc import Sequence
     from types import ModuleType
 
-    from glass._types import ComplexArray, DTypeLike, FloatArray, IntArray
+    from glass._types import (
+        ComplexArray,
+        DTypeLike,
+        FloatArray,
+        IntArray,
+        UnifiedGenerator,
+    )
 
 
 def _get_healpy_datapath() -> str | None:
@@ -395,19 +401,31 @@ def query_strip(
     return xp.asarray(output, dtype=dtype)
 
 
+class _NumpyRandom:
+    """Random number generator that returns writable NumPy arrays."""
+
+    def __init__(self, rng: UnifiedGenerator) -> None:
+        self.rng = rng
+
+    def random(self, size: tuple[int, ...], dtype: DTypeLike) -> FloatArray:
+        """Return random floats in the half-open interval [0.0, 1.0)."""
+        return np.array(self.rng.random(size), dtype=dtype)
+
+
 @numpy_fallback
 def randang(
     nside: int,
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: UnifiedGenerator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
-    we run into a ``operand array with iterator write flag set is read-only``
-    error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
+    The random numbers are converted to NumPy as otherwise we run into a
+    ``operand array with iterator write flag set is read-only`` error coming
+    from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
 
     Parameters
     ----------
@@ -417,6 +435,8 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Returns
     -------
@@ -427,7 +447,7 @@ def randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=glass.rng.default_rng(xp=np) if rng is None else _NumpyRandom(rng),
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 593c023..01f67a7 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -353,6 +353,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +376,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Yields
     ------
@@ -428,6 +432,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=rng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +542,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From 9ef1e64f548a0d92bf00b9c6ebd82426754cb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 04/18] fix: redshifts_from_bins for bins of more than one
 dimension

The indices of the bins have the shape of the input, and were sorted along
their last axis only.  Galaxies were given redshifts of other bins, and the
same redshift many times.
---
 glass/galaxies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..d60e5ef 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -172,8 +172,8 @@ def redshifts_from_bins(
     ])
 
     # argsort the runs of redshifts into their intended positions
-    # argsort 1: sort bin_index into runs of the same bin
-    bin_index = xp.argsort(bin_index)
+    # argsort 1: sort flattened bin_index into runs of the same bin
+    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))
     # argsort 2: invert the sort
     bin_index = xp.argsort(bin_index)
     # apply to runs of redshifts
-- 
2.43.0


From 7de2a7c754579b4941d1f17efe093479399edc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 05/18] fix: redshifts_from_bins of an empty catalogue

An empty array of bins raised an error because there was nothing to
concatenate; return an empty array as for the other samplers.
---
 glass/galaxies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index d60e5ef..b931514 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -161,6 +161,10 @@ def redshifts_from_bins(
 
     xrng = glass.rng.Generator(rng=rng, xp=xp)
 
+    # return empty array if there is nothing to sample
+    if bins.size == 0:
+        return xp.empty(bins.shape)
+
     # tally the bins
     bin_label, _, bin_index, bin_count = xp.unique_all(bins)
 
-- 
2.43.0


From 5d12ebf54d5708180d89787bfaf030f80567e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 06/18] fix: distribute of an empty catalogue in strict array
 backends

The type int is not a data type of the array API standard.
---
 glass/shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..c581828 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1100,7 +1100,7 @@ def distribute(
 
     # return empty array if nothing was sampled
     if not out:
-        return xp.empty(shape, dtype=int)
+        return xp.empty(shape, dtype=xp.int64)
 
     # return output in input shape
     return xp.reshape(xp.concat(out), shape)
-- 
2.43.0


From 80d6d197d719abb8ae4ff45375e5c3a8d9639d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 07/18] fix: axis ratio of very flat triaxial ellipsoids is not
 NaN

Rounding could make the projected minor axis squared negative.
---
 glass/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..cdd71a6 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -121,8 +121,10 @@ def triaxial_axis_ratio(
     c = 1 + z2m1 * cos2_phi
 
     # eq. (12)
+    # rounding may turn the numerator of very flat ellipsoids negative
     return xp.sqrt(
-        (a + c - xp.sqrt((a - c) ** 2 + b2)) / (a + c + xp.sqrt((a - c) ** 2 + b2)),
+        xp.clip(a + c - xp.sqrt((a - c) ** 2 + b2), min=0.0)
+        / (a + c + xp.sqrt((a - c) ** 2 + b2)),
     )
 
 
-- 
2.43.0


From 76e09fb74515f83aa0ca3d981031889d1fabf117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 08/18] fix: load_cls verifies the checksums of the file

NumPy only verifies the checksum of an array which is read to the end of
its entry.  A corrupt array shape therefore went unnoticed, and different
spectra were returned.
---
 glass/user.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/glass/user.py b/glass/user.py
index 8d4d784..4ed35ad 100644
--- a/glass/user.py
+++ b/glass/user.py
@@ -79,8 +79,18 @@ def load_cls(
     -------
         The list of Cls.
 
+    Raises
+    ------
+    ValueError
+        If the file is corrupt.
+
     """
     with np.load(filename) as npz:
+        # numpy only verifies checksums of arrays that are read to their end,
+        # which is not the case if the array shape is what is corrupt
+        if npz.zip.testzip() is not None:
+            msg = f"file is corrupt: {filename}"
+            raise ValueError(msg)
         values = npz["values"]
         split = npz["split"]
     return np.split(values, split)
-- 
2.43.0


From a8a557280833b5801724f5209b2e9a5a119279a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 09/18] fix: discretized_cls with lmax accepts shorter spectra
 in any array backend

The Array API does not define slices past the end of an array, and strict
backends raise for them.
---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..0e65a5c 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -291,7 +291,7 @@ def discretized_cls(
     gls = []
     for cl in cls:
         if cl.shape[0] > 0:
-            if lmax is not None:
+            if lmax is not None and cl.shape[0] > lmax + 1:
                 cl = cl[: lmax + 1]  # noqa: PLW2901
             if nside is not None:
                 n = min(cl.shape[0], pw.shape[0])  # ty: ignore[unresolved-attribute]
-- 
2.43.0


From 1e919402214b942fcde79f2e95ffdd8301dc0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 10/18] fix: redshifts_from_bins does not depend on an unstable
 sort

NumPy's default sort is not stable, so that the order of redshifts within a
bin was different from other array backends, and between processors.
---
 glass/galaxies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index b931514..a5665db 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -177,7 +177,8 @@ def redshifts_from_bins(
 
     # argsort the runs of redshifts into their intended positions
     # argsort 1: sort flattened bin_index into runs of the same bin
-    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))
+    # must be stable for the result not to depend on the array backend
+    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)), stable=True)
     # argsort 2: invert the sort
     bin_index = xp.argsort(bin_index)
     # apply to runs of redshifts
-- 
2.43.0


From 0fc40dc80e89c6912e5b7d1a3fb236d4502c21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 11/18] fix: displace accepts real displacements in strict
 array backends

---
 glass/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/points.py b/glass/points.py
index 01f67a7..7dfa55e 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -698,7 +698,7 @@ def displace(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = (alpha[i, ...] for i in range(alpha.shape[0]))
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
-- 
2.43.0


From 237b01143c7ee2139f6e136028efbbaa83269590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 12/18] fix: deflect accepts real deflections in strict array
 backends

---
 glass/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index de72e7c..bfa5941 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -750,7 +750,7 @@ def deflect(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = (alpha[i, ...] for i in range(alpha.shape[0]))
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
-- 
2.43.0


From 8d5b0346d27cb903bd8b08f64ee08830670d9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 13/18] fix: combine accepts weights with extra axes in strict
 array backends

---
 glass/shells.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index c581828..dca4861 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1005,7 +1005,11 @@ def combine(
                     left=0.0,
                     right=0.0,
                 )
-                for shell, weight in zip(shells, weights, strict=False)
+                for shell, weight in zip(
+                    shells,
+                    (weights[i, ...] for i in range(weights.shape[0])),
+                    strict=False,
+                )
             ],
         ),
         axis=0,
-- 
2.43.0


From 0a43c59efa500f5da68d1825fd1e8f658b2c4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 14/18] fix: do not change MultiPlaneConvergence when a plane
 is refused

An integer matter plane, or one that does not match the previous planes,
raised an exception after source redshift, mass plane and weight had been
updated and the convergence buffers had been exchanged.  Adding the right
plane again was then rejected, and later planes silently gave a wrong
convergence.  Compute the next convergence plane before changing anything.
As a consequence, planes handed out by kappa are no longer overwritten.
---
 glass/lensing.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index bfa5941..9e2d537 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -570,28 +570,25 @@ class MultiPlaneConvergence:
         f *= (1 + z2) / self.cosmo.H_over_H0(z2)
         f *= w2
 
-        # cycle mass plane, redshifts, weight and distances
+        # previous convergence planes, create on first iteration
+        kappa1 = xp.zeros_like(delta) if self.kappa2 is None else self.kappa2
+        kappa2 = xp.zeros_like(delta) if self.kappa3 is None else self.kappa3
+
+        # compute next convergence plane: kappa3 = (1-t)*kappa1 + ...
+        # this fails if the plane does not match the previous ones, so the
+        # previous convergence planes must not be modified here
+        t = xp.asarray(t)
+        kappa3 = xp.asarray(kappa1, copy=True)
+        kappa3 *= 1 - t
+        kappa3 += t * kappa2
+        kappa3 += xp.asarray(f) * delta2
+
+        # cycle mass plane, redshifts, weight, distances and convergence planes
         self.delta3 = delta
         self.z2, self.z3 = z2, z3
         self.w3 = wlens
         self.x3, self.r23 = x3, r23
-
-        # create kappa planes on first iteration
-        if self.kappa2 is None:
-            self.kappa2 = xp.zeros_like(delta)
-            self.kappa3 = xp.zeros_like(delta)
-
-        # cycle convergence planes
-        # normally: kappa1, kappa2, kappa3 = kappa2, kappa3, <empty>
-        # but then we set: kappa3 = (1-t)*kappa1 + ...
-        # so we can set kappa3 to previous kappa2 and modify in place
-        self.kappa2, self.kappa3 = self.kappa3, self.kappa2
-
-        # compute next convergence plane in place of last
-        t = xp.asarray(t)
-        self.kappa3 *= 1 - t
-        self.kappa3 += t * self.kappa2
-        self.kappa3 += xp.asarray(f) * delta2
+        self.kappa2, self.kappa3 = kappa2, kappa3
 
     @property
     def zsrc(self) -> float | FloatArray:
-- 
2.43.0


From d63daa6d5563c71cef94457001a3a9aa115b51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 15/18] fix: step towards the new solution in nnls

The step length was given the wrong sign, so that the solution moved
away from the least squares solution of the current set, never removed
the negative entries, and either stopped at a wrong result or never
ended.
---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..0df5a18 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,7 +100,7 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
+            alpha = xp.min(xq[t] / (xq[t] - sq[t]))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
-- 
2.43.0


From e2a18baee1447c1cf1188cd74d9b3a2058f892f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 16/18] fix: nearcorr for stacks of more than one leading axis

---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 0df5a18..51018e4 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -195,7 +195,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From b3cb29fb50aa63610e72435b6de1fbf71a30be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 17/18] fix: nnls did not end for input that is not finite

---
 glass/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 51018e4..5fb39f3 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -98,7 +98,8 @@ def nnls(
             xq = x[q]
             sq = xp.linalg.solve(aq.T @ aq, b @ aq)
             t = sq <= 0
-            if not xp.any(t):
+            # there is no step between solutions which are not finite
+            if not xp.any(t) or not xp.all(xp.isfinite(xq - sq)):
                 break
             alpha = xp.min(xq[t] / (xq[t] - sq[t]))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
-- 
2.43.0


From 0e680db3ac26bf0b349ab0e218b6154273c6f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 18/18] fix: do not keep arrays alive in reference cycles of
 numpy_fallback

The recursive inner function formed a cycle with the list of all array
arguments, so every HEALPix transform kept its maps and coefficients until
the next full garbage collection: the memory of generate() grew with the
number of fields.
---
 glass/_array_api_utils.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..ce03817 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -566,6 +566,30 @@ class xp_additions:  # noqa: N801
         return tuple(xp.asarray(arr) for arr in dxp.tril_indices(n, k=k, m=m))
 
 
+def _collect_arrays(obj, arrays) -> None:  # noqa: ANN001
+    """
+    Recursively collect Array API arrays from nested inputs.
+
+    A recursive function inside of the wrapper would form a reference cycle,
+    which keeps the arrays alive until the garbage collector runs.
+
+    Parameters
+    ----------
+    obj
+        Nested input.
+    arrays
+        List to which arrays are added.
+    """
+    if hasattr(obj, "__array_namespace__"):
+        arrays.append(obj)
+    elif isinstance(obj, dict):
+        for v in obj.values():
+            _collect_arrays(v, arrays)
+    elif isinstance(obj, Sequence) and not isinstance(obj, (str, bytes)):
+        for item in obj:
+            _collect_arrays(item, arrays)
+
+
 def numpy_fallback(func: Callable[..., Any]) -> Callable[..., Any]:  # noqa: C901
     """
     Decorator to convert function arguments to Numpy arrays and back.
@@ -592,22 +616,11 @@ def numpy_fallback(func: Callable[..., Any]) -> Callable[..., Any]:  # noqa: C90
         """Convert Array API inputs to NumPy, call the function, and convert back."""
         list_of_xp = []
 
-        def collect_arrays(obj) -> None:  # noqa: ANN001
-            """Recursively collect Array API arrays from nested inputs."""
-            if hasattr(obj, "__array_namespace__"):
-                list_of_xp.append(obj)
-            elif isinstance(obj, dict):
-                for v in obj.values():
-                    collect_arrays(v)
-            elif isinstance(obj, Sequence) and not isinstance(obj, (str, bytes)):
-                for item in obj:
-                    collect_arrays(item)
-
         for arg in args:
-            collect_arrays(arg)
+            _collect_arrays(arg, list_of_xp)
 
         for arg in kwargs.values():
-            collect_arrays(arg)
+            _collect_arrays(arg, list_of_xp)
 
         if not list_of_xp:
             return func(*args, **kwargs)
-- 
2.43.0

