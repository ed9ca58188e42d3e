From a005b44c50df12e0cc2c0620558f7332009db538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 01/93] fix: reflected density is zero outside every boundary
 and conserves mass in several dimensions

---
 kalepy/kernels.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..b5f7df4 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -114,24 +114,33 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
+        # Mirror the evaluation `points` instead of the data: this reflects the kernels themselves
+        #   (including any covariances), and all combinations of mirrored dimensions are included
+        images = [np.array(points, dtype=float)]
+        outside = np.zeros(num_points, dtype=bool)
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
                 continue
 
+            mirrored = []
             for loc in reflect_dim:
                 if loc is None:
                     continue
 
-                # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
-                refl_data[ii, :] = 2*loc - refl_data[ii, :]
-                result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
+                for image in images:
+                    image = np.array(image)
+                    image[ii, :] = 2*loc - image[ii, :]
+                    mirrored.append(image)
 
+            images = images + mirrored
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-            idx = (points[ii, :] < lo) | (hi < points[ii, :])
-            result[idx] = 0.0
+            outside = outside | (points[ii, :] < lo) | (hi < points[ii, :])
 
+        for image in images[1:]:
+            result += _evaluate_numba(whitening, data, image, weights, kfunc)
+
+        result[outside] = 0.0
         result = result / norm
         return result
 
-- 
2.43.0


From b2fc72d381f478928f49d432886f19b7594ca185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 02/93] fix: resampling with reflection draws from the
 reflected density, and allows keeping other parameters

---
 kalepy/kernels.py | 104 ++++++++++------------------------------------
 1 file changed, 22 insertions(+), 82 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index b5f7df4..a55e570 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -221,23 +221,11 @@ class Kernel(object):
     def _resample_reflect(self, data, size, reflect, weights=None, keep=None):
         """Resample the given data using reflection.
         """
-        matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Check that there are no dimensions being both kept and reflected
+        utils.cov_keep_vars(self.matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
-        # Actually 'reflect' (append new, mirrored points) around the given reflection points
-        #   Also construct bounding box for valid data
-        data, bounds, weights = self._reflect_data(data, reflect, weights=weights)
-
-        # Remove data points outside of kernels (or truncated region)
-        data, weights = self._truncate_reflections(data, bounds, weights=weights)
-        if (data.size == 0):
-            err = "Empty data after reflection and truncation!"
-            logging.error(err)
-            raise ValueError(err)
-
         if (self._chunk is not None) and (self._chunk < size):
             num_chunks = int(np.ceil(size/self._chunk))
             chunk_size = int(np.ceil(size/num_chunks))
@@ -254,9 +242,10 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
-            # Find the (boolean) indices of values within target boundaries
+            trial = self._resample_clear(data, draw, weights=weights, keep=keep)
+            # Mirror points outside of the boundaries back across them, and then find the (boolean)
+            #    indices of values within target boundaries
+            trial, bounds = self._reflect_samples(trial, reflect)
             idx = utils.bound_indices(trial, bounds)
 
             # Store good values to output array
@@ -296,75 +285,26 @@ class Kernel(object):
 
     # ==== Utilities ====
 
-    def _reflect_data(self, data, reflect, weights=None):
-        """Reflect the given data about the locations specified by `reflect`.
+    def _reflect_samples(self, samples, reflect):
+        """Mirror samples outside of the `reflect` boundaries back across them, (i.e. draws from the reflected kernels)
 
-        If input `weights` is None, then returned `weights` are None.
+        Returns the mirrored samples, and the boundaries themselves with shape (D, 2).
 
         """
-        bounds = np.zeros((data.shape[0], 2))
-
-        old_data = np.copy(data)
-        if weights is not None:
-            old_weights = np.copy(weights)
-
+        bounds = np.zeros((samples.shape[0], 2))
         for ii, reflect_dim in enumerate(reflect):
-            if reflect_dim is None:
-                bounds[ii, 0] = -np.inf
-                bounds[ii, 1] = +np.inf
-                continue
-
-            for jj, loc in enumerate(reflect_dim):
-                if loc is None:
-                    # j=0 : -inf,  j=1: +inf
-                    bounds[ii, jj] = np.inf * (2*jj - 1)
-                    continue
-
-                bounds[ii, jj] = loc
-                new_data = np.array(old_data)
-                new_data[ii, :] = loc - (new_data[ii, :] - loc)
-                # NOTE: this returns a copy, so original `data` is *not* changed in-place
-                data = np.append(data, new_data, axis=-1)
-                if weights is not None:
-                    weights = np.append(weights, old_weights)
-
-        # Re-normalize the weights
-        if weights is not None:
-            weights = weights / np.sum(weights)
-
-        return data, bounds, weights
-
-    def _truncate_reflections(self, data, bounds, weights=None):
-        # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
-        # Find the data-points outside of those bounds
-        idx = utils.bound_indices(data, trunc)
-        # Select only points within truncation bounds
-        data = data[:, idx]
-        if weights is not None:
-            weights = weights[idx]
-            weights /= np.sum(weights)
-
-        return data, weights
-
-    def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
-
-        bw = self.bandwidth.diagonal()
-        # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
-        if self.FINITE:
-            bw = bw * (1 + _NUM_PAD)
-            qnts = np.array([-bw, bw]).T
-        # If kernel has infinite-support, go to the quantile reaching the desired precision
-        else:
-            tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
-            qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
-
-        # Expand the reflection bounds based on the bandwidth interval
-        trunc = bounds + qnts
-        return trunc
+            lo, hi = (None, None) if (reflect_dim is None) else reflect_dim
+            lo = -np.inf if (lo is None) else lo
+            hi = +np.inf if (hi is None) else hi
+            bounds[ii, :] = lo, hi
+
+            vals = samples[ii, :]
+            below = (vals < lo)
+            above = (vals > hi)
+            samples[ii, below] = 2*lo - vals[below]
+            samples[ii, above] = 2*hi - vals[above]
+
+        return samples, bounds
 
     # ==== Properties ====
 
-- 
2.43.0


From 3e79de9bbf141f70039509152c0a88b50af56bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 03/93] fix: given reflect argument is not modified in-place

---
 kalepy/kernels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index a55e570..95d4b13 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -2,6 +2,7 @@
 """
 import logging
 import abc
+import copy
 from collections import OrderedDict
 
 import numpy as np
@@ -659,6 +660,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is True:
         reflect = [True for ii in range(ndim)]
 
+    # Make sure the input object is not modified in-place
+    reflect = copy.deepcopy(reflect)
+
     if (len(reflect) == 2) and (ndim == 1):
         reflect = np.atleast_2d(reflect)
 
-- 
2.43.0


From bc5d6ab2f430afd4e774912df4e6ac79988514de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 04/93] fix: automatic reflection boundaries always enclose the
 data, including negative values

---
 kalepy/kernels.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 95d4b13..aca8bd2 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -683,13 +683,16 @@ def _check_reflect(reflect, data, weights=None, helper=False):
 
     # Perform additional diagnostics
     for ii in range(ndim):
+        # Pad outwards from the extrema of the data (which may be negative)
+        lo, hi = np.min(data[ii]), np.max(data[ii])
+        lo, hi = lo - _NUM_PAD*np.fabs(lo), hi + _NUM_PAD*np.fabs(hi)
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
+            reflect[ii] = [lo, hi]
         elif (reflect[ii] is not None) and (True in reflect[ii]):
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = lo
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = hi
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From c2d5aeff5baa82d08241c34d641b20bdbf95c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 05/93] fix: boolean and tuple reflect specifications are
 honored in every position

---
 kalepy/kde.py     | 4 ++--
 kalepy/kernels.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..2af9606 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -350,10 +350,10 @@ class KDE:
             reflect = self.reflect
 
         # Make sure `reflect` shape matches the data
-        if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
+        if np.iterable(reflect) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
-                reflect = np.atleast_2d(reflect)
+                reflect = [reflect]
             else:
                 err = (
                     "length of `reflect` ({}) ".format(reflect),
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index aca8bd2..34fd860 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -663,8 +663,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     # Make sure the input object is not modified in-place
     reflect = copy.deepcopy(reflect)
 
-    if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+    # NOTE: do not convert to `ndarray`, so that `True` values are preserved
+    if (len(reflect) == 2) and (ndim == 1) and utils.really1d(reflect):
+        reflect = [reflect]
 
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
@@ -681,6 +682,8 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    reflect = [list(ref) if np.iterable(ref) else ref for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
         # Pad outwards from the extrema of the data (which may be negative)
-- 
2.43.0


From ceaaaabc866659a8915b89eaed99f5c1132655c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 06/93] fix: one-dimensional results keep their shape for a
 single point, and with scalars

---
 kalepy/kde.py     | 1 -
 kalepy/kernels.py | 2 +-
 kalepy/sample.py  | 7 ++++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 2af9606..3e2d8c1 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -394,7 +394,6 @@ class KDE:
 
         if squeeze:
             points = points[0]
-            values = values.squeeze()
 
         return points, values
 
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 34fd860..d0ad852 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -174,7 +174,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples[0]
 
         return samples
 
diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..05ed93f 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -433,8 +433,9 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
         squeeze = (np.ndim(dens) == 1)
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
-    if squeeze:
-        samples = samples.squeeze()
+    if squeeze and (np.ndim(dens) == 1):
+        # If scalars are also sampled, then both `(values, scalars)` are returned
+        samples = (samples[0][0], samples[1]) if isinstance(samples, tuple) else samples[0]
     return samples
 
 
@@ -482,7 +483,7 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
         raise ValueError("`nsamp` is currently deprecated!")
     nsamp, vals, weights = outliers.sample(**sample_kwargs)
     if squeeze:
-        vals = vals.squeeze()
+        vals = vals[0]
     return vals, weights
 
 
-- 
2.43.0


From 797e39bf15136d420ef5d6033fad7bb8ff53810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 07/93] fix: params may be an array for one-dimensional data

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 3e2d8c1..3ab7e28 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -330,7 +330,7 @@ class KDE:
         squeeze = False
         if params is not None:
             if (ndim == 1):
-                if params == 0:
+                if np.size(params) == 1 and np.all(np.asarray(params) == 0):
                     params = None
                 else:
                     err = "Cannot specify `params` ('{}') > 0 for 1D data!".format(params)
-- 
2.43.0


From 59866c822441cbb6ab8baca83c593b13353fc16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 08/93] fix: multi-dimensional finite kernels are sampled
 following their density

---
 kalepy/kernels.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index d0ad852..8c7fc74 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -493,7 +493,8 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            # A single radius is needed for each (D-dimensional) point
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
@@ -527,8 +528,11 @@ class Parabola(_Distribution):
     @classmethod
     def _sample(cls, size, ndim):
         # Use the median trick to draw from the Epanechnikov distribution
-        samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
-        samp = np.median(samp, axis=-1)
+        if ndim == 1:
+            samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
+            samp = np.median(samp, axis=-1)
+        else:
+            samp = _sample_beta_kernel(1, size, ndim)
         return samp
 
     @staticmethod
@@ -557,10 +561,13 @@ class Triweight(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
-        samps = np.random.normal(0.0, 1.0, (ndim, size))
-        rads = np.linalg.norm(samps, axis=0)
-        norm = _triweight_inverse_func(np.random.random((ndim, size)))
-        samps = norm * samps / rads[np.newaxis, :]
+        if ndim == 1:
+            samps = np.random.normal(0.0, 1.0, (ndim, size))
+            rads = np.linalg.norm(samps, axis=0)
+            norm = _triweight_inverse_func(np.random.random((ndim, size)))
+            samps = norm * samps / rads[np.newaxis, :]
+        else:
+            samps = _sample_beta_kernel(3, size, ndim)
         return samps
 
     @staticmethod
@@ -643,6 +650,16 @@ def _beta_kernel_norm(order, ndim):
     return norm
 
 
+def _sample_beta_kernel(order, size, ndim):
+    """Sample from the spherically symmetric (multivariate) beta family kernels, i.e. PDF ~ (1 - r^2)^order.
+    """
+    samps = np.random.normal(0.0, 1.0, (ndim, size))
+    samps = samps / np.linalg.norm(samps, axis=0)
+    # squared radii follow a beta distribution
+    rads = np.sqrt(np.random.beta(ndim / 2.0, order + 1.0, size))
+    return samps * rads[np.newaxis, :]
+
+
 def _check_reflect(reflect, data, weights=None, helper=False):
     """Make sure the given `reflect` argument is valid given the data shape
     """
-- 
2.43.0


From b69b2e766f66aea3f310fd7f080eaee667d210d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 09/93] fix: the cumulative distribution is not extrapolated
 beyond its grid

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 3ab7e28..53eec72 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -524,6 +524,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        # The CDF is constant beyond the edges of the grid, so do not extrapolate
+        extr = [[gg[0], gg[-1]] for gg in self._cdf_grid[0]]
+        pnts = np.clip(pnts, *np.transpose(extr))
         cdf = self._cdf_func(pnts)
         return cdf
 
-- 
2.43.0


From 5890ac0cee537c7a9aa13f9ed9b7563c8325e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 10/93] fix: weights may be any array_like

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 53eec72..909a295 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,10 +201,10 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.asarray(weights).astype(float)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-            weights = np.asarray(weights).astype(float)
             weights_uniform = False
 
         if neff is None:
-- 
2.43.0


From c0efd5d035e0b967cf74ecd271c1c366ae92d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 11/93] fix: bandwidth may be any array_like, including for
 one-dimensional data

---
 kalepy/kde.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 909a295..3de43af 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -695,7 +695,13 @@ class KDE:
         ndim = self.ndim
         bandwidth = np.zeros((ndim, ndim))
 
-        if len(np.atleast_1d(bw_input)) == 1:
+        # Allow for any `array_like`, but maintain individual types (e.g. both strings and scalars)
+        if np.iterable(bw_input) and not isinstance(bw_input, six.string_types):
+            bw_input = np.array(bw_input, dtype=object)
+
+        if np.size(bw_input) == 1:
+            if not isinstance(bw_input, six.string_types):
+                bw_input = np.asarray(bw_input, dtype=object).item()
             _bw, method = self._compute_bandwidth(bw_input)
             if not self._diagonal:
                 bandwidth[...] = _bw
-- 
2.43.0


From 7b551240a43e5cd966096137930cccef3afac3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 12/93] fix: extrema always extend beyond the data, for small
 effective numbers of points

---
 kalepy/kde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 3de43af..1964c36 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -247,6 +247,8 @@ class KDE:
             out = sp.stats.norm.ppf(1.0 - 1.0/neff)
             # Extra to be double sure...
             out *= 1.2
+            # For small `neff`, make sure to still extend outside of the data
+            out = max(out, 1.0) if np.isfinite(out) else 1.0
 
         # Find the effective-extrema in each dimension, to be used if `extrema` is not specified
         _bandwidth = np.sqrt(self.kernel.matrix.diagonal())
-- 
2.43.0


From 410413c11746f760ffaf7e34b909e45ab301d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 13/93] fix: mismatched weights raise the intended ValueError
 in kernel density

---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 8c7fc74..6faeb93 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -90,7 +90,7 @@ class Kernel(object):
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
             err = "Shape of `weights` ({}) does not match number of data points ({})!".format(
-                np.shpae(weights), num_data)
+                np.shape(weights), num_data)
             raise ValueError(err)
 
         # -----------------    Calculate Density
-- 
2.43.0


From 89e0c645dbb9a07b326f870c3c2d2fb65eebe8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 14/93] fix: kernel density rejects data not matching the
 kernel dimensions, instead of reading out of bounds

---
 kalepy/kernels.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 6faeb93..c97c966 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -86,6 +86,11 @@ class Kernel(object):
                 npar_data, npar_pnts)
             raise ValueError(err)
 
+        if npar_data != len(matrix):
+            err = "Dimensions of `data` ({}) does not match kernel covariance ({})!".format(
+                npar_data, len(matrix))
+            raise ValueError(err)
+
         if weights is None:
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
-- 
2.43.0


From 579ac5fe31c0b01bf3ed47e51cf5728661d526cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 15/93] fix: distributions can test which points are inside of
 their support

---
 kalepy/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index c97c966..0c81d51 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -460,9 +460,9 @@ class Gaussian(_Distribution):
         return samps
 
     @staticmethod
-    def inside(cls, points):
+    def inside(points):
         if np.ndim(points) == 1:
-            shape = points.size
+            shape = np.size(points)
         else:
             ndim, *shape = np.shape(points)
         return np.ones(shape, dtype=bool)
@@ -630,7 +630,7 @@ def get_distribution_class(arg=None):
 
 def _inside_unit_nball(points):
     if np.ndim(points) == 1:
-        idx = (-1.0 < points < 1.0)
+        idx = (np.fabs(points) < 1.0)
     else:
         points = np.linalg.norm(points, axis=0)
         idx = (points < 1.0)
-- 
2.43.0


From 73010fe9d8af7a7d7125407b0ee4b39947efe1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 16/93] fix: bound_indices supports unbounded dimensions, and
 outside of any bound in several dimensions

---
 kalepy/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..eba3d6b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -70,18 +70,21 @@ def bound_indices(data, bounds, outside=False):
     If `outside` is True, then indices for values *outside* of the bounds are returned.
     """
     data = np.atleast_2d(data)
-    bounds = np.atleast_2d(bounds)
+    # `bounds` can be jagged (i.e. `None` for some dimensions), do not convert those to `ndarray`
+    if (bounds is None) or really1d(bounds):
+        bounds = [bounds]
     ndim, nvals = np.shape(data)
-    idx = np.ones(nvals, dtype=bool)
+    # Points are 'outside' if they are outside of the bounds in *any* dimension, and 'inside' only
+    #   if they are within the bounds in *all* dimensions
+    idx = np.zeros(nvals, dtype=bool) if outside else np.ones(nvals, dtype=bool)
     for ii, bnd in enumerate(bounds):
         if bnd is None or ((len(bnd) == 1) and (bnd[0] is None)):
-            idx = idx & ~outside
             continue
 
         if outside:
             lo = (data[ii, :] < bnd[0]) if (bnd[0] is not None) else False
             hi = (bnd[1] < data[ii, :]) if (bnd[1] is not None) else False
-            idx = idx & (lo | hi)
+            idx = idx | (lo | hi)
         else:
             lo = True if (bnd[0] is None) else (bnd[0] < data[ii, :])
             hi = True if (bnd[1] is None) else (data[ii, :] < bnd[1])
-- 
2.43.0


From 881f62e919fd476af707bd44915187eba4ead48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 17/93] fix: quantiles along any axis

---
 kalepy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index eba3d6b..d92d0a8 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -515,6 +515,11 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    # Always calculate along the last axis
+    if axis is not None:
+        values = np.moveaxis(values, axis, -1)
+        weights = np.moveaxis(weights, axis, -1)
+        axis = -1
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
@@ -527,8 +532,6 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-        values = np.moveaxis(values, axis, -1)
-        weighted_quantiles = np.moveaxis(weighted_quantiles, axis, -1)
         percs = [np.interp(percs, weighted_quantiles[idx], values[idx])
                  for idx in np.ndindex(values.shape[:-1])]
         percs = np.array(percs)
-- 
2.43.0


From 1f07b524a3633489fc77b6ab1dfffe425d7eeed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 18/93] fix: subdividing zero times returns the input array

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index d92d0a8..6c63512 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -823,7 +823,8 @@ def subdivide(xx, num=1, log=False):
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
     div = div[:, np.newaxis] + dd
-    div = div.flatten()[:-num]
+    div = div.flatten()
+    div = div[:div.size - num]
     if log:
         div = 10.0 ** div
 
-- 
2.43.0


From 72f98f4dac5bb6eb038505adfd65c9f2ab5b0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 19/93] fix: integration along negative axes

---
 kalepy/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6c63512..658f3be 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -844,7 +844,8 @@ def trapz_nd(data, edges, axis=None):
     if axis is None:
         axis = np.arange(ndim)
     else:
-        axis = np.atleast_1d(axis)
+        # convert any negative axes to their positive equivalents
+        axis = np.arange(ndim)[np.atleast_1d(axis)]
 
     axis = sorted(axis)[::-1]
     tot = np.array(data)
@@ -900,7 +901,8 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     if axis is None:
         axis = np.arange(ndim)
 
-    axis = np.atleast_1d(axis)
+    # convert any negative axes to their positive equivalents
+    axis = np.arange(ndim)[np.atleast_1d(axis)]
     axis_ndim = len(axis)
     axis = sorted(axis)
 
-- 
2.43.0


From 54f60598a7857a458f2e140b908060a621eef620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 20/93] fix: positive extrema of any array_like, and of data
 without positive values

---
 kalepy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 658f3be..8b65786 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -380,13 +380,17 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
     if limit is not None:
         assert len(limit) == 2, "`limit` must have length 2."
 
+    # Select only positive values (e.g. for log-scales)
+    if positive:
+        data = np.asarray(data)
+        data = data[data > 0.0]
+
     # If there are no elements (left), return `prev` (`None` if not provided)
     if np.size(data) == 0:
         return prev
 
     # Find extrema
-    idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    minmax = np.array([np.min(data), np.max(data)])
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From a4336306c432fb364d3d28d62356599a850d121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 21/93] fix: extrema of integer data are not truncated when
 stretched or combined

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 8b65786..cf689a6 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -390,7 +390,7 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
         return prev
 
     # Find extrema
-    minmax = np.array([np.min(data), np.max(data)])
+    minmax = np.array([np.min(data), np.max(data)], dtype=float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From dbfa1a796a37142d291f424750c9494e747c6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 22/93] fix: intra-bin positions follow the density within each
 bin of a sampled grid

---
 kalepy/sample.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 05ed93f..923881b 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -130,11 +130,12 @@ class Sample_Grid:
             logging.info("`dens` is None, cannot interpolate sampling")
             interpolate = False
 
-        # ensure PDF `dens` is properly normalized for interpolation
+        # ensure PDF `dens` is properly normalized for interpolation, i.e. by the average within each bin
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
         #     interpolation sampling (`_intrabin_linear_interp()`)
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_bin = utils.midpoints(dens, log=False, axis=None)
+            dens_bin = np.where(dens_bin > 0.0, dens_bin, 1.0)
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -182,7 +183,7 @@ class Sample_Grid:
                 edge = np.asarray(edge)
 
                 # Find the gradient along this dimension (using center-values in other dimensions)
-                _grad = _grad_along(dens, dim)
+                _grad = _grad_along(dens, dim) / dens_bin
                 # get the gradient for each sample
                 grad = _grad.flat[bin_numbers_flat]
                 # interpolate edge values in this dimension
-- 
2.43.0


From ad7a51dd70a6cb18a44095b68ad6c4f781524c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 23/93] fix: intra-bin positions are numerically stable for
 nearly flat densities

---
 kalepy/sample.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 923881b..8dbd6fd 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -528,8 +528,7 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     bw = wid[bidx]
     vals = np.zeros_like(grad)
 
-    # sel = np.fabs(grad) > 1.0e-12
-    sel = np.fabs(grad) > 1.0e-16
+    sel = (np.fabs(grad) > 1.0e-16) & (loc > 0.0)
     # When the gradient is roughly flat, values maintain uniform random distribution
     vals[~sel] = loc[~sel]
 
@@ -538,8 +537,9 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     # calculate `y1` to ensure the CDF is unitary
     y1 = 1.0 - grad[sel] / 2.0
     # invert the CDF (``F(x) = y1*x + grad * x^2 / 2``) to sample from PDF (still on [0.0, to 1.0])
-    vals[sel] = 2 * loc[sel] * grad[sel] + y1 ** 2
-    vals[sel] = (np.sqrt(vals[sel]) - y1) / grad[sel]
+    #     use the form of the solution which is numerically stable for small values of `grad`
+    vals[sel] = np.maximum(2 * loc[sel] * grad[sel] + y1 ** 2, 0.0)
+    vals[sel] = 2 * loc[sel] / (np.sqrt(vals[sel]) + y1)
     # convert [0.0, 1.0] domain to the location and width of each bin
     vals = edge[bidx] + bw * vals
 
-- 
2.43.0


From e3f981f99db95e83ee031519023b62893b4f477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 24/93] fix: scalars at samples of a grid are interpolated at
 the sample positions, without bin volumes

---
 kalepy/sample.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 8dbd6fd..1067dab 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -100,7 +100,8 @@ class Sample_Grid:
         if self._mass is None:
             self._mass = utils.trapz_dens_to_mass(self._dens, self._edges, axis=None)
         if (self._scalar_mass is None) and (self._scalar_dens is not None):
-            self._scalar_mass = utils.trapz_dens_to_mass(self._scalar_dens, self._edges, axis=None)
+            # scalars are averaged (*not* integrated) over each bin
+            self._scalar_mass = utils.midpoints(self._scalar_dens, log=False, axis=None)
 
         idx, csum = _data_to_cumulative(self._mass)
         self._idx = idx
@@ -161,7 +162,7 @@ class Sample_Grid:
         # If scalars are also being sampled: find scalar value for bin centers (i.e. bin averages)
         #     this will be updated/improved if `interpolation=True`
         if return_scalar:
-            scalar_mass = self._scalar_mass
+            scalar_mass = np.asarray(self._scalar_mass, dtype=float)
             scalar_values = scalar_mass[bin_numbers]
 
         # ---- Place samples in each dimension
@@ -193,7 +194,8 @@ class Sample_Grid:
             if return_scalar and interpolate:
                 grad = _grad_along(scalar_dens, dim)
                 grad = grad.flat[bin_numbers_flat]
-                # shift `loc` (location within bin) to center point
+                # find the location of each sample relative to the bin center (in units of bin width)
+                loc = (vals[dim, :] - edge[bidx]) / wid[bidx]
                 scalar_values += grad * (loc - 0.5)
 
         if return_scalar:
-- 
2.43.0


From 42a01a1256c5460bd87ab188253493db862dc3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 25/93] fix: grid sampling uses the given mass, as any
 array_like

---
 kalepy/sample.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 1067dab..ddbbde7 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -83,7 +83,7 @@ class Sample_Grid:
 
         self._edges = edges
         self._dens = dens
-        self._mass = mass
+        self._mass = mass if (mass is None) else np.asarray(mass)
         self._shape_edges = tuple(shape_edges)
         self._shape_bins = tuple(shape_bins)
         self._ndim = ndim
@@ -443,10 +443,10 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
 
 
 def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kwargs):
-    scalar_dens = dens / portion
+    dens, portion = np.broadcast_arrays(np.asarray(dens, dtype=float), np.asarray(portion, dtype=float))
     # Avoid NaN values
-    scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    scalar_dens = np.divide(dens, portion, out=np.zeros_like(dens), where=(portion != 0.0))
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
-- 
2.43.0


From 9615c237bbf7ae767ee018262a03a6eaec8023ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 26/93] fix: pdf() and density() wrappers accept params

---
 kalepy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..de567b6 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,7 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +136,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From c7eccf1a5cbbfd150af41849a432bdb2705efba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 27/93] fix: extrema with unbounded sides are filled
 independently in each dimension, and for chosen params

---
 kalepy/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index cf689a6..1557f0f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1241,12 +1241,13 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
 
     if extrema is None:
         extrema = data_extrema
-    elif (params is not None) and (len(extrema) != npars):
-        extrema = [extrema[pp] for pp in params]
-
     # Check components of given `extrema` to make sure they are valid
     #   fill in any `None` values with extrema from the data
     else:
+        # Select the target parameters
+        if (params is not None) and (len(extrema) != npars):
+            extrema = [extrema[pp] for pp in params]
+
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
             extrema = [extrema for ii in range(npars)]
@@ -1265,10 +1266,9 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             raise ValueError(err)
 
         # Fill in `None` values and check if given `extrema` is out of bounds for data
+        # NOTE: each dimension must have its own (modifiable) pair of values
+        extrema = [[None, None] if (ee is None) else list(ee) for ee in extrema]
         for dd in range(npars):
-            if extrema[dd] is None:
-                extrema[dd] = [None, None]
-
             for ii in range(2):
                 if extrema[dd][ii] is None:
                     extrema[dd][ii] = data_extrema[dd][ii]
-- 
2.43.0


From 3c3c165b6f9c0a58bda70d40bd485036c7f27f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 28/93] fix: dist2d honors params in any order, and partially
 reflected KDEs

---
 kalepy/plot.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..753d1c3 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1478,22 +1478,23 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         if weights is not None:
             raise ValueError("`weights` of given `KDE` instance cannot be overridden!")
         kde = kde_data
-        data = kde.dataset
-        ndim = np.shape(data)[0]
-        if ndim > 2:
-            if len(params) != 2:
-                raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
-            data = np.vstack([data[ii] for ii in params])
         weights = None if kde._weights_uniform else kde.weights
     else:
         try:
-            data = kde_data
-            kde = kale.KDE(data, weights=weights)
+            kde = kale.KDE(kde_data, weights=weights)
         except:
             err = "Failed to construct KDE from given data!"
             logging.error(err)
             raise RuntimeError(err)
 
+    # Select the target parameters, in the given order
+    if len(params) != 2:
+        raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
+    data = np.vstack([kde.dataset[ii] for ii in params])
+    extrema = kde.reflect
+    if extrema is not None:
+        extrema = [extrema[ii] for ii in params]
+
     if ax is None:
         ax = plt.gca()
 
@@ -1509,7 +1510,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    edges = utils.parse_edges(data, edges=edges, extrema=extrema)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From 731ea3b356199764c64d4920b6441909a4096819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 29/93] fix: plotting with a Corner does not leak settings into
 later calls, or modify given dictionaries

---
 kalepy/plot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 753d1c3..33ec837 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -297,12 +297,15 @@ class Corner:
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
         # Set default 1D parameters
+        # NOTE: copy so that neither the given dictionaries, nor the default values, are modified
+        dist1d = dict(dist1d)
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', False)
         dist1d.setdefault('carpet', False)
         dist1d.setdefault('hist', False)
 
         # Set default 2D parameters
+        dist2d = dict(dist2d)
         dist2d.setdefault('hist', False)
         dist2d.setdefault('contour', True)
         dist2d.setdefault('scatter', False)
@@ -345,12 +348,15 @@ class Corner:
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
         # Set default 1D parameters
+        # NOTE: copy so that neither the given dictionaries, nor the default values, are modified
+        dist1d = dict(dist1d)
         dist1d.setdefault('density', False)
         dist1d.setdefault('confidence', False)
         dist1d.setdefault('carpet', False)
         dist1d.setdefault('hist', True)
 
         # Set default 2D parameters
+        dist2d = dict(dist2d)
         dist2d.setdefault('hist', True)
         dist2d.setdefault('contour', False)
         dist2d.setdefault('scatter', False)
@@ -428,12 +434,15 @@ class Corner:
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
         # Set default 1D parameters
+        # NOTE: copy so that neither the given dictionaries, nor the default values, are modified
+        dist1d = dict(dist1d)
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', True)
         dist1d.setdefault('carpet', True)
         dist1d.setdefault('hist', False)
 
         # Set default 2D parameters
+        dist2d = dict(dist2d)
         dist2d.setdefault('hist', True)
         dist2d.setdefault('scatter', True)
         dist2d.setdefault('contour', True)
@@ -529,6 +538,7 @@ class Corner:
 
         edges = utils.parse_edges(kde.dataset, edges=edges)
         # quantiles, _ = _default_quantiles(quantiles=quantiles)
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('quantiles', quantiles)
         dist2d.setdefault('quantiles', quantiles)
         dist1d.setdefault('ls', ls)
-- 
2.43.0


From 8b48fa39476a51225df72c366ad89230db9c7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 30/93] fix: Corner.hist and Corner.plot_data use the weights
 of the data

---
 kalepy/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 33ec837..0a06482 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -364,7 +364,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -645,6 +645,9 @@ class Corner:
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
+            # The stored weights correspond to the stored data
+            if weights is None:
+                weights = self._weights
 
         # If a KDE is given, extract the dataset
         kde, data, weights = _parse_kde_data(data, weights=weights)
-- 
2.43.0


From f7dc0493f62f14b8612f94ee5b123e9517824af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 31/93] fix: confidence intervals account for the weights of
 the data

---
 kalepy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 0a06482..c5b4f9f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1113,8 +1113,8 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         cdf = np.arange(data.size) / (data.size - 1)
     else:
         idx = np.argsort(data)
-        data = data[idx]
-        weights = weights[idx]
+        data = np.asarray(data)[idx]
+        weights = np.asarray(weights)[idx]
         cdf = np.cumsum(weights) / np.sum(weights)
 
     # Get both the lower (left) and upper (right) values of quantiles
@@ -1368,7 +1368,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 9a9bd3415a49c4b551ccf5a0d658d2704fa1c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 32/93] fix: lower limits of targets extend to the upper edge
 of 2D panels

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index c5b4f9f..935ceb3 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -861,7 +861,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From 6030458a0bfc53e004e0fcb615ede586c337e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 33/93] fix: smoothing is not disabled when upsampling is False

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 935ceb3..559b300 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1649,7 +1649,7 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # perform smoothing
     if (smooth not in [None, False]):
         import scipy as sp
-        if upsample is not None:
+        if upsample not in [None, False]:
             smooth *= upsample
         hist = sp.ndimage.gaussian_filter(hist, smooth)
 
-- 
2.43.0


From b066d53b4f7aa8842cc342eb226e16b1fbc54066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 34/93] fix: hist2d masks bins with less than the average
 weight, for any bin size

---
 kalepy/plot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 559b300..c9ae44c 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1768,12 +1768,15 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
-
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+    # Mask bins with less than the average weight of a data point
+    if mask_below is True:
+        mass, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        ave = 1.0 if (weights is None) else np.mean(weights)
+        hist = np.ma.masked_where(mass < 0.9 * ave, hist)
+        mask_below = False
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0


From 3b7c97c232f4fba5704e416797051ef41d361afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 35/93] fix: carpet, scatter and histogram accept any
 array_like

---
 kalepy/plot.py  | 3 +++
 kalepy/utils.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index c9ae44c..82e6205 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -988,6 +988,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     """
 
     xx = np.asarray(xx)
+    weights = weights if (weights is None) else np.asarray(weights)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
@@ -1906,6 +1907,8 @@ def draw_scatter(ax, xx, yy, alpha=None, s=4, limit=None, **kwargs):
     #     fc = ax._get_lines.get_next_color()
     # kwargs.setdefault('facecolor', color)
     # kwargs.setdefault('edgecolor', 'none')
+    xx = np.asarray(xx)
+    yy = np.asarray(yy)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting scatter points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
diff --git a/kalepy/utils.py b/kalepy/utils.py
index 1557f0f..1af2e90 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -307,7 +307,7 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
     if density:
         hist = hist.astype(float) / np.diff(edges)
     if probability:
-        tot = data.size if (weights is None) else np.sum(weights)
+        tot = np.size(data) if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
     return hist, edges
 
-- 
2.43.0


From 6e7aea615f584b3eeb52b7c74596000556aad3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 36/93] fix: histograms of weighted data choose bins
 automatically

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 1af2e90..5879812 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -302,7 +302,8 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 
 def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
-        bins = 'auto'
+        # NOTE: `np.histogram` does not choose bins automatically when `weights` are given
+        bins = np.histogram_bin_edges(data, bins='auto')
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From b7f851eeaa4a1f36e34311a73b959ae35be2b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 37/93] fix: density curves are drawn at multiple points when
 the number of bins is given

---
 kalepy/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 82e6205..729c625 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1341,7 +1341,11 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
             _alpha = alpha
 
         # Calculate KDE density distribution for the given parameter
-        xx, yy = kde.density(probability=probability, params=param, points=edges)
+        # If only the number of bins is given, calculate the locations automatically
+        points = edges
+        if (points is not None) and np.isscalar(points):
+            points = utils.parse_edges(data, edges=points)
+        xx, yy = kde.density(probability=probability, params=param, points=points)
         # rescale by value of density
         yy = yy * density
         # Plot
-- 
2.43.0


From 14c8cdb4c0f1139f2d5d711cacbc77e5c3664007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 38/93] fix: extrema (and boundaries) may be None in every
 dimension

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 5879812..6424503 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1257,7 +1257,7 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             pass
         # If jagged (D,) array
         elif len(extrema) == npars:
-            if really1d(extrema) or not np.all([(ee is None) or (len(ee) == 2) for ee in extrema]):
+            if not np.all([(ee is None) or (np.iterable(ee) and len(ee) == 2) for ee in extrema]):
                 err = "Each element of jagged `extrema` must be `None` or have length 2!"
                 raise ValueError(err)
         # Otherwise bad
-- 
2.43.0


From 53334eb0ff6063da6aef70e7788c6d3e6c4c12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 39/93] fix: from_hist accepts any array_like, single and
 uneven bins, and positional arguments

---
 kalepy/kde.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 1964c36..ce79d54 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -424,26 +424,23 @@ class KDE:
 
         """
 
+        hist = np.asarray(hist)
+
         # For one dimension
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
-            points = bins[:-1] + 0.5 * dx
+            bins = np.asarray(bins)
+            dx = np.mean(np.diff(bins))
+            points = utils.midpoints(bins)
 
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, six.string_types) and (bandwidth == 'bin width'):
                 bandwidth = dx
 
-            return KDE(
-                dataset=points,
-                weights=hist,
-                bandwidth=bandwidth,
-                *args,
-                **kwargs
-            )
+            return cls(points, bandwidth, hist, *args, **kwargs)
 
         # For multiple dimensions
         else:
@@ -455,8 +452,9 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
-                centers_i = bins_i[:-1] + 0.5 * dx
+                bins_i = np.asarray(bins_i)
+                dx = np.mean(np.diff(bins_i))
+                centers_i = utils.midpoints(bins_i)
                 centers.append(centers_i)
 
                 dx_mult *= dx
@@ -469,16 +467,10 @@ class KDE:
             points = np.meshgrid(*centers, indexing='ij')
             points = [_.flatten() for _ in points]
 
-            if bandwidth == 'bin width':
+            if isinstance(bandwidth, six.string_types) and (bandwidth == 'bin width'):
                 bandwidth = dxs
 
-            return KDE(
-                dataset=points,
-                weights=hist.flatten(),
-                bandwidth=bandwidth,
-                *args,
-                **kwargs
-            )
+            return cls(points, bandwidth, hist.flatten(), *args, **kwargs)
 
     def pdf(self, *args, **kwargs):
         kwargs['probability'] = True
-- 
2.43.0


From 9441663999e1b40ef8a78ffb17e763327c6d674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 40/93] fix: default evaluation points resolve the kernels for
 data in any units

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index ce79d54..61c0907 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -645,7 +645,7 @@ class KDE:
         extrema = self.extrema
         points = utils.parse_edges(
             self.dataset, edges=self._points, extrema=extrema, weights=self.weights,
-            nmin=3, nmax=200, pad=0, refine=self._EDGE_REFINEMENT, bw=self.bandwidth)
+            nmin=3, nmax=200, pad=0, refine=self._EDGE_REFINEMENT, bw=np.sqrt(np.fabs(self.kernel.matrix)))
 
         # If input `data` to KDE is given as 1D array, then give 1D points (instead of `(1, E)`)
         if self._squeeze:
-- 
2.43.0


From eb6b9f819de3097fdb09e36bf63d3b34e6392ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 41/93] fix: cumulative integration along one axis is only
 padded along that axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6424503..a931ef0 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -291,7 +291,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From 7df0450113eb8b3998487717822ae2dc8df25427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 42/93] fix: quantiles do not depend on values without any
 weight

---
 kalepy/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a931ef0..b822bb2 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -534,10 +534,12 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
     weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    # Values without any weight are not part of the distribution
+    good = (weights > 0.0)
     if axis is None:
-        percs = np.interp(percs, weighted_quantiles, values)
+        percs = np.interp(percs, weighted_quantiles[good], values[good])
     else:
-        percs = [np.interp(percs, weighted_quantiles[idx], values[idx])
+        percs = [np.interp(percs, weighted_quantiles[idx][good[idx]], values[idx][good[idx]])
                  for idx in np.ndindex(values.shape[:-1])]
         percs = np.array(percs)
 
-- 
2.43.0


From 87bfd1ef972ca709f285484af08a924321763cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 43/93] fix: automatic edges are finite for data or extrema
 with non-finite values

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index b822bb2..fde6298 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1072,7 +1072,8 @@ def _get_edges_1d(edges, data, extrema, ndim, nmin, nmax, pad, weights=None, ref
             np.shape(edges))
         raise ValueError(err)
 
-    _num_bins, bin_width, _span = _guess_edges(
+    # NOTE: non-finite `extrema` are replaced with those of the (finite) data
+    _num_bins, bin_width, extrema = _guess_edges(
         data, extrema=extrema, weights=weights,
         ndim=ndim, num_min=nmin, num_max=nmax, refine=refine, bw=bw)
 
-- 
2.43.0


From fbff80ca8cac3dc1cec39f55e424a3c114448a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 44/93] fix: automatic edges accept weights as any array_like

---
 kalepy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fde6298..62e08c7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1101,6 +1101,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
                 np.shape(weights), np.shape(data))
             raise ValueError(err)
 
+        weights = np.asarray(weights)
         num_eff = np.sum(weights)**2 / np.sum(weights**2)
 
     if (ndim is not None) and (num_eff > 100):
-- 
2.43.0


From 0bc951be65d61873259a5ba604123901c89b9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 45/93] fix: automatic edges of identical data are
 distinguishable from the data value

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 62e08c7..dd121a6 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1135,7 +1135,8 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
         err = "`bin_width` is not positive (w1 = {}, w2 = {})!".format(w1, w2)
         logging.warning(err)
         if np.allclose(data, data[0]):
-            bin_width = 1e-16
+            # the edges must be distinguishable from the data values at floating-point precision
+            bin_width = max(1e-16, 1e-8 * np.fabs(data[0]))
             logging.warning("WARNING: all data is identical! Choosing arbitrary `bin_width`")
         else:
             raise ValueError(err)
-- 
2.43.0


From 1a27cac64315183860bb65f529d8aa670ad24320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 46/93] fix: limits given to a Corner are not modified by
 plotting, and may be the same for all parameters

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 729c625..5bd2b4e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -247,7 +247,8 @@ class Corner:
         # If axes limits are given, set axes to them
         if limits is not None:
             limit_flag = False
-            _set_corner_axes_extrema(self.axes, limits, rotate)
+            # NOTE: stored as a new list, the given `limits` should not be modified when plotting
+            limits = list(_set_corner_axes_extrema(self.axes, limits, rotate))
         # Otherwise, prepare to calculate limits during plotting
         else:
             limits = [None] * size
-- 
2.43.0


From 2dac8fe2ee8993d6b33932bb45189d539d71cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 47/93] fix: sizes of carpet points increase with weight, for
 weights in any units or with zeros

---
 kalepy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 5bd2b4e..dbc75cf 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1016,8 +1016,9 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         ww = 1.0
     else:
         if utils.iqrange(weights, log=True) > 1:
-            weights = np.log10(weights)
-        ww = weights / np.median(weights)
+            # NOTE: relative to the smallest (positive) weight, so that sizes always increase with weight
+            weights = 1.0 + np.log10(np.clip(weights / weights[weights > 0.0].min(), 1.0, None))
+        ww = weights / np.median(weights[weights > 0.0])
 
     # General random y-values for the fuzz
     if random.lower() == 'normal':
-- 
2.43.0


From 4922ae0785f721523e334f48146b6da9c71f1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 48/93] fix: carpets can be drawn in axes with negative limits
 (e.g. more than once)

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index dbc75cf..cbc7c3d 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1003,7 +1003,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if ystd is None:
         if yave is None:
             get_lim_func = ax.get_xlim if rotate else ax.get_ylim
-            ystd = get_lim_func()[1] * 0.02
+            ystd = np.fabs(get_lim_func()[1]) * 0.02
         else:
             ystd = np.fabs(yave) / 5.0
 
-- 
2.43.0


From c9520f314042438b21358c1d5efb83bb13830274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 49/93] fix: histograms of counts (integers) can be drawn
 without joints

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index cbc7c3d..55b3e2f 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1808,7 +1808,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
         for zz in [xval, yval]:
             zz = np.atleast_2d(zz).T
             zz = np.reshape(zz, [half, 2], order='C')
-            zz = np.pad(zz, [[0, 0], [0, 1]], constant_values=np.nan)
+            zz = np.pad(zz.astype(float), [[0, 0], [0, 1]], constant_values=np.nan)
             zz = zz.reshape(size + half)
             outs.append(zz)
 
-- 
2.43.0


From 512ffb917717c52a3fc6bbc80d9bf1da59acd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 50/93] fix: jagged arrays of any depth can be tested and
 flattened

---
 kalepy/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index dd121a6..6a3e4c2 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -571,7 +571,7 @@ def really1d(arr):
     if len(arr) == 0:
         return True
     # Each element must be a scalar
-    if np.any([np.shape(tt) != () for tt in arr]):
+    if np.any([_ndim(tt) != 0 for tt in arr]):
         return False
 
     return True
@@ -585,7 +585,7 @@ def flatten(arr):
         return arr
 
     # Flatten each component and combine recursively
-    return np.concatenate([flatten(aa) for aa in arr])
+    return np.concatenate([np.atleast_1d(flatten(aa)) for aa in arr])
 
 
 def flatlen(arr):
@@ -601,10 +601,10 @@ def flatlen(arr):
 def isjagged(arr):
     """Test if the given array is jagged.
     """
-    # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
-    if np.isscalar(arr) or (np.size(arr) == flatlen(arr)):
+    if np.isscalar(arr):
         return False
-    return True
+    # The elements of a uniform array are all scalars, those of a jagged array are arrays themselves
+    return bool(np.any([_ndim(aa) != 0 for aa in np.asarray(arr, dtype=object).flat]))
 
 
 def isinteger(val, iterable=True):
-- 
2.43.0


From 507a4e9f5593633c8f7343c6405c96e2949f3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 51/93] fix: distributions with few distinct values can be
 contoured and masked

---
 kalepy/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 55b3e2f..bed4461 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1625,8 +1625,9 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles)
             span = [levels.min(), hh.max()]
             mask_cmap = mpl.colors.ListedColormap('white')
-            # Draw
-            ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
+            # Draw, unless there are no differences in density to be masked (e.g. all bins are equal)
+            if span[1] > span[0]:
+                ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
 
     return handle
 
@@ -1872,7 +1873,8 @@ def draw_contour2d(ax, edges, hist, quantiles=None, levels=None,
     kwargs.setdefault('zorder', 10)
 
     # ---- Draw contours
-    cont = ax.contour(*edges, hist, levels=levels, linewidths=lw, **kwargs)
+    # NOTE: levels can only be drawn once (they coincide for distributions with few distinct values)
+    cont = ax.contour(*edges, hist, levels=np.unique(levels), linewidths=lw, **kwargs)
 
     # ---- Add Outline path effect to contours
     if (outline is True):
-- 
2.43.0


From 4002b42446705c4593ae7c53a9b0152e0bb709a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 52/93] fix: density of a single parameter is evaluated at 1D
 points, also for 1D datasets shaped (1,N)

---
 kalepy/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 61c0907..e3385e1 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -329,7 +329,7 @@ class KDE:
         #     reflect = self._reflect
         # print(f"{np.shape(data)=}, {params=}, {reflect=}")
 
-        squeeze = False
+        squeeze = np.isscalar(params)
         if params is not None:
             if (ndim == 1):
                 if np.size(params) == 1 and np.all(np.asarray(params) == 0):
@@ -339,7 +339,6 @@ class KDE:
                     raise ValueError(err)
 
             if params is not None:
-                squeeze = np.isscalar(params)
                 params = np.atleast_1d(params)
                 if reflect is None:
                     reflect = self.reflect
@@ -370,6 +369,7 @@ class KDE:
                 grid = (len(points) > 1)
             else:
                 grid = (self.ndim > 1)
+                squeeze = squeeze and not utils.really1d(points)
         elif utils.really1d(points):
             points = np.atleast_2d(points)
             squeeze = True
-- 
2.43.0


From b41ca461122ca1f116deffb37aa02955b2f5ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 53/93] fix: a single contour can be drawn alone

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index bed4461..1b58a07 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1589,7 +1589,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             cmap=contour_cmap, zorder=20, ls=ls, outline=outline,
         )
         if handle is None:
-            hi = 1 if len(_handle.collections) > 0 else 0
+            hi = 1 if len(_handle.collections) > 1 else 0
             handle = _handle.collections[hi]
             # for some reason the above handle is not showing up on legends... create a dummy line
             # to get a better handle
-- 
2.43.0


From 5bce33c89f2544f41a0c7714c32dc4364213683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 54/93] fix: quantiles may be given for 1D or 2D distributions
 of data in a Corner

---
 kalepy/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 1b58a07..2b18011 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -677,6 +677,9 @@ class Corner:
 
         edges = utils.parse_edges(data, edges=edges)
         quantiles, _ = _default_quantiles(quantiles=quantiles)
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+        dist1d.setdefault('quantiles', quantiles)
+        dist2d.setdefault('quantiles', quantiles)
 
         #
         # Draw / Plot Data
@@ -687,7 +690,7 @@ class Corner:
         for jj, ax in enumerate(axes.diagonal()):
             rot = (rotate and (jj == last))
             self._data1d(
-                ax, edges[jj], data[jj], weights=weights, quantiles=quantiles, rotate=rot,
+                ax, edges[jj], data[jj], weights=weights, rotate=rot,
                 color=color, **dist1d
             )
             limits[jj] = utils.minmax(data[jj], stretch=self._LIMITS_STRETCH)
@@ -698,7 +701,7 @@ class Corner:
                 continue
             self._data2d(
                 ax, [edges[jj], edges[ii]], [data[jj], data[ii]], weights=weights,
-                color=color, cmap=cmap, quantiles=quantiles, **dist2d
+                color=color, cmap=cmap, **dist2d
             )
 
         # If we are setting the axes limits dynamically
-- 
2.43.0


From ab70e7c931211ce1ffc83f1d9e48646744157d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 55/93] fix: a covariance of the wrong shape is rejected
 instead of broadcast

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index e3385e1..0f654ad 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -222,6 +222,9 @@ class KDE:
         if covariance is None:
             covariance = np.cov(dataset, rowvar=True, bias=False, aweights=weights)
         self._covariance = np.atleast_2d(covariance)
+        if self._covariance.shape != (ndim, ndim):
+            err = "`covariance` (shape={}) should be shaped as ({}, {})!".format(np.shape(covariance), ndim, ndim)
+            raise ValueError(err)
 
         if bandwidth is None:
             bandwidth = _BANDWIDTH_DEFAULT
-- 
2.43.0


From 587cd3fb05b998434d416055b6cf9a022ceeb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 56/93] fix: repeated parameters are rejected instead of giving
 infinite densities

---
 kalepy/kde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 0f654ad..ece3f2a 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -343,6 +343,10 @@ class KDE:
 
             if params is not None:
                 params = np.atleast_1d(params)
+                if np.unique(params).size < params.size:
+                    err = "Cannot repeat parameters in `params` ('{}')!".format(params)
+                    raise ValueError(err)
+
                 if reflect is None:
                     reflect = self.reflect
                     if reflect is not None:
-- 
2.43.0


From e4b8f93fec80e80e2a41c3f6c07a2f21172b9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 57/93] fix: boundaries which are not a number are rejected

---
 kalepy/kernels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 0c81d51..a94527f 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -719,6 +719,10 @@ def _check_reflect(reflect, data, weights=None, helper=False):
             if reflect[ii][1] is True:
                 reflect[ii][1] = hi
 
+        if (reflect[ii] is not None) and np.any([(loc is not None) and np.isnan(loc) for loc in reflect[ii]]):
+            err = "Reflect is not a number:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
+            raise ValueError(err)
+
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
             raise ValueError(err)
-- 
2.43.0


From 0f38fbbf853a369091c981e7679390a115a916d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:05 +0000
Subject: [PATCH 58/93] fix: data which are not finite are rejected, also when
 a covariance is given

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index ece3f2a..c7bdea3 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -193,6 +193,9 @@ class KDE:
             err = "WARNING: very few data points ({}, {}), recommend providing manual `bandwidth`!".format(ndim, ndata)
             logging.warning(err)
 
+        if not np.all(np.isfinite(self._dataset)):
+            raise ValueError("Invalid `dataset` entries, all must be finite!")
+
         # Set `weights`
         # --------------------------------
         weights_uniform = True
-- 
2.43.0


From 37cf6818920652c8693e53df0f71b3f3766934c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 59/93] fix: quantiles with more weights than values are
 rejected

---
 kalepy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6a3e4c2..080ed3f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -520,6 +520,9 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    if weights.size != values.size:
+        err = "Shape of `weights` ({}) does not match `values` ({})!".format(np.shape(weights), np.shape(values))
+        raise ValueError(err)
     # Always calculate along the last axis
     if axis is not None:
         values = np.moveaxis(values, axis, -1)
-- 
2.43.0


From d34c896db82c41b86deb5079f3e31cb43ab824e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 60/93] fix: masses and edges of the wrong number of dimensions
 are rejected, also when sizes coincide

---
 kalepy/sample.py | 2 +-
 kalepy/utils.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index ddbbde7..5245e5b 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -77,7 +77,7 @@ class Sample_Grid:
         #     else:
         #         err = "Shape of `scalar` ({}) does not match `data` ({})!".format(scalar.shape, dens.shape)
         #         raise ValueError(err)
-        if (mass is not None) and np.any(np.shape(mass) != np.array(shape_bins)):
+        if (mass is not None) and (np.shape(mass) != tuple(shape_bins)):
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
 
diff --git a/kalepy/utils.py b/kalepy/utils.py
index 080ed3f..bc90304 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -846,7 +846,7 @@ def trapz_nd(data, edges, axis=None):
     if np.isscalar(edges[0]):
         edges = np.atleast_2d(edges)
     shp = [len(ee) for ee in edges]
-    if not np.all(np.array(shp) == np.shape(data)):
+    if np.shape(data) != tuple(shp):
         err = "Shape of `edges` ({}) does not match data ({})!".format(shp, np.shape(data))
         raise ValueError(err)
 
@@ -903,7 +903,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     # Make sure the lengths of the `edges` array matches the shape of `pdf`
     shp_inn = np.array([len(ed) for ed in edges])
     ndim = len(shp_inn)
-    if not np.all(np.shape(pdf) == shp_inn):
+    if np.shape(pdf) != tuple(shp_inn):
         err = "Shape of pdf ({}) does not match edges ({})!".format(np.shape(pdf), shp_inn)
         raise ValueError(err)
 
-- 
2.43.0


From 084b949421f30856d372ce4a724b56829cfb81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 61/93] fix: the covariance of data with more than two
 parameters can be removed

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc90304..18f4f38 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -658,7 +658,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.atleast_2d(np.cov(data))
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From 8299c324930a611cd0ac752fd315341d2c830768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 62/93] fix: lists of arrays of different shapes can be tested
 for jaggedness

---
 kalepy/utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 18f4f38..b7d484d 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -607,7 +607,7 @@ def isjagged(arr):
     if np.isscalar(arr):
         return False
     # The elements of a uniform array are all scalars, those of a jagged array are arrays themselves
-    return bool(np.any([_ndim(aa) != 0 for aa in np.asarray(arr, dtype=object).flat]))
+    return bool(np.any([_ndim(aa) != 0 for aa in _object_array(arr).flat]))
 
 
 def isinteger(val, iterable=True):
@@ -640,7 +640,7 @@ def isinteger(val, iterable=True):
 def jshape(arr, level=0, printout=False, prepend="", indent="  "):
     """Print the complete shape (even if jagged) of the given array.
     """
-    arr = np.asarray(arr, dtype=object)
+    arr = _object_array(arr)
     if printout:
         print(prepend + indent*level + str(np.shape(arr)))
 
@@ -1162,6 +1162,17 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
     return num_bins, bin_width, extrema
 
 
+def _object_array(arr):
+    try:
+        return np.asarray(arr, dtype=object)
+    # `numpy` cannot combine arrays of different shapes if their first dimensions match
+    except ValueError:
+        temp = np.empty(len(arr), dtype=object)
+        for ii, aa in enumerate(arr):
+            temp[ii] = aa
+        return temp
+
+
 def _guess_str_format_from_range(arr, prec=2, log_limit=2, allow_int=True):
     """
     """
@@ -1219,7 +1230,7 @@ def _ndim(vals):
         try:
             return np.ndim(vals)
         except:
-            return np.ndim(np.asarray(vals, dtype=object))
+            return np.ndim(_object_array(vals))
 
 
 def _parse_extrema(data, extrema=None, params=None, warn=True):
-- 
2.43.0


From c695552083bc34a3126f473b8cd4a0375a737f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 63/93] fix: carpets of selected points without positive
 weights have finite sizes

---
 kalepy/plot.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 2b18011..5e4c5ee 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -993,11 +993,21 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
 
     xx = np.asarray(xx)
     weights = weights if (weights is None) else np.asarray(weights)
+    # Convert weights to a linear scaling for size
+    # NOTE: this must precede the selection of points, which may not include any positive weights
+    if weights is None:
+        ww = 1.0
+    else:
+        if utils.iqrange(weights, log=True) > 1:
+            # NOTE: relative to the smallest (positive) weight, so that sizes always increase with weight
+            weights = 1.0 + np.log10(np.clip(weights / weights[weights > 0.0].min(), 1.0, None))
+        ww = weights / np.median(weights[weights > 0.0])
+
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
         xx = xx[sel]
-        weights = weights if (weights is None) else weights[sel]
+        ww = ww if (weights is None) else ww[sel]
 
     if ax is None:
         ax = plt.gca()
@@ -1014,15 +1024,6 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if yave is None:
         yave = -5.0 * ystd
 
-    # Convert weights to a linear scaling for opacity and size
-    if weights is None:
-        ww = 1.0
-    else:
-        if utils.iqrange(weights, log=True) > 1:
-            # NOTE: relative to the smallest (positive) weight, so that sizes always increase with weight
-            weights = 1.0 + np.log10(np.clip(weights / weights[weights > 0.0].min(), 1.0, None))
-        ww = weights / np.median(weights[weights > 0.0])
-
     # General random y-values for the fuzz
     if random.lower() == 'normal':
         yy = np.random.normal(yave, ystd, size=xx.size)
-- 
2.43.0


From ece5f7afa1ca3af0f1d8b0ebb7086786c73520e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 64/93] fix: midpoints of small integer (or boolean) arrays
 overflow

---
 kalepy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index b7d484d..c2f666c 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -362,6 +362,9 @@ def midpoints(arr, log=False, axis=-1, squeeze=False):
         mids = np.log10(arr)
     else:
         mids = np.array(arr)
+        # NOTE: sums of (small) integers, or booleans, could otherwise overflow
+        if mids.dtype.kind in 'biu':
+            mids = mids.astype(float)
 
     # Take the midpoints along each of the desired axes
     for ax in axis:
-- 
2.43.0


From 66cc0106b9832187c729b4919049f57ae13cd0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 65/93] fix: trapezoid integrals of small integer densities or
 edges overflow

---
 kalepy/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index c2f666c..be62846 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -861,9 +861,9 @@ def trapz_nd(data, edges, axis=None):
         axis = np.arange(ndim)[np.atleast_1d(axis)]
 
     axis = sorted(axis)[::-1]
-    tot = np.array(data)
+    tot = np.array(data, dtype=float)
     for ii in axis:
-        xx = edges[ii]
+        xx = np.asarray(edges[ii], dtype=float)
         tot = np.trapz(tot, x=xx, axis=ii)
 
     return tot
@@ -897,7 +897,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     import functools
 
     # ---- Sanitize / Process arguments
-    pdf = np.asarray(pdf)
+    pdf = np.asarray(pdf, dtype=float)
 
     # Make sure `edges` is a list/array of list/arrays
     if np.isscalar(edges[0]):
@@ -934,7 +934,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
         dim_len_inn = shp_inn[ii]
         if ii in axis:
             shp_out[ii] = dim_len_inn - 1
-            wid = np.diff(edges[ii])
+            wid = np.diff(np.asarray(edges[ii], dtype=float))
         else:
             shp_out[ii] = dim_len_inn
             wid = np.ones(dim_len_inn)
-- 
2.43.0


From 5bc3db97123be176120c6f655301217eb2df039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 66/93] fix: gradients of unsigned (or small) integer grids
 overflow in sampling

---
 kalepy/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 5245e5b..32f93d9 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -491,7 +491,7 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
 
 
 def _grad_along(data_edge, dim):
-    grad = np.diff(data_edge, axis=dim)
+    grad = np.diff(np.asarray(data_edge, dtype=float), axis=dim)
     nums = list(np.arange(grad.ndim))
     nums.pop(dim)
     grad = utils.midpoints(grad, log=False, axis=nums)
-- 
2.43.0


From 08f088034d4e310cb727334919870894766ca72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 67/93] fix: effective number for automatic edges overflows
 with small integer weights

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index be62846..a6195a9 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1107,7 +1107,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
                 np.shape(weights), np.shape(data))
             raise ValueError(err)
 
-        weights = np.asarray(weights)
+        weights = np.asarray(weights, dtype=float)
         num_eff = np.sum(weights)**2 / np.sum(weights**2)
 
     if (ndim is not None) and (num_eff > 100):
-- 
2.43.0


From d4b9b94d234ce9b68fe81b59d9e545f63ee19f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 68/93] fix: histogram with small integer weights overflows

---
 kalepy/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a6195a9..6d529dd 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -304,6 +304,10 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
         # NOTE: `np.histogram` does not choose bins automatically when `weights` are given
         bins = np.histogram_bin_edges(data, bins='auto')
+    if weights is not None:
+        # NOTE: sums of small integers could otherwise overflow
+        weights = np.asarray(weights)
+        weights = weights.astype(np.result_type(weights, int))
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From a014e44ae0a489219596cdc752d197537150c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 69/93] fix: bin widths of small integer edges overflow in
 sampling and centroids

---
 kalepy/sample.py | 2 +-
 kalepy/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 32f93d9..9030ec4 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -55,7 +55,7 @@ class Sample_Grid:
         # for 1D data, allow `edges` to be a 1D array;  convert manually to list of array
         if ndim == 1 and utils.really1d(edges):
             edges = [edges]
-        edges = [np.asarray(ee) for ee in edges]
+        edges = [np.asarray(ee, dtype=float) for ee in edges]
         if len(edges) != ndim:
             err = "`edges` (len(edges)={}) must be a 1D array for each dimension of `dens` (dens.shape={})!".format(
                 len(edges), dens.shape)
diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6d529dd..b885cd3 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -149,7 +149,7 @@ def centroids(edges, data):
         y1, y2 = np.sum(zz, axis=tuple(jj))
 
         # bin width in this dimension, for each bin
-        dx = np.diff(edges[ii])
+        dx = np.diff(np.asarray(edges[ii], dtype=float))
         # make `dx` broadcastable to the same shape as bins (i.e. `shp_bins`)
         cut = [np.newaxis for dd in range(ndim-1)]
         cut.insert(ii, slice(None))
-- 
2.43.0


From 61f84d54d9a91a94bc8fb135653b4a7cca69c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 70/93] fix: logarithms of small integers are taken at half
 precision

---
 kalepy/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index b885cd3..55fb90a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -363,7 +363,7 @@ def midpoints(arr, log=False, axis=-1, squeeze=False):
 
     # Convert to log-space
     if log:
-        mids = np.log10(arr)
+        mids = np.log10(arr, dtype=float)
     else:
         mids = np.array(arr)
         # NOTE: sums of (small) integers, or booleans, could otherwise overflow
@@ -484,7 +484,7 @@ def parse_edges(data, edges=None, extrema=None, weights=None, params=None,
 def iqrange(data, log=False, weights=None):
     """Calculate inter-quartile range of the given data."""
     if log:
-        data = np.log10(data)
+        data = np.log10(data, dtype=float)
     iqr = np.subtract(*quantiles(data, percs=[0.75, 0.25], weights=weights))
     return iqr
 
@@ -769,7 +769,7 @@ def stats_str(data, percs=[0.0, 0.16, 0.50, 0.84, 1.00], ave=False, std=False, w
     data = np.array(data)
 
     if log:
-        data = np.log10(data)
+        data = np.log10(data, dtype=float)
 
     percs = np.atleast_1d(percs)
 
@@ -835,7 +835,7 @@ def subdivide(xx, num=1, log=False):
     """
     div = np.asarray(xx)
     if log:
-        div = np.log10(div)
+        div = np.log10(div, dtype=float)
 
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
-- 
2.43.0


From ab8da4099b15eae55e9fcd5bd5d6ce16ae206002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 71/93] fix: weighted quantiles of equal values depend on the
 order of the data

---
 kalepy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 55fb90a..fb377eb 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -538,7 +538,10 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
-        sorter = np.argsort(values, axis=axis)
+        # Equal values are ordered by weight, so that the order of the input does not matter
+        if axis is None:
+            weights = weights.flatten()
+        sorter = np.lexsort((weights, values), axis=-1)
         values = np.take_along_axis(values, sorter, axis=axis)
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
-- 
2.43.0


From 7de3e14172c346a267edc13a9958b887d0923b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 72/93] fix: confidence bands of equal values depend on the
 order of the data

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 5e4c5ee..cb06031 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1119,7 +1119,8 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         data = np.sort(data)
         cdf = np.arange(data.size) / (data.size - 1)
     else:
-        idx = np.argsort(data)
+        # Equal values are ordered by weight, so that the order of the input does not matter
+        idx = np.lexsort((weights, data))
         data = np.asarray(data)[idx]
         weights = np.asarray(weights)[idx]
         cdf = np.cumsum(weights) / np.sum(weights)
-- 
2.43.0


From 0cf13597c3df30f393c683135533aaeb0b3848dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 73/93] fix: correlating with a covariance of small integers is
 done at single precision

---
 kalepy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fb377eb..3ab8a34 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -15,7 +15,7 @@ import scipy.linalg  # noqa
 
 def add_cov(data, cov):
     try:
-        color_mat = sp.linalg.cholesky(cov)
+        color_mat = sp.linalg.cholesky(np.asarray(cov, dtype=float))
     except Exception:
         logging.error("Cholesky decomposition failed!")
         logging.error("cov matrix: {}".format(cov))
@@ -669,7 +669,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 def rem_cov(data, cov=None):
     if cov is None:
         cov = np.atleast_2d(np.cov(data))
-    color_mat = sp.linalg.cholesky(cov)
+    color_mat = sp.linalg.cholesky(np.asarray(cov, dtype=float))
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
     return white_data
-- 
2.43.0


From f936f5ddfb809f0c0a8e7a220d495661f866f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 74/93] fix: carpets and confidence bands with a given color
 advance the color-cycle of the axes

---
 kalepy/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index cb06031..2df6b87 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1054,7 +1054,10 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         size = (size / 1.5) * (1.5 + dev)
 
     # Set parameters
-    color = kwargs.pop('color', _get_next_color(ax))
+    # NOTE: only advance the color-cycle of the axes when no color is given
+    color = kwargs.pop('color', None)
+    if color is None:
+        color = _get_next_color(ax)
     kwargs.setdefault('facecolor', color)
     kwargs.setdefault('edgecolor', 'none')
     kwargs.setdefault('marker', '.')
@@ -1109,7 +1112,10 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
     if ax is None:
         ax = plt.gca()
 
-    color = kwargs.pop('color', _get_next_color(ax))
+    # NOTE: only advance the color-cycle of the axes when no color is given
+    color = kwargs.pop('color', None)
+    if color is None:
+        color = _get_next_color(ax)
     kwargs['facecolor'] = color
     kwargs['edgecolor'] = 'none'
     kwargs.setdefault('alpha', 0.1)
-- 
2.43.0


From 69c5a7157d6ca36b2d9321aa090474f9bb4dd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 75/93] fix: colormaps given together with a color (or to a
 Corner) are ignored

---
 kalepy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 2df6b87..ae25c46 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2200,13 +2200,14 @@ def _parse_color_cmap(ax=None, color=None, cmap=None):
             ax = plt.gca()
         color = _get_next_color(ax)
         cmap = _color_to_cmap(color)
-    elif (color is None):
+    elif (cmap is not None):
         try:
             cmap = plt.get_cmap(cmap)
         except ValueError:
             cmap = mpl.colors.ListedColormap(cmap)
 
-        color = cmap(0.5)
+        if color is None:
+            color = cmap(0.5)
     else:
         cmap = _color_to_cmap(color)
 
-- 
2.43.0


From 4b826259c2c10f5bdb6cbfdd0fbe323fc7ac9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 76/93] fix: dist1d with only a carpet returns a tuple which is
 not a handle

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index ae25c46..91847bb 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1392,7 +1392,8 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Carpet Plot
     if carpet is not None:
-        hh = _carpet(data, weights=weights, ax=ax, color=color, rotate=rotate, limit=carpet)
+        # NOTE: the second return value is the extrema of the carpet, only the artist is a handle
+        hh, _ = _carpet(data, weights=weights, ax=ax, color=color, rotate=rotate, limit=carpet)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 633400de2661c2c65cd58dc04b87fcfc6b00ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 77/93] fix: the point sizes of carpets depend on the number of
 points with zero weight

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 91847bb..d83c24d 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -998,7 +998,8 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if weights is None:
         ww = 1.0
     else:
-        if utils.iqrange(weights, log=True) > 1:
+        # NOTE: the (logarithmic) range is that of the positive weights, points with zero weight do not count
+        if utils.iqrange(weights[weights > 0.0], log=True) > 1:
             # NOTE: relative to the smallest (positive) weight, so that sizes always increase with weight
             weights = 1.0 + np.log10(np.clip(weights / weights[weights > 0.0].min(), 1.0, None))
         ww = weights / np.median(weights[weights > 0.0])
-- 
2.43.0


From 43ed1ec92874dd81affc11aed88d363d1e59e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 78/93] fix: corner plots in a given figure adjust the layout
 of the current figure instead

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d83c24d..1d5f0be 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2028,7 +2028,7 @@ def _figax(size, fig=None, grid=True, left=None, bottom=None, right=None, top=No
 
     axes = fig.subplots(squeeze=False, ncols=size, nrows=size, **kwargs)
 
-    plt.subplots_adjust(
+    fig.subplots_adjust(
         left=left, bottom=bottom, right=right, top=top, hspace=hspace, wspace=wspace
     )
     if grid is True:
-- 
2.43.0


From ebf77a73b636513226920e5b8e4cb682f1656115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 79/93] fix: rescaling the bandwidth of each dimension makes
 the bandwidth matrix asymmetric

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index c7bdea3..242d5f5 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -735,6 +735,9 @@ class KDE:
 
         # Rescale the bandwidth matrix
         if bw_rescale is not None:
+            # If a factor is given for each dimension, the bandwidth matrix must remain symmetric
+            if np.shape(bw_rescale) == (ndim,):
+                bw_rescale = np.sqrt(np.outer(bw_rescale, bw_rescale))
             bwr = np.atleast_2d(bw_rescale)
             bandwidth = bwr * bandwidth
             if self._helper:
-- 
2.43.0


From 4c4af724a69f871ebf07dcc1980d5ec0d69dcf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 80/93] fix: the median and confidence bands of weighted data
 are offset by half a weight

---
 kalepy/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 1d5f0be..efccdbc 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1130,7 +1130,11 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         idx = np.lexsort((weights, data))
         data = np.asarray(data)[idx]
         weights = np.asarray(weights)[idx]
-        cdf = np.cumsum(weights) / np.sum(weights)
+        # Half of the weight of each point is below its value, and half of it above
+        cdf = (np.cumsum(weights) - 0.5 * weights) / np.sum(weights)
+        # Values without any weight are not part of the distribution
+        good = (weights > 0.0)
+        data, cdf = data[good], cdf[good]
 
     # Get both the lower (left) and upper (right) values of quantiles
     quantiles, _ = _default_quantiles(quantiles=quantiles)
-- 
2.43.0


From c4fa5cfd1f6854bdaa6769702d9e807c319fea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 81/93] fix: corner plots show grid lines although they are
 turned off

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index efccdbc..9473728 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -182,7 +182,8 @@ class Corner:
                 ax.set_visible(False)
                 continue
 
-            ax.grid(True)
+            if kwfig.get('grid', True) not in (False, None):
+                ax.grid(True)
 
             # Bottom row
             if ii == last:
-- 
2.43.0


From a09a51aa38db0c1d338d56dd6d7904769d509505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 82/93] fix: boundaries given as numpy booleans are rejected,
 or taken for positions

`reflect=[np.True_, None]` was taken for a boundary at 1.0.
---
 kalepy/kernels.py | 12 ++++++------
 kalepy/utils.py   |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index a94527f..a029379 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -671,7 +671,7 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is None:
         return reflect
 
-    if reflect is False:
+    if utils._is_bool(reflect) and not reflect:
         return None
 
     # NOTE: FIX: Should this happen in the method that calls `_check_reflect`?
@@ -679,7 +679,7 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     # ndim, nval = np.shape(data)
     data = np.asarray(data)
     ndim, nval = data.shape
-    if reflect is True:
+    if utils._is_bool(reflect):
         reflect = [True for ii in range(ndim)]
 
     # Make sure the input object is not modified in-place
@@ -695,7 +695,7 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         raise ValueError(err)
 
     try:
-        goods = [(ref is None) or (ref is True) or (len(ref) == 2) for ref in reflect]
+        goods = [(ref is None) or (utils._is_bool(ref) and ref) or (len(ref) == 2) for ref in reflect]
     except TypeError as err:
         err = "Invalid `reflect` argument: Error: '{}'".format(err)
         raise ValueError(err)
@@ -711,12 +711,12 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         # Pad outwards from the extrema of the data (which may be negative)
         lo, hi = np.min(data[ii]), np.max(data[ii])
         lo, hi = lo - _NUM_PAD*np.fabs(lo), hi + _NUM_PAD*np.fabs(hi)
-        if (reflect[ii] is True):
+        if utils._is_bool(reflect[ii]):
             reflect[ii] = [lo, hi]
         elif (reflect[ii] is not None) and (True in reflect[ii]):
-            if reflect[ii][0] is True:
+            if utils._is_bool(reflect[ii][0]) and reflect[ii][0]:
                 reflect[ii][0] = lo
-            if reflect[ii][1] is True:
+            if utils._is_bool(reflect[ii][1]) and reflect[ii][1]:
                 reflect[ii][1] = hi
 
         if (reflect[ii] is not None) and np.any([(loc is not None) and np.isnan(loc) for loc in reflect[ii]]):
diff --git a/kalepy/utils.py b/kalepy/utils.py
index 3ab8a34..aa9761d 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -620,6 +620,11 @@ def isjagged(arr):
     return bool(np.any([_ndim(aa) != 0 for aa in _object_array(arr).flat]))
 
 
+def _is_bool(val):
+    """Test whether the given variable is a boolean, of either python or numpy."""
+    return isinstance(val, (bool, np.bool_))
+
+
 def isinteger(val, iterable=True):
     """Test whether the given variable is an integer (i.e. `numbers.integral` subclass).
 
-- 
2.43.0


From a621b35259a424ec95830c0f220110a093e228fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 83/93] fix: numpy booleans given to plotting functions are
 taken for numbers

`scatter=np.True_` drew a single point, `mask_below=np.True_` hid bins below
one, `density=np.False_` drew the density, others were rejected.
---
 kalepy/plot.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9473728..188e3ad 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1343,7 +1343,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw PDF from KDE
     handle = None     # variable to store a plotting 'handle' from one of the plotted objects
-    if density is not False:
+    if density:
         if kde is None:
             try:
                 kde = kale.KDE(data, weights=weights)
@@ -1552,7 +1552,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-    if mask_below is True:
+    if utils._is_bool(mask_below) and mask_below:
         mask_below = levels.min()
 
     # ---- Draw components
@@ -1653,7 +1653,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
 def _prep_hist(edges, hist, smooth, upsample, pad):
     # Pad Histogram for Smoother Contour Edges
     if pad not in [False, None]:
-        if pad is True:
+        if utils._is_bool(pad):
             pad = _PAD
         edges, hist = _pad_hist(edges, hist, pad)
 
@@ -1666,7 +1666,7 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # Perform upsampling
     if (upsample not in [None, False]):
         import scipy as sp
-        if upsample is True:
+        if utils._is_bool(upsample):
             upsample = 2
         xx = sp.ndimage.zoom(xx, upsample)
         yy = sp.ndimage.zoom(yy, upsample)
@@ -1798,7 +1798,7 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
     # Mask bins with less than the average weight of a data point
-    if mask_below is True:
+    if utils._is_bool(mask_below) and mask_below:
         mass, *_ = np.histogram2d(*data, bins=edges, weights=weights)
         ave = 1.0 if (weights is None) else np.mean(weights)
         hist = np.ma.masked_where(mass < 0.9 * ave, hist)
@@ -1895,7 +1895,7 @@ def draw_contour2d(ax, edges, hist, quantiles=None, levels=None,
     cont = ax.contour(*edges, hist, levels=np.unique(levels), linewidths=lw, **kwargs)
 
     # ---- Add Outline path effect to contours
-    if (outline is True):
+    if utils._is_bool(outline) and outline:
         # If multiple linewidths were specified, add outlines individually
         if (not np.isscalar(lw)) and (len(cont.collections) == len(lw)):
             for line, _lw in zip(cont.collections, lw):
@@ -1915,7 +1915,7 @@ def draw_contour2d(ax, edges, hist, quantiles=None, levels=None,
             outline = _get_outline_effects(2*LW, alpha=1 - np.sqrt(1 - alpha))
             plt.setp(cont.collections, path_effects=outline)
 
-    elif (outline is not False):
+    elif not utils._is_bool(outline):
         raise ValueError("`outline` must be either 'True' or 'False'!")
 
     if cbar is not None:
@@ -2036,10 +2036,8 @@ def _figax(size, fig=None, grid=True, left=None, bottom=None, right=None, top=No
     fig.subplots_adjust(
         left=left, bottom=bottom, right=right, top=top, hspace=hspace, wspace=wspace
     )
-    if grid is True:
-        grid = dict(alpha=0.2, color='0.5', lw=0.5)
-    elif grid is False:
-        grid = None
+    if utils._is_bool(grid):
+        grid = dict(alpha=0.2, color='0.5', lw=0.5) if grid else None
 
     for idx, ax in np.ndenumerate(axes):
         if grid is not None:
@@ -2266,10 +2264,10 @@ def _cut_colormap(cmap, min=0.0, max=1.0, n=10):
 
 
 def _scatter_limit(scatter, name):
-    if scatter is True:
-        scatter = np.inf
-    elif (scatter is False) or (scatter is None):
-        scatter = None
+    if scatter is None:
+        pass
+    elif utils._is_bool(scatter):
+        scatter = np.inf if scatter else None
     else:
         try:
             scatter = int(scatter)
-- 
2.43.0


From 830b9e0bd468dde7818afbb57f3be59db25f0331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 84/93] fix: the transparency given to `dist1d` is ignored by
 density curves

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 188e3ad..ad597a2 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1354,7 +1354,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
         # If histogram is also being plotted (as a solid line) use a dashed line
         if ls is None:
             _ls = '--' if hist else '-'
-            _alpha = 0.8 if hist else 0.8
+            _alpha = 0.8 if (alpha is None) else alpha
         else:
             _ls = ls
             _alpha = alpha
-- 
2.43.0


From b380f8a3e8b29b1cb5c6c0b1d84afd089f5f06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 85/93] fix: warnings of the whole process were disabled
 permanently when called from several threads at once (`utils._ndim`)

---
 kalepy/utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index aa9761d..e3e1f39 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1239,13 +1239,11 @@ def _python_environment():
 
 
 def _ndim(vals):
-    import warnings
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
-        try:
-            return np.ndim(vals)
-        except:
-            return np.ndim(_object_array(vals))
+    # NOTE: do not use `warnings.catch_warnings` here, it is not thread-safe (and can change the filters permanently)
+    try:
+        return np.ndim(vals)
+    except:
+        return np.ndim(_object_array(vals))
 
 
 def _parse_extrema(data, extrema=None, params=None, warn=True):
-- 
2.43.0


From 691852f61197cc90d66cac4779cb1f8cc9ed4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 86/93] fix: invalid percentiles, limits and previous ranges
 were accepted when python is run with `-O`

---
 kalepy/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index e3e1f39..893849e 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -383,10 +383,10 @@ def midpoints(arr, log=False, axis=-1, squeeze=False):
 
 
 def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limit=None):
-    if prev is not None:
-        assert len(prev) == 2, "`prev` must have length 2."
-    if limit is not None:
-        assert len(limit) == 2, "`limit` must have length 2."
+    if (prev is not None) and (len(prev) != 2):
+        raise ValueError("`prev` must have length 2.")
+    if (limit is not None) and (len(limit) != 2):
+        raise ValueError("`limit` must have length 2.")
 
     # Select only positive values (e.g. for log-scales)
     if positive:
@@ -535,7 +535,8 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         values = np.moveaxis(values, axis, -1)
         weights = np.moveaxis(weights, axis, -1)
         axis = -1
-    assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
+    if not (np.all(percs >= 0.0) and np.all(percs <= 1.0)):
+        raise ValueError('percentiles must be in [0, 1]')
 
     if not values_sorted:
         # Equal values are ordered by weight, so that the order of the input does not matter
-- 
2.43.0


From 4ad01b0af697aa0e022d9d61ba51ff86e307a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 87/93] fix: quantiles (and confidence intervals) of many
 values, or weights, in reduced precision were wrong

---
 kalepy/plot.py  | 2 +-
 kalepy/utils.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index ad597a2..cc86958 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1130,7 +1130,7 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         # Equal values are ordered by weight, so that the order of the input does not matter
         idx = np.lexsort((weights, data))
         data = np.asarray(data)[idx]
-        weights = np.asarray(weights)[idx]
+        weights = np.asarray(weights, dtype=float)[idx]
         # Half of the weight of each point is below its value, and half of it above
         cdf = (np.cumsum(weights) - 0.5 * weights) / np.sum(weights)
         # Values without any weight are not part of the distribution
diff --git a/kalepy/utils.py b/kalepy/utils.py
index 893849e..05bbd26 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -526,7 +526,8 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     percs = np.array(percs)
     if weights is None:
         weights = np.ones_like(values)
-    weights = np.array(weights)
+    # NOTE: cumulative sums would otherwise be inaccurate, or saturate, in lower precisions
+    weights = np.array(weights, dtype=float)
     if weights.size != values.size:
         err = "Shape of `weights` ({}) does not match `values` ({})!".format(np.shape(weights), np.shape(values))
         raise ValueError(err)
-- 
2.43.0


From 93c996c109c21808deddb8faf3939b9aec39b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 88/93] fix: `draw_contour2d` and `draw_hist2d` failed for
 histograms of integers, or given as lists

---
 kalepy/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index cc86958..9f0250e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1651,6 +1651,9 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
 
 
 def _prep_hist(edges, hist, smooth, upsample, pad):
+    # NOTE: integers (e.g. counts) could otherwise not be normalized, and would be rounded when smoothed
+    hist = np.asanyarray(hist, dtype=float)
+
     # Pad Histogram for Smoother Contour Edges
     if pad not in [False, None]:
         if utils._is_bool(pad):
@@ -1861,6 +1864,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
 
 
 def draw_hist2d(ax, edges, hist, mask_below=None, **kwargs):
+    hist = np.asanyarray(hist)
     if mask_below not in [False, None]:
         hist = np.ma.masked_less_equal(hist, mask_below)
     kwargs.setdefault('shading', 'auto')
-- 
2.43.0


From e1dcf5bd77c1f744ab8e4d9ae9c737a39f934451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 89/93] fix: parameters repeated with negative indices were not
 rejected

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 242d5f5..511c754 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -346,7 +346,7 @@ class KDE:
 
             if params is not None:
                 params = np.atleast_1d(params)
-                if np.unique(params).size < params.size:
+                if np.unique(np.arange(ndim)[params]).size < params.size:
                     err = "Cannot repeat parameters in `params` ('{}')!".format(params)
                     raise ValueError(err)
 
-- 
2.43.0


From 9145fa953d047fdefd2b630d3a28a1fbfeeda835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 90/93] fix: intervals and contours enclosing all of the data
 divided by zero

---
 kalepy/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9f0250e..af28766 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2158,7 +2158,9 @@ def _default_quantiles(quantiles=None, sigmas=None):
         quantiles = 1.0 - np.exp(-0.5 * np.square(sigmas))
     elif sigmas is None:
         quantiles = np.atleast_1d(quantiles)
-        sigmas = np.sqrt(-2.0 * np.log(1.0 - quantiles))
+        # NOTE: the number of standard-deviations is infinite for all (i.e. 1.0) of the data
+        with np.errstate(divide='ignore'):
+            sigmas = np.sqrt(-2.0 * np.log(1.0 - quantiles))
 
     return quantiles, sigmas
 
-- 
2.43.0


From 64f3eae72958757f2e452f43b767846f89398eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 91/93] fix: confidence intervals of a single data point
 divided by zero

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index af28766..11247c1 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1125,7 +1125,7 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
     # Calculate Cumulative Distribution Function
     if weights is None:
         data = np.sort(data)
-        cdf = np.arange(data.size) / (data.size - 1)
+        cdf = np.arange(data.size) / max(data.size - 1, 1)
     else:
         # Equal values are ordered by weight, so that the order of the input does not matter
         idx = np.lexsort((weights, data))
-- 
2.43.0


From 6bedfe34e4716152a15097a2948ca9a09a7e8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 92/93] fix: fancy carpets of identical values were placed at
 NaN, i.e. not drawn

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 11247c1..f2aacbd 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1047,7 +1047,8 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     # Try to make point sizes proportional to 'outlier'-ness... EXPERIMENTAL
     if fancy:
         # Estimate the deviation of each point from the median
-        dev = np.fabs(xx - np.median(xx)) / np.std(xx)
+        std = np.std(xx)
+        dev = np.fabs(xx - np.median(xx)) / (std if (std > 0.0) else 1.0)
         # Extend deviation based on weighting
         dev *= ww
         # Rescale the y-values based on their deviation from median
-- 
2.43.0


From 37b428e7fd9ba3907a24c8e47cc93a8f28d1facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 93/93] fix: limits shared by all parameters were taken apart
 in corner plots of two parameters

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index f2aacbd..ec7beea 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1985,7 +1985,7 @@ def _set_corner_axes_extrema(axes, extrema, rotate, pdf=None):
     if not np.all([sh == npar for sh in np.shape(axes)]):
         raise ValueError("`axes` (shape: {}) must be square!".format(np.shape(axes)))
 
-    if len(extrema) == 2 and npar != 2:
+    if len(extrema) == 2 and utils.really1d(extrema):
         extrema = [extrema] * npar
 
     if len(extrema) != npar:
-- 
2.43.0

