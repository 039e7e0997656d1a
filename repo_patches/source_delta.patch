From 701bc041264bfa7ae0528c3ea72dcc9f68197fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 01/22] fix: raise ValueError for out of range 1D far-field
 sources

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From a77fbd235c183d21c50dde7c612f22a93aaab425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 02/22] fix: make NearField2DSearchGrid instantiable by
 implementing create_refined_grid_at

---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..20750a9 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -414,7 +414,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From e22b9f7a65fafa54f9debccd5d10bf0473315fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 03/22] fix: build the axis of a multi-segment 1D far-field
 grid from all segments

---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 20750a9..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 528f41030d38e723faee77f2d0d6607727df4d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 04/22] fix: do not apply the row weights twice to overlapping
 subarrays in ESPRIT

---
 doatools/estimation/esprit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..664c5cd 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,8 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From c1dbf6ed40d9f40d4ae570e5bb2892b302e2c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 05/22] fix: accept the largest minimum redundancy preset

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..f9b5d4f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From bb1759b67db9dad51c7c231db699835a7a5e7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 06/22] fix: forward keyword arguments of UniformCircularArray

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index f9b5d4f..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From def667ec692baff25cfdeca8c45829099dcc0215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 07/22] fix: fix scalar amplitudes of RandomPhaseSignal

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From e34ca85d966e613322ecb5fee57bb1d08e05238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 08/22] fix: accept lists of gain and phase errors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From 35cd3f98e313c85a891dcbbcfd8aaff8716f0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 09/22] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From 046283ded816cce81f380539d8d65e726603fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 10/22] fix: check both dimensions of the covariance matrix

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From b4115aa1836217443d94c74a90f65d181f47644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 11/22] fix: evaluate the stochastic negative log-likelihood
 for covariances with determinant below one

---
 doatools/estimation/ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..dd6dbbc 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,9 +11,9 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn <= 0:
         return np.Inf
-    return logdet + np.trace(np.linalg.solve(S, R))
+    return logdet + np.trace(np.linalg.solve(S, R)).real
 
 class CovarianceBasedMLEstimator(ABC):
     """Abstract base class for covariance based maximum-likelihood estimators.
-- 
2.43.0


From 2748b5c9a3e49fc857671a3aa1a87096a5bd130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 12/22] fix: detect location errors when plotting arrays

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From 487f4c564a42f8c11b062cfcb9c00e91beae779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 13/22] fix: plot 1D spectra on the given axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From b6a97ed0368acdafb91cd98e212c83caadb48a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 14/22] fix: include the output size of the elements in
 ArrayDesign.output_size

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..b1d2b3b 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From dfae76390de2cd09116a10aecbbd3e7e9f217a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 15/22] fix: use the spacing of the array for the virtual ULA
 in ecov_coarray_music_1d

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From ebd1bb58c4f59fa27b0f432ef7be313d75637b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 16/22] fix: store source locations as floating point numbers

---
 doatools/model/sources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..eb1951c 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,9 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        if not np.issubdtype(locations.dtype, np.inexact):
+            # Estimated and refined locations are not integers in general.
+            locations = locations.astype(np.float64)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From 7fe430ffced51f4caf5d329a30096fd4f964807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 17/22] fix: support location errors for arrays with integer
 nominal locations

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..da8f2f7 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -154,13 +154,13 @@ class LocationErrors(ArrayPerturbation):
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(np.result_type(locations, self._params))
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(np.result_type(locations, self._params))
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From 55df3edca5da2097a4c13295f97c09bf52a092a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 18/22] fix: return an empty index vector for empty inputs of
 unique_rows

---
 doatools/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 56c298f..646738a 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -125,7 +125,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     n, m = x.shape
     # Handle the empty case
     if n == 0:
-        return (x.copy(), np.zeros((0, m))) if return_index else x.copy()
+        return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
     xmin, xmax = np.nanmin(x), np.nanmax(x)
     tol = atol + rtol * max(abs(xmin), abs(xmax))
-- 
2.43.0


From f5d293cdf62a3ec4d5d05af5f6c19ae3c60ba4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 19/22] fix: name the virtual ULA of an array without a name

---
 doatools/estimation/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index ee9d3e5..fde2eeb 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -50,7 +50,7 @@ class CoarrayACMBuilder1D:
             ~doatools.model.arrays.UniformLinearArray: A uniform linear array
             corresponding to the augmented covariance matrix.
         """
-        if name is None:
+        if name is None and self._array.name is not None:
             name = 'Virtual ULA of ' + self._array.name
         return UniformLinearArray(self.output_size, self._array.d0, name)
 
-- 
2.43.0


From 470c074d248866441e805aa0c10e5207a768f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 20/22] fix: keep one root of each pair on the unit circle in
 root-MUSIC

---
 doatools/estimation/music.py | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..e5d3da1 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -156,30 +156,11 @@ class RootMUSIC1D:
         coeff = np.hstack((coeff[::-1], np.sum(np.diag(C)), coeff.conj()))
         # Find the roots of the polynomial.
         z = np.roots(coeff)
-        # Find k points inside the unit circle that are also closest to the unit
-        # circle.
-        nz = len(z)
-        mask = np.ones((nz,), dtype=np.bool_)
-        for i in range(nz):
-            absz = abs(z[i])
-            if absz > 1.0:
-                # Outside the unit circle.
-                mask[i] = False
-            elif absz == 1.0:
-                # On the unit circle. Need to find the closest point and remove
-                # it.
-                idx = -1
-                dist = np.inf
-                for j in range(nz):
-                    if j != i and mask[j]:
-                        cur_dist = abs(z[i] - z[j])
-                        if cur_dist < dist:
-                            dist = cur_dist
-                            idx = j
-                if idx < 0:
-                    raise RuntimeError('Unpaired point found on the unit circle, which is impossible.')
-                mask[idx] = False
-        z = z[mask]
+        # The roots form conjugate reciprocal pairs. Keep one root of each pair:
+        # the m - 1 roots inside or on the unit circle. Comparing the moduli
+        # with one instead would lose or duplicate the pairs on the unit circle.
+        z = z[np.argsort(np.abs(z))[:m-1]]
+        # Find the k points that are also closest to the unit circle.
         sorted_indices = np.argsort(1.0 - np.abs(z))
         if len(z) < k:
             return False, None
-- 
2.43.0


From 36d2149da4d2c282139803b27e950662c8d4a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 21/22] fix: power block of the Fisher information in
 crb_stouc_farfield_1d

---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From acba258d620dd897be29b2aa5df7df50e2489dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:18 +0000
Subject: [PATCH 22/22] fix: spatial_smooth raised a casting error for
 covariance matrices of integers

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0

