From 03708f20ba51897320751f44e411e9ad87a9b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 01/27] fix: energy bins wider than the simulated range contain
 all showers, not more

calculate_n_showers_per_energy only clipped one edge of a bin that sticks out
of the simulated range on both sides, so such a bin got more than n_showers.
---
 pyirf/simulations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d7f6c3b..ef8a985 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -112,6 +112,9 @@ class SimulatedEventsInfo:
             self.spectral_index, e_min, e_high[mask], e_min, e_max
         )
 
+        # bins that contain the whole simulated range
+        integral[(e_low <= e_min) & (e_high >= e_max)] = 1
+
         return self.n_showers * integral
 
     def calculate_n_showers_per_fov(self, fov_bins):
-- 
2.43.0


From f58002ba349fe0e8c8090bc5ac722f2d354e542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 02/27] fix: support the allowed spectral index of -1

SimulatedEventsInfo accepts a spectral index of -1, but the closed forms of the
integral over the power law divide zero by zero there and gave nan.
---
 pyirf/simulations.py | 3 +++
 pyirf/spectral.py    | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index ef8a985..0713312 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -298,6 +298,9 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     e_max = e_max.to_value(u.TeV)
 
     int_index = index + 1
+    if int_index == 0:
+        return np.log(e_high / e_low) / np.log(e_max / e_min)
+
     normalization = 1 / (e_max ** int_index - e_min ** int_index)
     e_term = e_high ** int_index - e_low ** int_index
     return e_term * normalization
diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index ffdd917..d8d66c0 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -132,8 +132,12 @@ class PowerLaw:
 
         A = np.pi * simulated_event_info.max_impact**2
 
-        delta = e_max ** (index + 1) - e_min ** (index + 1)
-        nom = (index + 1) * e_ref**index * n_showers
+        if index == -1:
+            delta = np.log((e_max / e_min).to_value(u.one))
+            nom = e_ref**index * n_showers
+        else:
+            delta = e_max ** (index + 1) - e_min ** (index + 1)
+            nom = (index + 1) * e_ref**index * n_showers
         denom = (A * obstime * solid_angle) * delta
 
         return cls(
-- 
2.43.0


From ad30f92c8eec234b908c1f95e921989bd3354fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 03/27] fix: share showers between position angle bins by their
 width

calculate_n_showers_3d_polar gave every position angle bin the same share,
also for bins of different width or bins not covering the full circle.
---
 pyirf/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 0713312..e5d10a2 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -214,8 +214,8 @@ class SimulatedEventsInfo:
             [self.viewcone_min, self.viewcone_max] * u.deg
         )
 
-        n_bins_pa = len(fov_position_angle_bins) - 1
-        position_angle_integral = np.full(n_bins_pa, viewcone_integral / n_bins_pa)
+        position_angle_fraction = np.diff(fov_position_angle_bins.to_value(u.rad)) / (2 * np.pi)
+        position_angle_integral = viewcone_integral * position_angle_fraction
 
         total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
 
-- 
2.43.0


From 214fdb3c83efafa078af95a561b8f8b446403db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 04/27] fix: return the showers per lon / lat bin in the
 documented axis order

calculate_n_showers_3d_lonlat documents (n_energy, n_lon, n_lat), and
effective_area_3d_lonlat divides a histogram in that order by it, but the
result had the latitude axis first.
---
 pyirf/simulations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index e5d10a2..be9c4d0 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -258,7 +258,9 @@ class SimulatedEventsInfo:
             self, fov_longitude_bins, fov_latitude_bins, subpixels=subpixels
         )
 
-        bin_grid_lon, bin_grid_lat = np.meshgrid(fov_longitude_bins,fov_latitude_bins)
+        bin_grid_lon, bin_grid_lat = np.meshgrid(
+            fov_longitude_bins, fov_latitude_bins, indexing="ij"
+        )
         bin_area = rectangle_solid_angle(
             bin_grid_lon[:-1,:-1],
             bin_grid_lon[1:,1:],
@@ -346,7 +348,7 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     bin inside the viewcone.
     """
     # treat edge cases where all bins are either fully inside or outside of the viewcone
-    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
+    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat, indexing="ij")
 
     bin_dist = angular_separation(
         bin_grid_lon,
@@ -375,7 +377,7 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     fov_bin_centers_lat = bin_center(bin_edges_lat)
 
     bin_centers_grid_lon, bin_centers_grid_lat = np.meshgrid(
-        fov_bin_centers_lon, fov_bin_centers_lat,
+        fov_bin_centers_lon, fov_bin_centers_lat, indexing="ij"
     )
 
     # calculate angular separation of bin centers to FOV center
-- 
2.43.0


From 87ef79796d867746c0deea7364379ae79d893d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 05/27] fix: lon / lat bins in units other than degree

The subpixel grid of _fov_lonlat_grid_overlap dropped the unit of the bin edges
and read their values as degrees.
---
 pyirf/simulations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index be9c4d0..e9e3a82 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -347,6 +347,10 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     'subpixels' whose centers are inside the viewcone, which approximates the area of the
     bin inside the viewcone.
     """
+    # the subpixels below are defined in degrees
+    bin_edges_lon = bin_edges_lon.to(u.deg)
+    bin_edges_lat = bin_edges_lat.to(u.deg)
+
     # treat edge cases where all bins are either fully inside or outside of the viewcone
     bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat, indexing="ij")
 
-- 
2.43.0


From 238780e6a12734a353a809aeb75545042b46add5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 06/27] fix: decide the viewcone coverage of every lon / lat
 bin by itself

_fov_lonlat_grid_overlap took all bins as outside (or inside) when all bin
corners were, which is wrong when a bin contains the viewcone or its inner
hole, and used the width of the first bin for all bins.
---
 pyirf/simulations.py | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index e9e3a82..5990354 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -351,31 +351,8 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     bin_edges_lon = bin_edges_lon.to(u.deg)
     bin_edges_lat = bin_edges_lat.to(u.deg)
 
-    # treat edge cases where all bins are either fully inside or outside of the viewcone
     bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat, indexing="ij")
 
-    bin_dist = angular_separation(
-        bin_grid_lon,
-        bin_grid_lat,
-        0,
-        0,
-    ).to_value(u.deg)
-
-    all_outside = np.logical_or(
-        np.all(bin_dist <= self.viewcone_min.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_max.to_value(u.deg)),
-    )
-    all_inside = np.logical_and(
-        np.all(bin_dist <= self.viewcone_max.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_min.to_value(u.deg)),
-    )
-
-    if all_outside:
-        return 0
-    elif all_inside:
-        return 1
-
-
     # define grid of bin centers
     fov_bin_centers_lon = bin_center(bin_edges_lon)
     fov_bin_centers_lat = bin_center(bin_edges_lat)
@@ -402,8 +379,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     area[mask_simple] = 0
 
     # select only bins partially covered by the FOV
-    bin_width_lon = bin_edges_lon[1] - bin_edges_lon[0]
-    bin_width_lat = bin_edges_lat[1] - bin_edges_lat[0]
+    bin_width_lon, bin_width_lat = np.meshgrid(
+        np.diff(bin_edges_lon), np.diff(bin_edges_lat), indexing="ij"
+    )
     bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5
 
     fov_outer_edge_mask = np.logical_and(
@@ -417,15 +395,19 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
 
     fov_edge_mask = np.logical_or(fov_inner_edge_mask, fov_outer_edge_mask)
 
+    # all bins are either fully inside or fully outside of the viewcone
+    if not np.any(fov_edge_mask):
+        return area
+
     # get indices of relevant bin corners
     corner_idx = np.nonzero(fov_edge_mask)
 
     # define start and endpoints for subpixels
     edges_lon = np.array(
-        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon]
+        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon[corner_idx]]
     )
     edges_lat = np.array(
-        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat]
+        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat[corner_idx]]
     )
 
     n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
-- 
2.43.0


From 6e0e0d7df5f4f7e147bb53978881a2ff901a369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 07/27] fix: solid angle of each lon / lat bin in
 background_3d_lonlat

The solid angles were computed for pairs of lon and lat bins with the same
index instead of for the grid of lon and lat bins.
---
 pyirf/irf/background.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyirf/irf/background.py b/pyirf/irf/background.py
index 419486f..3eb603e 100644
--- a/pyirf/irf/background.py
+++ b/pyirf/irf/background.py
@@ -113,10 +113,10 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
 
     # divide by solid angle in each fov bin and the observation time
     bin_solid_angle = rectangle_solid_angle(
-        fov_lon_bins[:-1],
-        fov_lon_bins[1:],
-        fov_lat_bins[:-1],
-        fov_lat_bins[1:],
+        fov_lon_bins[:-1, np.newaxis],
+        fov_lon_bins[1:, np.newaxis],
+        fov_lat_bins[np.newaxis, :-1],
+        fov_lat_bins[np.newaxis, 1:],
     )
     bg_rate = per_energy / t_obs / bin_solid_angle
     return bg_rate.to(BACKGROUND_UNIT)
-- 
2.43.0


From b387df87e5f8616b9d0b9a4211cb584a1da6bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 08/27] fix: moment morphing at the last point of a 1D grid

---
 pyirf/interpolation/moment_morph_interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 1388061..afabdd5 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -304,6 +304,8 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         target_bin = np.digitize(target_point.squeeze(), self.grid_points.squeeze())
+        # a target at the last grid point belongs to the last segment
+        target_bin = min(target_bin, len(self.grid_points) - 1)
         segment_inds = np.array([target_bin - 1, target_bin], "int")
         coefficients = linesegment_1D_interpolation_coefficients(
             grid_points=self.grid_points[segment_inds],
-- 
2.43.0


From 3b7471e456ee3d1db483a9688f5f7ae19010d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 09/27] fix: fill value handling of RadMaxEstimator at the last
 point of a 1D grid

---
 pyirf/interpolation/component_estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6f019af..a80af9d 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -616,6 +616,8 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                 target_bin = np.digitize(
                     target_point.squeeze(), self.grid_points.squeeze()
                 )
+                # a target at the last grid point belongs to the last segment
+                target_bin = min(target_bin, self.n_points - 1)
                 segment_inds = np.array([target_bin - 1, target_bin], "int")
 
             mask_left = self.params[segment_inds[0]] >= self.fill_val
-- 
2.43.0


From 41034b6f7e447d797a0afe98858c42f26936ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 10/27] fix: fill value handling of RadMaxEstimator for
 unsorted 1D grids

---
 pyirf/interpolation/component_estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index a80af9d..9254954 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -538,6 +538,11 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             extrapolator_kwargs=extrapolator_kwargs,
         )
 
+        # keep the same order as the grid points, which are sorted in 1D
+        if self.grid_dim == 1:
+            sorting_inds = np.argsort(np.reshape(grid_points, self.n_points))
+            rad_max = rad_max[sorting_inds]
+
         self.params = rad_max
 
         if fill_value is None:
-- 
2.43.0


From 6722f2f12c589d8358f3dc069fe92fdcbd6e960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 11/27] fix: fill value handling of RadMaxEstimator outside of
 2D grids

---
 pyirf/interpolation/component_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 9254954..f6d99de 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -634,7 +634,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             target_simplex = self.triangulation.find_simplex(target_point)
 
             if target_simplex == -1:
-                target_simplex = find_nearest_simplex(self.triangulation, target_point)
+                target_simplex = find_nearest_simplex(
+                    self.triangulation, target_point.squeeze()
+                )
 
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
-- 
2.43.0


From bdc1b2ed19d8b26c9a6d10a73f53da98ed07c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 12/27] fix: EffectiveAreaEstimator does not overwrite the
 effective areas it is given

---
 pyirf/interpolation/component_estimators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index f6d99de..77bfd9a 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -434,8 +434,11 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
         self.min_effective_area = min_effective_area
 
         # remove zeros and log it
-        effective_area[effective_area < self.min_effective_area] = (
-            self.min_effective_area
+        # (not in place, this might be the memory of the input)
+        effective_area = np.where(
+            effective_area < self.min_effective_area,
+            self.min_effective_area,
+            effective_area,
         )
         effective_area = np.log(effective_area)
 
-- 
2.43.0


From b08d66963e5bee57c9dbf1b02ef61203f5e319af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 13/27] fix: RadMaxEstimator does not overwrite the rad max
 tables it is given

---
 pyirf/interpolation/component_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 77bfd9a..dc056ec 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -586,7 +586,7 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # First, construct estimation without handling fill-values
         full_estimation = super().__call__(target_point)
         # Safeguard against extreme extrapolation cases
-        np.clip(full_estimation, 0, None, out=full_estimation)
+        full_estimation = np.clip(full_estimation, 0, None)
 
         # Early exit if fill_values should not be handled
         if not self.fill_val:
-- 
2.43.0


From 2f25ce9ebfedd58e6e0056d0232af7eb05cb77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 14/27] fix: nearest neighbor search for PSF tables

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index d1f368c..bca4553 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -5,6 +5,7 @@ from .base_interpolators import (
     BaseInterpolator,
     DiscretePDFInterpolator,
     ParametrizedInterpolator,
+    PDFNormalization,
 )
 
 __all__ = [
@@ -104,7 +105,14 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
     Compatible with discretized PDF IRF component API.
     """
 
-    def __init__(self, grid_points, bin_edges, binned_pdf, norm_ord=2):
+    def __init__(
+        self,
+        grid_points,
+        bin_edges,
+        binned_pdf,
+        norm_ord=2,
+        normalization=PDFNormalization.AREA,
+    ):
         """
         NearestNeighborSearcher compatible with discretized PDF IRF components API
 
@@ -123,6 +131,8 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
             Order of the norm which is used to compute the distances,
             passed to numpy.linalg.norm [1]. Defaults to 2,
             which uses the euclidean norm.
+        normalization: PDFNormalization
+            How the PDF is normalized. Ignored for nearest neighbor searching.
 
         Notes
         -----
-- 
2.43.0


From 6c22231bcfba04f46563dab96018b9227b1cbf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 15/27] fix: PSFTableEstimator does not change the keyword
 arguments it is given

---
 pyirf/interpolation/component_estimators.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index dc056ec..3c69600 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -831,12 +831,10 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         if extrapolator_kwargs is None:
             extrapolator_kwargs = {}
 
-        interpolator_kwargs.setdefault(
-            "normalization", PDFNormalization.CONE_SOLID_ANGLE
-        )
-        extrapolator_kwargs.setdefault(
-            "normalization", PDFNormalization.CONE_SOLID_ANGLE
-        )
+        # new dicts, the input should not be changed
+        default_kwargs = {"normalization": PDFNormalization.CONE_SOLID_ANGLE}
+        interpolator_kwargs = {**default_kwargs, **interpolator_kwargs}
+        extrapolator_kwargs = {**default_kwargs, **extrapolator_kwargs}
 
         super().__init__(
             grid_points=grid_points,
-- 
2.43.0


From fc56fd81a70b7ea6e0c7c5df810c4455e2394fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 16/27] fix: resampling of an empty histogram into a range
 beyond its last edge

---
 pyirf/binning.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 0eb4413..2cebe71 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -280,20 +280,18 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
 
     cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)
 
-    norm = data.sum(axis=axis, keepdims=True)
-    norm[norm == 0] = 1
-    cumsum /= norm
+    total = data.sum(axis=axis)
 
     f_integral = interp1d(
         old_edges,
         cumsum,
         bounds_error=False,
-        fill_value=(0, 1),
+        fill_value=(np.zeros_like(total), total),
         kind="quadratic",
         axis=axis,
     )
 
-    values = np.diff(f_integral(new_edges), axis=axis) * norm
+    values = np.diff(f_integral(new_edges), axis=axis)
     if data_unit:
         values = u.Quantity(values, unit=data_unit)
 
-- 
2.43.0


From 614f561571766b8a062b5222c37f212923bdc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 17/27] fix: check_table reports columns without a unit

---
 pyirf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index e1d41c6..573f127 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -243,5 +243,6 @@ def check_table(table, required_columns=None, required_units=None):
                 raise MissingColumns(col)
 
             unit = table[col].unit
-            if not expected.is_equivalent(unit):
+            # columns without a unit are dimensionless
+            if not expected.is_equivalent(u.one if unit is None else unit):
                 raise WrongColumnUnit(col, unit, expected)
-- 
2.43.0


From 199634cc6014f977b994fb75cbb3ea161bd19f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 18/27] fix: li_ma_significance is 0, not nan, for n_on = alpha
 * n_off

---
 pyirf/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 988bfd7..393a1ba 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -50,7 +50,8 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         t1[n_on == 0] = 0
         t2[n_off == 0] = 0
 
-        ts = t1 + t2
+        # ts >= 0, but rounding might result in tiny negative values
+        ts = np.maximum(t1 + t2, 0)
 
         significance = np.sqrt(ts * 2)
 
-- 
2.43.0


From 225fac9b88e038cdda006f54341b862e698d9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 19/27] fix: smooth percentile cuts along the bins, not along
 the percentiles

---
 pyirf/cuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e9211c2..2f5c6d0 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -110,6 +110,7 @@ def calculate_percentile_cut(
         cut_table["cut"].value[:] = gaussian_filter1d(
             cut_table["cut"].value,
             smoothing,
+            axis=0,
             mode="nearest",
         )
 
-- 
2.43.0


From f8d3b08c825276ee024b108dcf506460a885cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 20/27] fix: compare_irf_cuts for cuts of different shape, in
 different units or with nans

---
 pyirf/cuts.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index 2f5c6d0..9f047b5 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -205,6 +205,18 @@ def compare_irf_cuts(cuts):
         if the cuts are the same in all the files
     """
     for i in range(len(cuts) - 1):
-        if (cuts[i] != cuts[i + 1]).any():
+        if not _same_cuts(cuts[i], cuts[i + 1]):
             return False
     return True
+
+
+def _same_cuts(first, second):
+    """Check that two cut tables have the same columns, taking units into account"""
+    if set(first.colnames) != set(second.colnames) or len(first) != len(second):
+        return False
+    return all(
+        np.array_equal(
+            first[col], second[col], equal_nan=first[col].dtype.kind == "f"
+        )
+        for col in first.colnames
+    )
-- 
2.43.0


From d0060389dd7bd38dcde070c9726dd78b049ed23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 21/27] fix: PSFTableEstimator with interpolators that do not
 handle units

---
 pyirf/interpolation/component_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 3c69600..8c7433e 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -823,7 +823,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         self.axis = axis
 
-        psf = np.swapaxes(psf, axis, -1)
+        # get rid of units
+        psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
         if interpolator_kwargs is None:
             interpolator_kwargs = {}
-- 
2.43.0


From 0426b3a7293b95521d3619a3657c42e117bbba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 22/27] fix: quantile interpolation of distributions in bins of
 different width

---
 pyirf/interpolation/quantile_interpolator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9b3106a..0e5a083 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -137,12 +137,14 @@ def norm_pdf(pdf_values, bin_edges, normalization):
     """
     Normalize binned_pdf to a sum of 1
     """
-    norm = np.sum(pdf_values, axis=-1)
+    # pdf_values are densities along the bins, which may differ in width
+    probability = pdf_values * np.diff(bin_edges)
+    norm = np.sum(probability, axis=-1)
     width = get_bin_width(bin_edges, normalization)
 
     # Norm all binned_pdfs to unity that are not empty
     normed_pdf_values = np.divide(
-        pdf_values,
+        probability,
         norm[..., np.newaxis] * width,
         out=np.zeros_like(pdf_values),
         where=norm[..., np.newaxis] != 0,
-- 
2.43.0


From 4b1b444f4bc8586692b3144a25b31c6eec73255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 23/27] fix: effective areas at the minimum are estimated as
 zero, as documented

---
 pyirf/interpolation/component_estimators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 8c7433e..40dfef1 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -474,8 +474,9 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
 
         # exp it and set to zero too low values
         aeff_interp = np.exp(aeff_interp)
-        # remove entries manipulated by min_effective_area
-        aeff_interp[aeff_interp < self.min_effective_area] = 0
+        # remove entries manipulated by min_effective_area, which are only equal to
+        # it up to the rounding of log, interpolation and exp
+        aeff_interp[aeff_interp <= self.min_effective_area * (1 + 1e-9)] = 0
 
         return u.Quantity(aeff_interp, u.m**2, copy=COPY_IF_NEEDED)
 
-- 
2.43.0


From 79b6da856ae9b023b0f2adb8e03239d366afae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 24/27] fix: only facets of the grid's convex hull that face
 the target are visible

---
 .../visible_edges_extrapolator.py             | 41 ++++++++-----------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 114cc7c..981fe24 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -16,9 +16,7 @@ def find_visible_facets(grid_points, target_point):
     """
     Find all facets of a convex hull visible from an outside point.
     
-    To do so, this function constructs a triangulation containing
-    the target point and returns all facets that span a triangulation simplex with
-    it.
+    A facet is visible if it separates the target from the grid.
 
     Parameters
     ----------
@@ -34,27 +32,19 @@ def find_visible_facets(grid_points, target_point):
         L visible facets, spanned by a simplex in M-1 dimensions
         (thus a line for M=2)
     """
-    # Build a triangulation including the target point
-    full_set = np.vstack((grid_points, target_point))
-    triag = Delaunay(full_set)
-
-    # The target point is included in a simplex with all facets
-    # visible by it
-    simplices = triag.points[triag.simplices]
-    matches_target = np.all(simplices == target_point, axis=-1)
-    target_in_simplex = np.any(matches_target, axis=-1)
-
-    # The visible facets are spanned by those points in the matched
-    # simplices that are not the target
-    facet_point_mask = ~matches_target[target_in_simplex]
-    visible_facets = np.array(
-        [
-            triag.points[simplex[mask]]
-            for simplex, mask in zip(
-                triag.simplices[target_in_simplex], facet_point_mask
-            )
-        ]
-    )
+    triag = Delaunay(grid_points)
+    # ordered by the indices of their grid points
+    facets = triag.points[np.unique(np.sort(triag.convex_hull, axis=1), axis=0)]
+
+    def side(point):
+        """On which side of each facet the point is, 0 if on the line through it"""
+        along = facets[:, 1] - facets[:, 0]
+        offset = point - facets[:, 0]
+        return along[:, 0] * offset[:, 1] - along[:, 1] * offset[:, 0]
+
+    # All grid points, and thus their mean, are on the inner side of a facet
+    inner = np.sign(side(triag.points.mean(axis=0)))
+    visible_facets = facets[inner * side(np.ravel(target_point)) < 0]
 
     return visible_facets
 
@@ -155,7 +145,8 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
         elif self.grid_dim == 2:
             visible_facet_points = find_visible_facets(self.grid_points, target_point)
 
-            if visible_facet_points.shape[0] == 1:
+            # no facet is visible from a target on the convex hull
+            if visible_facet_points.shape[0] <= 1:
                 return super().extrapolate(target_point)
             else:
                 simplices_points = self.triangulation.points[
-- 
2.43.0


From 879238403a0716224139f13467177351ced93cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:13 +0000
Subject: [PATCH 25/27] fix: weights of facets in line with the target are zero
 instead of nan

---
 pyirf/interpolation/visible_edges_extrapolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 981fe24..df10120 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -78,7 +78,8 @@ def compute_extrapolation_weights(visible_facet_points, target_point, m):
             for line in visible_facet_points
         ]
     )
-    weights = np.arccos(angles) ** (m + 1)
+    # the cosine can exceed one by rounding if the target is on the line through a facet
+    weights = np.arccos(np.clip(angles, -1, 1)) ** (m + 1)
 
     return weights / weights.sum()
 
-- 
2.43.0


From 94d4c0073dfc774a86c9a8e030ab8bbe954418a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 26/27] fix: blending over visible edges keeps axes of length
 one

---
 pyirf/interpolation/visible_edges_extrapolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index df10120..fd8459d 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -178,7 +178,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
                     [
                         extrapolate2D(
                             self.triangulation.simplices[ind], target_point
-                        ).squeeze()
+                        )[0]
                         for ind in visible_simplices_indices
                     ]
                 )
-- 
2.43.0


From 4845593d5b2d3bb05a2d876290b7669b78acf365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:37 +0000
Subject: [PATCH 27/27] fix: standard deviation of templates with a single
 filled bin in the presence of rounding

The standard deviation of a template with only one filled bin was replaced by the width of this bin
only if it came out as exactly zero. Rounding of the mean leaves values of the order of the
machine precision, from which the scale of the morphed templates is derived.
---
 pyirf/interpolation/moment_morph_interpolator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index afabdd5..e40cb49 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -45,9 +45,9 @@ def _estimate_mean_std(bin_edges, binned_pdf, normalization):
     )
 
     # Set std to 0.5*width for all those templates that have only one bin =/= 0. In those
-    # cases mids-mean = 0 and therefore std = 0. Uses the width of the one bin with
-    # binned_pdf!=0
-    mask = std == 0
+    # cases mids-mean = 0 and therefore std = 0, up to the rounding of the mean. Uses the
+    # width of the one bin with binned_pdf!=0
+    mask = np.count_nonzero(binned_pdf, axis=-1) == 1
     if np.any(mask):
         width = np.diff(bin_edges)
         # std of a uniform distribution inside the bin
-- 
2.43.0

