From 53775833b439d8cf16ea5ddb7b75ec1e9c8e5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 01/43] fix: compute the Petrosian profile in floating point
 for integer areas

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..10a9462 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -52,8 +52,8 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     """
 
     # Convert input to array
-    area_list = np.array(area_list)
-    flux_list = np.array(flux_list)
+    area_list = np.array(area_list, dtype=float)
+    flux_list = np.array(flux_list, dtype=float)
 
     # Validate input
     assert len(area_list) == len(flux_list)
-- 
2.43.0


From e4017cda4aa97ae9ddd6929d1bad00f1ad06aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 02/43] fix: keep Petrosian values aligned with their radii
 when aperture areas repeat

---
 petrofit/petrosian/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 10a9462..8566538 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -79,7 +79,10 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
     # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
+    _, first_indices, inverse_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    unique_indices = first_indices[inverse_indices]
     petrosian_list = petrosian_list[unique_indices]
 
     if area_err is not None or flux_err is not None:
-- 
2.43.0


From b7a800eabfbd6ae286ec958aefdbf9d008e820eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 03/43] fix: half_flux_err read attributes that do not exist

---
 petrofit/petrosian/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8566538..f98c9da 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -809,7 +809,7 @@ class Petrosian:
 
     @property
     def half_flux(self):
-        """Returns the flux at `r_half_flux` or np.nan if out of range"""
+        """Returns the flux at `r_half_light` or np.nan if out of range"""
         r_half_flux = self.r_half_light
 
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
@@ -822,17 +822,17 @@ class Petrosian:
     @property
     def half_flux_err(self):
         """
-        Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
-        Note that this includes errors in estimating `r_half_flux`.
+        Returns the photometric uncertainty at `r_half_light` or np.nan if out of range.
+        Note that this includes errors in estimating `r_half_light`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_light_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
-        return np.sqrt(flux_err**2 + r_half_flux_err**2)
+        flux_err = f(self.r_half_light)
+        return np.sqrt(flux_err**2 + r_half_light_err**2)
 
     @property
     def r_half_light(self):
-- 
2.43.0


From 689eaea48c94559365f09848303bafb85bff1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 04/43] fix: total_flux and half_flux with interp_kind=None

---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index f98c9da..3b8b51d 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -787,7 +787,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -815,7 +819,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From 045291db2358519b2aead400a17c85e38f4b91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 05/43] fix: return nan when r_epsilon or its error leaves the
 curve of growth

---
 petrofit/petrosian/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 3b8b51d..65d8613 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -291,7 +291,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if not min(r_list) <= r_epsilon <= max(r_list):
         return np.nan, np.nan
 
     f = interp1d(
@@ -321,6 +321,12 @@ def fraction_to_r(
     )
     r_epsilon_err = r_petrosian_err
 
+    if (
+        min(r_epsilon - r_epsilon_err, r_epsilon + r_epsilon_err) < min(r_list)
+        or max(r_epsilon - r_epsilon_err, r_epsilon + r_epsilon_err) > max(r_list)
+    ):
+        return r_frac, np.nan
+
     # Compute the fractional_flux_err error
     f_lower = interp1d(
         r_list,
-- 
2.43.0


From 8ea4cb398d1ff2e9f95f9eb167e4299dd74ac67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/43] fix: use the requested interpolation for fraction
 radius errors

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 65d8613..16f62e6 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -349,13 +349,13 @@ def fraction_to_r(
     fractional_flux_lower = fractional_flux - fractional_flux_err
 
     r_list_lower, flux_list_lower = get_interpolated_values(
-        r_list, flux_list - flux_err
+        r_list, flux_list - flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_upper, flux_list_lower, growing=True)
     r_frac_upper = np.nan if idx is None else r_list_lower[idx]
 
     r_list_upper, flux_list_upper = get_interpolated_values(
-        r_list, flux_list + flux_err
+        r_list, flux_list + flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
-- 
2.43.0


From 1f3007b7f46c57312921a39b6915821eaac5f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 07/43] fix: segm_mask appended the background label to the
 list of the caller

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From c5471734b6c9985e0cb225b82102c5384753cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 08/43] fix: hst_flux_to_abmag for numpy scalars and integer
 arrays

---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..cc73872 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,8 +60,8 @@ def make_radius_list(max_pix, n, log=False):
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
     if not type(flux) in [int, float]:
-        flux = np.array(flux)
-        flux[np.where(flux <= 0)] = np.nan
+        flux = np.array(flux, dtype=float)
+        flux[flux <= 0] = np.nan
     elif flux <= 0:
         return np.nan
 
-- 
2.43.0


From 8f572a0dd816bf7aa739126462153b5b211437cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 09/43] fix: cutout_subtract on a copy, with odd targets and at
 the image edges

---
 petrofit/utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index cc73872..0471cdd 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -229,11 +229,19 @@ def cutout_subtract(image, target, x, y):
         subtracted
     """
 
+    image = np.array(image, dtype=np.result_type(image, target))
+
+    # Corner of the target in the image
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    y0, x0 = y - dy // 2, x - dx // 2
+
+    # Part of the target that is inside the image
+    ymin, ymax = np.clip([y0, y0 + dy], 0, image.shape[0])
+    xmin, xmax = np.clip([x0, x0 + dx], 0, image.shape[1])
+
+    image[ymin:ymax, xmin:xmax] -= target[
+        ymin - y0 : ymax - y0, xmin - x0 : xmax - x0
+    ]
     return image
 
 
-- 
2.43.0


From e17a5f61dd4b9b7ff77c573c6de02b173c05acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 10/43] fix: GenSersic2D could not be evaluated with the
 installed astropy

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..83f0f2d 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -573,12 +573,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From c75f4ba6306dcb84e8700453b9f4618b931f178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 11/43] fix: Nuker2D evaluated the profile at sqrt(2) times the
 radius

---
 petrofit/modeling/models.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 83f0f2d..ba99eca 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -589,11 +589,9 @@ class GenSersic2D(models.Sersic2D):
 @custom_model
 def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
     """Two dimensional Nuker2D model"""
-    x_maj = (x - x_0) + (y - y_0)
-    x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
 
-    r[np.where(r == 0)] = np.nan
+    r = np.where(r == 0, np.nan, r)
 
     return (
         amplitude
-- 
2.43.0


From 59deb28bb33b5c2e59722786701c9f8c7a2ca039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 12/43] fix: reject oversample=None while psf_oversample is set

---
 petrofit/modeling/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index ba99eca..c6758ba 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -292,6 +292,10 @@ class PSFConvolvedModel2D(FittableModel):
                 raise ValueError(
                     "oversample should be equal to or an integer multiple of psf_oversample"
                 )
+        elif psf_oversample != 1:
+            raise ValueError(
+                "oversample should be equal to or an integer multiple of psf_oversample"
+            )
         self._oversample = oversample
 
     @property
-- 
2.43.0


From e27152a26ad3bec6396423a2fd870acb2f8af7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 13/43] fix: place the oversampling window in the frame of the
 image and clip it

---
 petrofit/modeling/models.py | 40 ++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c6758ba..9cf76d8 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -478,12 +478,18 @@ class PSFConvolvedModel2D(FittableModel):
                     idx = self._model.param_names.index(sub_grid_y0)
                     sub_grid_y0 = sub_model_params[idx][0] if isinstance(sub_model_params[idx], (list, np.ndarray)) else sub_model_params[idx]
 
-                # Compute the corner of the sub-grid
-                sub_grid_origin = (
-                    np.round(sub_grid_x0) - sub_grid_size // 2,
-                    np.round(sub_grid_y0) - sub_grid_size // 2,
+                # Compute window indices in main image frame at data resolution first
+                # (the first pixel of the image is centered at x.min(), y.min())
+                i_sub_origin = int(
+                    np.round(np.round(sub_grid_x0) - sub_grid_size // 2 - x.min())
+                )
+                j_sub_origin = int(
+                    np.round(np.round(sub_grid_y0) - sub_grid_size // 2 - y.min())
                 )
 
+                # Compute the corner of the sub-grid
+                sub_grid_origin = (i_sub_origin + x.min(), j_sub_origin + y.min())
+
                 # Make an oversampled sub-grid for window
                 x_sub_grid, y_sub_grid = make_grid(
                     sub_grid_size, origin=sub_grid_origin, factor=sub_grid_factor
@@ -500,21 +506,19 @@ class PSFConvolvedModel2D(FittableModel):
                     / sub_grid_to_psf_factor**2
                 )
 
-                # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
-                i_sub_max = i_sub_min + sub_grid_size
-                j_sub_max = j_sub_min + sub_grid_size
-
                 # Clip window indices
-                if i_sub_min < 0:
-                    i_sub_min = 0
-                if j_sub_min < 0:
-                    j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
+                i_sub_min, i_sub_max = np.clip(
+                    [i_sub_origin, i_sub_origin + sub_grid_size], 0, i.max() + 1
+                )
+                j_sub_min, j_sub_max = np.clip(
+                    [j_sub_origin, j_sub_origin + sub_grid_size], 0, j.max() + 1
+                )
+
+                # Cut the part of the window that is outside the image
+                sub_model_image = sub_model_image[
+                    (j_sub_min - j_sub_origin) * psf_factor : (j_sub_max - j_sub_origin) * psf_factor,
+                    (i_sub_min - i_sub_origin) * psf_factor : (i_sub_max - i_sub_origin) * psf_factor,
+                ]
 
                 # Convert to PSF resolution
                 i_sub_min *= psf_factor
-- 
2.43.0


From 8319ae480666c0c5395b2fa1c47ae0a2184a7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 14/43] fix: fit_model used masked pixels with non-linear
 fitters

---
 petrofit/modeling/fitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..02dd91d 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -92,10 +92,11 @@ def fit_model(
             Fitter used to estimate and set model parameters.
     """
 
-    # Make x and y grid to fit to
-    y_arange, x_arange = np.where(~(np.isnan(image)))
+    # Make x and y grid to fit to, without nan or masked (i.e clipped) pixels
+    data = np.ma.getdata(image)
+    y_arange, x_arange = np.where(~(np.isnan(data) | np.ma.getmaskarray(image)))
 
-    z = image[(y_arange, x_arange)]
+    z = data[(y_arange, x_arange)]
 
     # Prepare weights
     w = None
-- 
2.43.0


From 0534a07f86c0ffc5d5d3cb77b18d089d35843020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 15/43] fix: fit_model returned the fitter class instead of the
 fitter that was used

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 02dd91d..5577fa1 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -124,7 +124,7 @@ def fit_model(
     else:
         fitted_model = fitter_instance(model, x_arange, y_arange, z, weights=w)
 
-    return fitted_model, fitter
+    return fitted_model, fitter_instance
 
 
 def _validate_image_size(size):
-- 
2.43.0


From c6aef886a995894ce4f4196f3378bd481a4533da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 16/43] fix: accept arrays as the size and center of a model
 image

---
 petrofit/modeling/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 5577fa1..727e195 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -147,7 +147,7 @@ def _validate_image_size(size):
         "Input size (pixels) should be an integers or a tuple of two integers."
     )
 
-    if type(size) in [list, tuple, np.array]:
+    if type(size) in [list, tuple, np.ndarray]:
         assert len(size) == 2, error_message
         x_size, y_size = size
 
@@ -174,7 +174,7 @@ def model_center_to_image_origin(center, size):
     x_size, y_size = _validate_image_size(size)
 
     center_error_message = "Center should be a tuple of two integers."
-    assert type(center) in [list, tuple, np.array], center_error_message
+    assert type(center) in [list, tuple, np.ndarray], center_error_message
     assert len(center) == 2, center_error_message
 
     origin = np.array(center) - np.floor_divide(np.array([x_size, y_size]), 2)
-- 
2.43.0


From 043e7b1aee64659a790b363727dabb2fc7325b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 17/43] fix: estimate_epsilon read a grid column that does not
 exist

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From e0c405312d1c7a4ded0e78f33a38ab9cbcca2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 18/43] fix: plot_correction used a matplotlib function that
 was removed

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 0c29e1c..286979a 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -554,7 +554,7 @@ class PetrosianCorrection:
             assert len(axs) == 3, "axs should be a list of 3 axis"
             fig = axs[0].figure
 
-        cm = plt.cm.get_cmap(cmap)
+        cm = plt.get_cmap(cmap)
 
         sim_n_list = self.grid[cmap_key]
 
-- 
2.43.0


From a6036ab9d0ada05f857b5eea76840d3c4d62ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 19/43] fix: radial_photometry rounded faint fluxes to zero

---
 petrofit/photometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/photometry.py b/petrofit/photometry.py
index c3a3907..951364c 100644
--- a/petrofit/photometry.py
+++ b/petrofit/photometry.py
@@ -209,9 +209,9 @@ def radial_photometry(
         )
 
         aperture_area = float(np.round(aperture_area, 6))
-        photometric_value = float(np.round(photometric_value, 6))
+        photometric_value = float(photometric_value[0])
         photometric_err = (
-            float(np.round(photometric_err, 6)) if photometric_err.size > 0 else np.nan
+            float(photometric_err[0]) if photometric_err.size > 0 else np.nan
         )
 
         if np.isnan(photometric_value):
-- 
2.43.0


From 29a758107de325da798600a17037639db0e36bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 20/43] fix: sigma_type='bound' clips at the given value, as
 documented

---
 petrofit/segmentation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..ee56383 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,10 +660,10 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
-                    raise (
+                    raise ValueError(
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
                     )
 
-- 
2.43.0


From 48b6857531b223f672da6239fc4c62f24939c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 21/43] fix: masked_segm_image could not fill integer images
 with nan

---
 petrofit/segmentation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index ee56383..d091a62 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -279,8 +279,12 @@ def masked_segm_image(source, image, segm, fill=None, mask_background=False):
     masked_image = deepcopy(image)
 
     if isinstance(masked_image, np.ndarray):
+        masked_image = masked_image.astype(np.result_type(masked_image, fill))
         masked_image[np.invert(mask)] = fill
     else:
+        masked_image.data = masked_image.data.astype(
+            np.result_type(masked_image.data, fill)
+        )
         masked_image.data[np.invert(mask)] = fill
 
     return masked_image
-- 
2.43.0


From 8fd62f637da7909052d56a1d7c393b9667d31534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 22/43] fix: natural_sort accepts numbers, as documented

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 0471cdd..bef9864 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -33,7 +33,7 @@ __all__ = [
 def natural_sort(l):
     """Sort the given list of strings or numbers without needing leading zeros"""
     convert = lambda text: int(text) if text.isdigit() else text.lower()
-    alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", key)]
+    alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", str(key))]
     return sorted(l, key=alphanum_key)
 
 
-- 
2.43.0


From 0d8519e1db43ee934b9cd881f370d8693697461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 23/43] fix: image pixels were repeated for fractional image
 origins

---
 petrofit/modeling/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 9cf76d8..d21c022 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -384,9 +384,9 @@ class PSFConvolvedModel2D(FittableModel):
         # Extract sub-model params as well as `psf_p`
         *sub_model_params, psf_p = params
 
-        # Prepare image indices
-        i = (x - x.min()).astype(int)
-        j = (y - y.min()).astype(int)
+        # Prepare image indices (round off floating point errors before truncating)
+        i = np.round(x - x.min(), 6).astype(int)
+        j = np.round(y - y.min(), 6).astype(int)
 
         # Is oversampling sub-grid based
         is_subgrid_oversample = isinstance(self.oversample, tuple)
-- 
2.43.0


From 4b079e17d6514bf85abd0021687ddbf5decea03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 24/43] fix: threads sharing a convolved model could use each
 other's sampling grid

---
 petrofit/modeling/models.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index d21c022..badbd0e 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -158,10 +158,9 @@ class PSFConvolvedModel2D(FittableModel):
     _psf = None  # PSF image
 
     _cache_grid = True  # Cache sampling grid?
-    _cached_grid_size = 0  # Cached sampling grid size
-    _cached_grid_factor = 0  # Cached sampling grid oversampling rule
-    _cached_grid = None  # Cached sampling grid
-    _cache_grid_range = None  # Cached sampling grid range (x.min, x.max, y.min, y.max)
+    # Cached sampling grid as `((size, factor, range), grid)`. It is always replaced as a
+    # whole, so that threads which share the model never see the grid of another image.
+    _cached_grid = None
 
     def __init__(
         self, model, psf=None, oversample=None, psf_oversample=None, name=None, **kwargs
@@ -331,12 +330,7 @@ class PSFConvolvedModel2D(FittableModel):
 
     def clear_cached_grid(self):
         """Clears cached grid and resets class attributes to default values"""
-        self._cached_grid_size = 0
-        self._cached_grid_factor = 0
-        if self._cached_grid is not None:
-            del self._cached_grid
         self._cached_grid = None
-        self._cache_grid_range = None
 
     @property
     def cache_grid(self):
@@ -415,13 +409,11 @@ class PSFConvolvedModel2D(FittableModel):
         # Make main grid
         # --------------
         # Make the main sampling grid
-        if (
-            grid_size == self._cached_grid_size
-            and grid_factor == self._cached_grid_factor
-            and grid_range == self._cache_grid_range
-        ):
+        grid_key = (grid_size, grid_factor, grid_range)
+        cached_grid = self._cached_grid
+        if cached_grid is not None and cached_grid[0] == grid_key:
             # If the sampling gird cached
-            main_grid = self._cached_grid
+            main_grid = cached_grid[1]
         else:
             # Else make a sampling gird
             main_grid = make_grid(
@@ -429,10 +421,7 @@ class PSFConvolvedModel2D(FittableModel):
             )
             # Cache Grid
             if self.cache_grid:
-                self._cached_grid = main_grid
-                self._cached_grid_size = grid_size
-                self._cached_grid_factor = grid_factor
-                self._cache_grid_range = grid_range
+                self._cached_grid = (grid_key, main_grid)
 
         # Split main grid to x and y components
         x_grid, y_grid = main_grid
-- 
2.43.0


From 0a9bde01b64937ac2ecc579f5ae431cd471e4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 25/43] fix: measure_fwhm failed to plot the fit, which it does
 by default

---
 petrofit/modeling/fitting.py | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 727e195..d9d7a3e 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -512,9 +512,6 @@ def measure_fwhm(image, plot=True, printout=True):
     x_fwhm = fitted_line.x_stddev * gaussian_sigma_to_fwhm
     y_fwhm = fitted_line.y_stddev * gaussian_sigma_to_fwhm
 
-    # Find half max
-    hm = fitted_line(x_mean, y_mean) / 2.0
-
     # Find the mean of the x and y direction
     mean_fwhm = np.mean([x_fwhm, y_fwhm])
     mean_fwhm = int(np.round(mean_fwhm))
@@ -537,15 +534,12 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
-
-        # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        axs, _, _, _ = plot_fit(fitted_line, image)
 
-        # Plot input image with FWHM and center
-        # -------------------------------------
+        # Plot FWHM and center over the input image
+        # -----------------------------------------
 
-        ax0.imshow(image, cmap="gray_r")
+        ax0 = axs[0]
 
         ax0.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax0.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -556,26 +550,6 @@ def measure_fwhm(image, plot=True, printout=True):
         ax0.set_title("Center and FWHM Plot")
         ax0.legend()
 
-        # Plot X fit
-        # ----------
-
-        ax2.axvline(x_mean, linestyle="-", label="Center")
-        ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
-        ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
-        ax2.axhline(hm, c="black", linestyle="--", label="Half Max")
-
-        ax2.legend()
-
-        # Plot Y fit
-        # ----------
-
-        ax3.axvline(y_mean, linestyle="-", label="Center")
-        ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
-        ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-        ax3.axhline(hm, c="black", linestyle="--", label="Half Max")
-
-        ax3.legend()
-
         plt.show()
 
     return np.array([x_fwhm, y_fwhm])
-- 
2.43.0


From 9d94c5549f91b3bb89d15eb4fc27d10c8146a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 26/43] fix: gaussian fits of images with NaN pixels started
 from NaN

---
 petrofit/modeling/fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index d9d7a3e..2ed653d 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -313,7 +313,10 @@ def fit_gaussian2d(image):
 
     # Create model to fit
     model = models.Gaussian2D(
-        amplitude=image.max(), x_mean=x_mean, y_mean=y_mean, fixed={}
+        amplitude=np.ma.masked_invalid(image).max(),
+        x_mean=x_mean,
+        y_mean=y_mean,
+        fixed={},
     )
 
     # Fit model to grid
-- 
2.43.0


From 6d82d38eedda0e573160fc4b6df597fa60ee9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 27/43] fix: CoreSersic2D compared radii in units of r_eff with
 radii in pixels

---
 petrofit/modeling/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index badbd0e..c068fe1 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -617,13 +617,13 @@ def CoreSersic2D(
     Core Sersic model as defined by Graham et al 2003.
     """
     bn = gammaincinv(2.0 * n, 0.5)
-    a, b = r_eff, (1 - ellip) * r_eff
+    a, b = 1, 1 - ellip  # r is compared with r_eff and r_break, which are in pixels
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
     r = np.sqrt((x_maj / a) ** 2 + (x_min / b) ** 2)
 
-    r[np.where(r == 0)] = np.nan
+    r = np.where(r == 0, np.nan, r)
 
     I = (
         amplitude
-- 
2.43.0


From 9cf72f29f7db9cd80672a95609dfc3265cff970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 28/43] fix: first-crossing search returned NaN samples as the
 closest value

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index bef9864..fdb3f88 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -162,7 +162,7 @@ def closest_value_index(value, array, growing=False):
     idx = None
     if idx_list.size > 0:
         idx = idx_list[0]
-        idx = abs(array[: idx + 1] - value).argmin()
+        idx = np.nanargmin(abs(array[: idx + 1] - value))
     return idx
 
 
-- 
2.43.0


From efe4d52ee13aef46f23bd13a74954483baef61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 29/43] fix: natural_sort compares numbers by value and accepts
 other digits

---
 petrofit/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index fdb3f88..6d898fd 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -1,4 +1,5 @@
 import re
+from numbers import Real
 
 import numpy as np
 
@@ -32,8 +33,13 @@ __all__ = [
 
 def natural_sort(l):
     """Sort the given list of strings or numbers without needing leading zeros"""
-    convert = lambda text: int(text) if text.isdigit() else text.lower()
-    alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", str(key))]
+    convert = lambda text: int(text) if re.match("[0-9]", text) else text.lower()
+
+    def alphanum_key(key):
+        if isinstance(key, Real):
+            return ["", key, ""]
+        return [convert(c) for c in re.split("([0-9]+)", str(key))]
+
     return sorted(l, key=alphanum_key)
 
 
-- 
2.43.0


From 298b7a960e3b6302ebfae63568a4ceac3fcf277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 30/43] fix: get_amplitude_at_r returned the brightest pixels
 where no isophote exists

---
 petrofit/segmentation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index d091a62..7ee176f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -141,6 +141,9 @@ def get_amplitude_at_r(r, image, x0, y0, ellip, theta):
     r = float(r)
 
     try:
+        if not r >= 0:
+            raise ValueError("the radius is {}".format(r))
+
         # Define EllipseGeometry using ellip and theta
         g = EllipseGeometry(x0, y0, 1.0, ellip, theta)
 
@@ -150,6 +153,9 @@ def get_amplitude_at_r(r, image, x0, y0, ellip, theta):
         # Fit isophote at r_eff
         iso = ellipse.fit_isophote(r)
 
+        if not iso.valid:
+            raise ValueError("the isophote could not be fitted")
+
         # Get flux at r_eff
         amplitude = iso.intens
 
-- 
2.43.0


From d695d366ba10c172cec3130991d13bb8f475475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 31/43] fix: profile plots set the ticks of the current axis
 instead of the given one

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 16f62e6..01207b1 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1071,7 +1071,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1214,7 +1214,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0


From 55a36a63dd197b69ee7448476ba6ddd135937323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 32/43] fix: plot_cog failed for profiles with errors of the
 area only

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 01207b1..ac3d9a9 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1155,7 +1155,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From 908ae0c23c3a88770b3c12f60a062644ecbd8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 33/43] fix: profile plots without a radius unit had no label
 on the radius axis

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index ac3d9a9..8377793 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1066,7 +1066,7 @@ class Petrosian:
         ax.axhline(0, c="black")
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
@@ -1206,7 +1206,7 @@ class Petrosian:
 
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(
-- 
2.43.0


From 645e0a40efd729a2e4c705aae15ca07ab271482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 34/43] fix: plots labelled the total flux with a truncated
 percentage

---
 petrofit/petrosian/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8377793..8875a43 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -926,13 +926,13 @@ class Petrosian:
 
         r_total_flux = self.r_total_flux
         if not np.isnan(r_total_flux):
-            total_flux_fraction = int(self.total_flux_fraction * 100)
+            total_flux_fraction = round(self.total_flux_fraction * 100, 6)
             ax.axvline(
                 r_total_flux,
                 linestyle="--",
                 c="tab:red",
                 alpha=self._r_plot_alpha,
-                label="$R_{{total}}(L_{{{}}}) = {:0.4f}$ {}".format(
+                label="$R_{{total}}(L_{{{:g}}}) = {:0.4f}$ {}".format(
                     total_flux_fraction, r_total_flux, radius_unit
                 ),
             )
@@ -1187,13 +1187,13 @@ class Petrosian:
             r_total_flux = self.r_total_flux
             total_flux = self.total_flux
             if not np.isnan(r_total_flux) and not np.isnan(total_flux):
-                total_flux_fraction = int(self.total_flux_fraction * 100)
+                total_flux_fraction = round(self.total_flux_fraction * 100, 6)
                 ax.axvline(
                     r_total_flux,
                     linestyle="-",
                     c="black",
                     alpha=self._r_plot_alpha,
-                    label="$R_{{total}}(L_{{{}}}) = {:0.4f}$ {}".format(
+                    label="$R_{{total}}(L_{{{:g}}}) = {:0.4f}$ {}".format(
                         total_flux_fraction, r_total_flux, radius_unit
                     ),
                 )
-- 
2.43.0


From 24c7058f0d99bc675375fe6532a4a3c23011227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 35/43] fix: plot_correction marked the first grid row for
 profiles without measured radii

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 286979a..9bbb804 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -600,7 +600,7 @@ class PetrosianCorrection:
         ax.set_ylabel(r"$C_{2080}$")
         mpl_tick_frame(ax=ax, minorticks=minorticks)
 
-        if None not in [x0, y0, z0]:
+        if None not in [x0, y0, z0] and np.all(np.isfinite([x0, y0, z0])):
             idx = self._dr(x0, y0, z0).argmin()
             cx, cy, cz = self.x[idx], self.y[idx], self.z[idx]
 
-- 
2.43.0


From 3f65480fe1d765b7b37a3e38d5a378fb717dad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 36/43] fix: plot_target failed for cutouts, which have their
 image in data

---
 petrofit/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 6d898fd..655b63e 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -202,6 +202,9 @@ def plot_target(
     region is determined by the `size` parameter centered at the target position.
     """
 
+    if not isinstance(image, np.ndarray):
+        image = image.data
+
     if size is None:
         size = max(image.shape)
     x, y = position
-- 
2.43.0


From 9feb29455ee7d3d4ca5395cb1a5bd1ffd886a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 37/43] fix: source_photometry failed for integer error maps at
 the image edge

---
 petrofit/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 7ee176f..c31d673 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -626,6 +626,8 @@ def source_photometry(
     # ------------
     masked_err = None
     if error is not None:
+        error = np.asanyarray(error)
+        error = error.astype(np.result_type(error, np.nan), copy=False)
         masked_err = Cutout2D(
             error, position, cutout_size, mode="partial", fill_value=np.nan
         ).data
-- 
2.43.0


From aa77ff5ce7c3bddf01272f9f2ff2cbdf15e25392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 38/43] fix: PSFs of integers were truncated to integers when
 rotated

---
 petrofit/modeling/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c068fe1..38465c9 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -525,7 +525,9 @@ class PSFConvolvedModel2D(FittableModel):
             
             psf_p = psf_p[0] if isinstance(psf_p, (list, np.ndarray)) else psf_p 
             if psf_p != 0:
-                psf = rotate(psf, psf_p, reshape=False)
+                psf = rotate(
+                    psf, psf_p, reshape=False, output=np.result_type(psf, 1.0)
+                )
             model_image = convolve(model_image, psf, mode="same")
 
         if psf_factor > 1:
-- 
2.43.0


From e5b9ca83a6e395658dc556ba3cf5a842ca82661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 39/43] fix: cutout_subtract wrapped around for unsigned
 integers

---
 petrofit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 655b63e..b78c23a 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -238,7 +238,8 @@ def cutout_subtract(image, target, x, y):
         subtracted
     """
 
-    image = np.array(image, dtype=np.result_type(image, target))
+    # int8 makes room for negative values in unsigned images
+    image = np.array(image, dtype=np.result_type(image, target, np.int8))
 
     # Corner of the target in the image
     dy, dx = target.shape
-- 
2.43.0


From 0c56ea2daa06387f1d65b8faf710ccd42d056e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 40/43] fix: errors and fluxes of small integer types
 overflowed

---
 petrofit/petrosian/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8875a43..0790fe5 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -87,8 +87,8 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     if area_err is not None or flux_err is not None:
         # Convert input to array
-        area_err = np.zeros_like(area_list) if area_err is None else np.array(area_err)
-        flux_err = np.zeros_like(flux_list) if flux_err is None else np.array(flux_err)
+        area_err = np.zeros_like(area_list) if area_err is None else np.array(area_err, dtype=float)
+        flux_err = np.zeros_like(flux_list) if flux_err is None else np.array(flux_err, dtype=float)
 
         # Validate input
         assert len(area_err) == len(area_list)
@@ -283,9 +283,9 @@ def fraction_to_r(
     """
 
     r_list = np.array(r_list)
-    flux_list = np.array(flux_list)
+    flux_list = np.array(flux_list, dtype=float)
     if flux_err is not None:
-        flux_err = np.array(flux_err)
+        flux_err = np.array(flux_err, dtype=float)
     if r_petrosian_err is not None:
         r_petrosian_err = np.array(r_petrosian_err)
 
@@ -549,10 +549,10 @@ class Petrosian:
 
         self._r_list = np.array(r_list)
         self._area_list = np.array(area_list)
-        self._flux_list = np.array(flux_list)
+        self._flux_list = np.array(flux_list, dtype=float)
 
         self._area_err = None if area_err is None else np.array(area_err)
-        self._flux_err = None if flux_err is None else np.array(flux_err)
+        self._flux_err = None if flux_err is None else np.array(flux_err, dtype=float)
 
         self._validate_input_arrays()
 
-- 
2.43.0


From c9c2c4efaa436caaf73931d3aaa7247b6ce178f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 41/43] fix: squares of integer errors overflowed in
 radial_photometry

---
 petrofit/photometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/photometry.py b/petrofit/photometry.py
index 951364c..a15a6e5 100644
--- a/petrofit/photometry.py
+++ b/petrofit/photometry.py
@@ -198,6 +198,10 @@ def radial_photometry(
         ax.set_ylabel("Pixels")
 
     mask = ~mask if mask is not None else None
+    if error is not None:
+        # Integer errors can overflow when they are squared
+        error = np.asanyarray(error)
+        error = error.astype(np.result_type(error, np.nan), copy=False)
     for i, r in enumerate(r_list):
         aperture = radial_elliptical_aperture(position, r, elong=elong, theta=theta)
 
-- 
2.43.0


From 6ab6e2476037d072a82202ee3b3593ea05d66413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 42/43] fix: small integer types overflowed in
 make_radius_list, elliptical_area_to_r and closest_value_index

---
 petrofit/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index b78c23a..75bee0c 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,7 +60,7 @@ def make_radius_list(max_pix, n, log=False):
             0, np.log10(max_pix), num=n, endpoint=True, base=10.0, dtype=float, axis=0
         )
     else:
-        return np.array([x * max_pix / n for x in range(1, n + 1)])
+        return np.array([x * (1.0 * max_pix) / n for x in range(1, n + 1)])
 
 
 def hst_flux_to_abmag(flux, header):
@@ -115,7 +115,7 @@ def pixel_to_angular(pixel_size, wcs):
 
 def elliptical_area_to_r(area, elong):
     """Convert elliptical area to radius by providing elongation"""
-    a = np.sqrt(elong * area / (np.pi))
+    a = np.sqrt(1.0 * elong * area / (np.pi))
     b = a / elong
     return a, b
 
@@ -168,7 +168,7 @@ def closest_value_index(value, array, growing=False):
     idx = None
     if idx_list.size > 0:
         idx = idx_list[0]
-        idx = np.nanargmin(abs(array[: idx + 1] - value))
+        idx = np.nanargmin(abs(1.0 * array[: idx + 1] - value))
     return idx
 
 
-- 
2.43.0


From 38c78f30378eeee592aa55dd4042875d457a34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 43/43] fix: segm_mask returned None for an empty list of
 sources with the background masked

---
 petrofit/segmentation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index c31d673..632f4b2 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -239,15 +239,12 @@ def segm_mask(source, segm, mask_background=False):
     if not mask_background:
         sources.append(0)
 
-    mask = None
+    mask = np.zeros(segm.data.shape, dtype=bool)
     for source in sources:
         if isinstance(source, SourceCatalog):
             source = [source.label]
 
-        if mask is None:
-            mask = segm.data == source
-        else:
-            mask = (segm.data == source) | mask
+        mask = (segm.data == source) | mask
     return mask
 
 
-- 
2.43.0

