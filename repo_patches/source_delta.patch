From 392d38f808d1a592b3284e1806b2aabca972f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 01/39] fix: dots swapped in the occupations for interdot
 transitions without tunnel coupling

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..f4785c6 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -206,7 +206,9 @@ def get_electron_occupation(
         # the first interdot transition happens between peak 1 (first valley) of tct_bezier and
         # peak 0 (first peak) of tct_bezier-1
         try:
-            ref_line = np.array([[bezier_coords[int(reg) + 1][1, 1, :]], [bezier_coords[int(reg)][0, 1, :]]])
+            # the line points from the first peak to the first valley, so that the signed distance increases towards the
+            # side where dot 1 is filled (required for gamma = 0, where the CDF is a step function)
+            ref_line = np.array([[bezier_coords[int(reg)][0, 1, :]], [bezier_coords[int(reg) + 1][1, 1, :]]])
         except KeyError as e:
             raise IndexError(
                 f"bezier_coords dictionary does not contain an entry for total charge transition (TCT) {e}. "
-- 
2.43.0


From 8522e2e28b7e530308435167b529ad6eede3ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 02/39] fix: gaps in the 2D lead transition mask for windows
 with strongly non-quadratic pixels

---
 .../ideal_csd/geometric/_generate_lead_transition_mask.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
index c929d1c..dcbfada 100644
--- a/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
+++ b/simcats/ideal_csd/geometric/_generate_lead_transition_mask.py
@@ -101,8 +101,12 @@ def generate_lead_transition_mask_2d(
     x_c_rot = rotate_points(points=corner_points, angle=-rotation)[:, 0]
     # generate enough x-values to cover the complete range of the CSD with a
     # higher resolution than required to have a precise result after discretization
-    tct_points = np.empty(((x_res + y_res) * 4, 2))
-    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, (x_res + y_res) * 4)
+    # (the distance of the samples must also be small compared to the shorter pixel edge if the pixels are not quadratic,
+    # as gaps in the transition lines would connect regions with different electron numbers)
+    x_range = np.max(x_c_rot) - np.min(x_c_rot) + 2 * x_step
+    num_points = max((x_res + y_res) * 4, int(np.ceil(x_range / min(x_step, y_step))) * 4)
+    tct_points = np.empty((num_points, 2))
+    tct_points[:, 0] = np.linspace(np.min(x_c_rot) - x_step, np.max(x_c_rot) + x_step, num_points)
 
     # Insert the transition lines into the CSD
     # If the CSD is 2D, the required TCT points are sampled and discretized.
-- 
2.43.0


From d3d92bbe709c2ec16c992a7fb53d7d8b9eadcde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 03/39] fix: 1D scans above the last TCT silently returned
 empty dots instead of raising an IndexError as for 2D scans

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index f4785c6..b9103ca 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -186,6 +186,8 @@ def get_electron_occupation(
     elif csd.ndim == 1:
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
+        # start with the region above the last TCT, all other regions are set by iterating over the TCTs
+        csd_mask[:] = max(tct_functions)
         # iterate TCTs
         for tct_value, tct_func in sorted(tct_functions.items(), reverse=True):
             y_vals_tct = tct_func(x_eval=csd_points_rot[:, 0], lut_entries=lut_entries)
-- 
2.43.0


From 943c791877b1a1608f87410181922bc2877014e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 04/39] fix: TCT value off by one period at positions directly
 on a period boundary

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..62ae290 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -5,8 +5,6 @@ The TCTs are used to generate the boundaries/structures for the geometrically si
 @author: f.hader
 """
 
-import math
-
 # used to check if a single x-value was passed to x_eval
 import numbers
 from typing import Union, Optional
@@ -137,7 +135,8 @@ def tct_bezier(
         for x_id, x in zip(ids_wave, x_eval[ids_wave]):
             # detect position (rising/falling flank or bezier/rotated bezier)
             x_mod_per = np.mod(x, period_length)
-            period_no = math.floor(x / period_length)
+            # floor_divide is consistent with mod for all positions (also directly at the period boundaries)
+            period_no = np.floor_divide(x, period_length)
             if x_mod_per < bezier_length:
                 # bezier at peak/maxima
                 if lut_entries:
-- 
2.43.0


From c334742ce60fca90c5112d3d645e5c81619a90c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 05/39] fix: dot jumps mixed up rows for 2D scans with both
 gates swept from high to low voltages

---
 simcats/distortions/_dot_jumps.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..21e78d3 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -232,9 +232,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -245,15 +245,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            # bring back into original order
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+            # the sorted arrays are views, so occupations and lead_transitions are already in the original order
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From 2de81287513a66cde8623a890b5d4e24b65391f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 06/39] fix: dot jumps of 1D scans used wrong voltages for
 anti-parallel sweeps and crashed if the gate of the axis is fixed

---
 simcats/distortions/_dot_jumps.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 21e78d3..f32f80c 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -169,6 +169,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
             else:
                 self.__activated = True
 
+        # there are no shifts along a gate that is not swept (1D scans of the other gate)
+        limits_axis = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+        if limits_axis[0] == limits_axis[1]:
+            if not freeze:
+                self.__activated = False
+            return occupations, lead_transitions
+
         resolution = occupations.shape[0:2]
         if freeze:
             scale = None
@@ -208,24 +215,22 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # the scan is only reversed as a whole, so that the voltages of both gates still belong together
+            reverse = limits_axis[0] > limits_axis[1]
+            if reverse:
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
             self._noise_function_1d(
                 sorted_occupations,
                 sorted_transitions,
-                sorted_limits_g1,
-                sorted_limits_g2,
+                volt_limits_g1[::-1] if reverse else volt_limits_g1,
+                volt_limits_g2[::-1] if reverse else volt_limits_g2,
                 generate_csd,
                 scale,
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1]
         if len(occupations.shape) == 3:  # 2d scan
             if volt_limits_g2[0] > volt_limits_g2[1]:
                 sorted_occupations = occupations[::-1, :]
-- 
2.43.0


From 4c85705af770becd1f06cf71d0d5cbe9fe2ea37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 07/39] fix: dot jump parameters were scaled with the
 resolution of the wrong gate for non-quadratic resolutions

---
 simcats/distortions/_dot_jumps.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index f32f80c..468e00d 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -176,7 +176,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 self.__activated = False
             return occupations, lead_transitions
 
-        resolution = occupations.shape[0:2]
+        resolution = occupations.shape[:-1]
         if freeze:
             scale = None
             lam = None
@@ -190,15 +190,12 @@ class OccupationDotJumps(OccupationDistortionInterface):
             except AttributeError:
                 lam = self.lam
             if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # the last resolution entry is the number of pixels along the g1 axis for 1D and 2D scans
+                scale *= resolution[-1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                lam *= resolution[-1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
             elif self.axis == 0:  # dot jumps in y direction
-                if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From 5c752cc01adef26678d413526adf7ba6b58f4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 08/39] fix: dot jumps inserted data with a wrong voltage step
 (wrong gate for axis 0 in 1D, range/n instead of range/(n-1))

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 468e00d..4659587 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -311,7 +311,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -337,7 +337,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -459,7 +459,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / (occupation.shape[1] - 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -475,7 +475,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / (occupation.shape[0] - 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From 0688c5084b062a6a32ae4bd1c8ea52c8c1e9e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 09/39] fix: dot jumps of more than 255 pixels wrapped around

---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 4659587..ed6c9af 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -597,7 +597,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -731,7 +731,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From 42d482e3ef0b0ffb682ae48b995cc8bbff731d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 10/39] fix: transition blurring was scaled with the resolution
 of the wrong gate for non-quadratic resolutions

---
 simcats/distortions/_transition_blurring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..35739e6 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -103,8 +103,8 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-                # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # sweeping always happens in x-direction (the second array axis)
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -219,8 +219,8 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-                # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # sweeping always happens in x-direction (the second array axis)
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From 27b8f2c208e7a3f65ef88f8a60499034ffe613a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 11/39] fix: random telegraph noise was scaled with the
 resolution of the wrong gate for non-quadratic resolutions

---
 simcats/distortions/_random_telegraph_noise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..61b366b 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -139,13 +139,13 @@ class RandomTelegraphNoise(DistortionInterface):
         if len(original.shape) == 2:
             resolution = original.shape
             if volt_limits_g1[0] == volt_limits_g1[1]:
-                scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                scale *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
             else:
                 scale *= np.maximum(
-                    resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
-                    resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
+                    resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1)),
+                    resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2)),
                 )
         else:
             resolution = (original.shape[0], original.shape[0])
-- 
2.43.0


From 70dadd08396bd87c4bdd21e81ee773de1b5010b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 12/39] fix: random telegraph noise crashed for resolutions
 with a burst length below one pixel

---
 simcats/distortions/_random_telegraph_noise.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 61b366b..d566056 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -3,6 +3,7 @@
 @author: s.fleitmann
 """
 
+import warnings
 from typing import Union, Optional
 
 import numpy as np
@@ -151,6 +152,13 @@ class RandomTelegraphNoise(DistortionInterface):
             resolution = (original.shape[0], original.shape[0])
             # sweep between starting and ending point
             scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
+        if 0 < scale < 1:
+            # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
+            warnings.warn(
+                "The given scale in voltages results in a pixelwise scale of less than 1 and is thus set to 1. "
+                "Consider using a larger scale or disabling random telegraph noise for coarse scans."
+            )
+            scale = 1
 
         try:
             std = self.std.sample_parameter()
-- 
2.43.0


From 31de10e84200d4010e28f548403e3ba82a17874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 13/39] fix: sensor scans passed the range of sensor gate 1 as
 range of sensor gate 2 to the response distortions

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..9b8f518 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -540,7 +540,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 35eaed3730b7d708e923f8facf360773dc7f00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 14/39] fix: 1D sensor scans crashed depending on the notation
 of the resolution

---
 simcats/_simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9b8f518..1e1eeed 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -463,6 +463,10 @@ class Simulation:
                 f"a fixed voltage for the corresponding gate, to perform a single gate sweep."
             )
 
+        # a resolution with only one entry describes a 1D scan
+        if not type(resolution) == int and len(resolution) == 1:
+            resolution = int(resolution[0])
+
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
             if type(resolution) == int:
                 occupations = np.zeros((resolution, 2))
@@ -478,9 +482,6 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
             if type(resolution) == int:
                 occupations = np.ones((resolution, 2))
                 occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
-- 
2.43.0


From aa063b58f35d85919f78a4416e46dad9a7cf602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 15/39] fix: measure crashed if sensor gate limits are set but
 no sensor voltages are applied

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 1e1eeed..02680e6 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From 934df5f4892936f41d0e497e957087941355acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 16/39] fix: voltage limits given as list were rejected with an
 AttributeError

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 02680e6..54eac4a 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -587,7 +587,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -616,7 +616,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -646,7 +646,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -676,7 +676,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From 2ce1504c06702993db53d6c7a53b4746fcd481ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 17/39] fix: barrier 1 reference point of the scan sensor used
 the occupation of dot 1 for the lever-arm of dot 2

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..0a1f9c6 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -620,7 +620,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From 11aa35518910803fab702a8274dbbd47ec9b233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 18/39] fix: reference point of the scan sensor used the
 voltage of sensor gate 1 for sensor gate 2

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0a1f9c6..6259465 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -613,7 +613,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
             gate_offset = np.dot(self.alpha_gate[1:], voltages)
         else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
+            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g2[0]])
             gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
-- 
2.43.0


From 59f63bf407fb5f6df3c210f573e794b18cbdc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 19/39] fix: sensor scan labels used the voltage of g1 as
 voltage of g2 for the fully conductive potential

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 6259465..090ce56 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -830,7 +830,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 2a54e89bc69fb1814b0cf27434c715bf61c7d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 20/39] fix: sensor scan labels assigned peak deformations to
 the wrong peaks if peaks are not listed by ascending mu0

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 090ce56..f2132bb 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -881,10 +881,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
-                distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+            # the keys of the deformations refer to the peak number as listed in sensor_peak_function
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
+                distorted_pot = sensor_pot + (peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
-- 
2.43.0


From 0a9e1a68b611aec26e06cd6f1098a28f68c706b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 21/39] fix: sensor scan labels rejected integer plunger gate
 voltages

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index f2132bb..0c6111f 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -818,8 +818,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From c579387d0c639290854222645b1bf3c391143bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 22/39] fix: sensor rise was not shifted to the requested fully
 conductive point for mu0 != 0

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 0a3aae9ed95128af45e2ae945c8e879b0afd2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 23/39] fix: is_point_below_line rejected horizontal lines
 given as float

---
 simcats/support_functions/_linear_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/support_functions/_linear_algebra.py b/simcats/support_functions/_linear_algebra.py
index 35f4ca5..1a3d911 100644
--- a/simcats/support_functions/_linear_algebra.py
+++ b/simcats/support_functions/_linear_algebra.py
@@ -24,7 +24,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
     x, y = point
 
     # If the straight line is specified as a single float, it is a horizontal line
-    if isinstance(line, int):
+    if isinstance(line, numbers.Real):
         b = line
         return y < b
     # If the straight line is specified as a tuple (m, b)
@@ -34,7 +34,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
         return y < y_line
     else:
         raise ValueError(
-            "The straight line must be specified either as a tuple (m, b) or as a single integer for a horizontal line.")
+            "The straight line must be specified either as a tuple (m, b) or as a single number for a horizontal line.")
 
 
 def line_line_intersection(line1: Union[Sequence, np.ndarray, numbers.Real],
-- 
2.43.0


From de3cc52c8c7c2ed7c400ecb674c18cae031598ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 24/39] fix: circular peak deformation jumped to the wrong side
 beyond a negative radius

---
 simcats/sensor/deformation/_sensor_peak_deformation_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
index ad87c97..0c04a8b 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_circle.py
@@ -92,7 +92,7 @@ class SensorPeakDeformationCircle(SensorPeakDeformationInterface):
 
         # Calculation of both possible points of the circle that have the distance dist to the middle line
         temp1 = mu0 - (radius_abs - cos_angle * radius_abs) * sign_radius
-        temp2 = mu0 - radius_volt * np.sign(radius_volt)
+        temp2 = mu0 - radius_volt
 
         # Selection of the result that is closer to the output mu0
         result = np.where(dist <= radius_abs, temp1, temp2)
-- 
2.43.0


From 0e5861d59aa3579fecda33fbebe245c59946ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 25/39] fix: representation of the multi GLF barrier function
 was not a valid expression

---
 simcats/sensor/barrier_function/_barrier_function_multi_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
index 8c05cc7..21f1134 100644
--- a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
+++ b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
@@ -153,5 +153,5 @@ class BarrierFunctionMultiGLF(BarrierFunctionInterface):
     def __repr__(self):
         return (
                 self.__class__.__name__
-                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *params={self.__params}"
+                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *{self.__params})"
         )
-- 
2.43.0


From a63c7973693177e86d964bda09bf8d2002f4b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 26/39] fix: sharing peak deformations between sensors rebound
 them to the last sensor

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0c6111f..39e912e 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -83,13 +83,14 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 is the actual deformation object used for a wavefront.
             """
         self.sensor_peak_function = sensor_peak_function
-        self.sensor_peak_deformations = sensor_peak_deformations
+        # every sensor has its own deformation objects, because they refer to the sensor they belong to
+        self.sensor_peak_deformations = {idx: copy.copy(x) for idx, x in (sensor_peak_deformations or {}).items()}
         self.final_rise = final_rise
 
         if self.sensor_peak_function is not None:
             for idx, peak_func in enumerate(self.sensor_peak_function):
-                if sensor_peak_deformations is not None and idx in sensor_peak_deformations:
-                    deformation = sensor_peak_deformations[idx]
+                if idx in self.sensor_peak_deformations:
+                    deformation = self.sensor_peak_deformations[idx]
                     deformation.sensor = self
 
         self.alpha_dot = alpha_dot
-- 
2.43.0


From 82b144eda97e4344f177121f18f63a39ba14429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 27/39] fix: reading the response of a scan sensor with final
 rise changed its state and thereby later responses

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 39e912e..24dec5d 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -547,16 +547,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                     sensor_swept=sensor_swept
                 )
 
-                fully_conductive_potential = self.sensor_potential(
-                    occupations=np.array((occ,)),
-                    volt_limits_g1=g1_voltage,
-                    volt_limits_g2=g2_voltage,
-                    volt_limits_sensor_g1=fully_conductive_point[0],
-                    volt_limits_sensor_g2=fully_conductive_point[1],
-                )
+                # calculated directly, because calling sensor_potential would overwrite the state of the current scan
+                fully_conductive_potential = (np.dot(self.alpha_dot[0], occ) +
+                                              np.dot(self.alpha_gate[0], [g1_voltage, g2_voltage]) +
+                                              np.dot(self.alpha_sensor_gate[0], fully_conductive_point) +
+                                              self.offset_mu_sens[0])
 
-                final_rise_resp = self.final_rise.sensor_function(sensor_potential,
-                                                                  offset=fully_conductive_potential[0])
+                final_rise_resp = self.final_rise.sensor_function(sensor_potential, offset=fully_conductive_potential)
 
                 sens_resp = np.maximum(sens_resp, final_rise_resp)
 
-- 
2.43.0


From a8528aecd88b300869d57827a54cc325151800a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 28/39] fix: results returned by occupation distortions were
 ignored unless the inputs were modified in place

---
 simcats/_simulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 54eac4a..7a34458 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -251,7 +251,9 @@ class Simulation:
         # add distortions to the occupations
         if self.__occupation_distortions is not None:
             for i in self.__occupation_distortions:
-                i.noise_function(occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd)
+                occupations, lead_transitions = i.noise_function(
+                    occupations, lead_transitions, sweep_range_g1, sweep_range_g2, generate_csd
+                )
 
                 def generate_csd_with_noise(volt_limits_g1, volt_limits_g2, resolution, generate_csd, noise_function):
                     """
@@ -259,9 +261,8 @@ class Simulation:
                     next distortions.
                     """
                     occupations, lead_transitions = generate_csd(volt_limits_g1, volt_limits_g2, resolution)
-                    noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
-                                   freeze=True)
-                    return occupations, lead_transitions
+                    return noise_function(occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd,
+                                          freeze=True)
 
                 generate_csd = partial(generate_csd_with_noise, generate_csd=generate_csd,
                                        noise_function=i.noise_function)
-- 
2.43.0


From 64f25cccefe14e74c7d41e21c6e61780a4517f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 29/39] fix: dot jumps crashed if data for jumps of a following
 distortion along the same axis exceeds the scan

---
 simcats/distortions/_dot_jumps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index ed6c9af..308f6cd 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -451,6 +451,10 @@ class OccupationDotJumps(OccupationDistortionInterface):
         """
         if use_previous_noise:
             noise = self.__previous_noise
+            # data generated for jumps of a following distortion can be larger than the scan, there are no jumps beyond it
+            missing = occupation.shape[self.axis] - len(noise)
+            if missing > 0:
+                noise = np.concatenate((noise, np.zeros(missing, dtype=int)))
         else:
             noise = generate_dot_jumps_blockwise(occupation[:, :, 0].shape, scale, lam, axis=self.axis, rng=self.rng)
             self.__previous_noise = noise
-- 
2.43.0


From bb549df4b48b1eff2998df5a30c0096b52f8bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 30/39] fix: pink noise was NaN if no frequency of the scan
 reaches fmin (e.g. fmin=0.5 and an odd number of pixels)

---
 simcats/distortions/_pink_noise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 294c499..13530e2 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -123,6 +123,9 @@ def pink_gaussian_noise(
         np.ndarray: Original image distorted by pink noise.
 
     """
-    noise = cn.powerlaw_psd_gaussian(1, np.prod(original.shape), fmin=fmin, random_state=rng) * scale
+    size = np.prod(original.shape)
+    # at least one of the frequencies available for this number of pixels has to remain, otherwise the noise is NaN
+    fmin = min(fmin, np.fft.rfftfreq(size)[-1])
+    noise = cn.powerlaw_psd_gaussian(1, size, fmin=fmin, random_state=rng) * scale
     noise = np.reshape(noise, original.shape)
     return original + noise
-- 
2.43.0


From e2f4b8c731ef566dd0b120f2695e95ced322d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 31/39] fix: dot jumps crashed if 1D data generated for jumps
 of a following distortion exceeds the scan

---
 simcats/distortions/_dot_jumps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 308f6cd..ffdbe90 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -303,6 +303,10 @@ class OccupationDotJumps(OccupationDistortionInterface):
 
         if use_previous_noise:
             noise = self.__previous_noise
+            # data generated for jumps of a following distortion can be larger than the scan, there are no jumps beyond it
+            missing = occupations.shape[0] - len(noise)
+            if missing > 0:
+                noise = np.concatenate((noise, np.zeros(missing, dtype=int)))
         else:
             noise = generate_dot_jumps_blockwise(occupation_2d[:, :, 0].shape, scale, lam, axis=self.axis, rng=self.rng)
             self.__previous_noise = noise
-- 
2.43.0


From e4cef93b5371e444c82f8e8c8f27ad1a13b02af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 32/39] fix: config sampler ignored the quality multiplier for
 the distortions

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..99811f3 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,9 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From 5c845475e41b7e7703e17af99229453514a692b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 33/39] fix: representation of the multi GLF barrier function
 still was no valid call

---
 simcats/sensor/barrier_function/_barrier_function_multi_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
index 21f1134..826e45d 100644
--- a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
+++ b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
@@ -153,5 +153,5 @@ class BarrierFunctionMultiGLF(BarrierFunctionInterface):
     def __repr__(self):
         return (
                 self.__class__.__name__
-                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *{self.__params})"
+                + f"({self.pinch_off}, {self.fully_conductive}, *{self.__params})"
         )
-- 
2.43.0


From 617cd6a5b8548c65671d9ac034bf115f3b4e5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 34/39] fix: labels of sensor scans crashed for sensors without
 peaks

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 24dec5d..fcf2e10 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -870,6 +870,9 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         all_peaks = copy.deepcopy(self.sensor_peak_function)
         if isinstance(all_peaks, SensorPeakInterface):
             all_peaks = [all_peaks]
+        elif all_peaks is None:
+            # a sensor without peaks ("linear" sensor) has no Coulomb peaks to be labeled
+            all_peaks = []
 
         # Sensor peaks are sorted according to their mu0 so that the increases in the masks function correctly
         # Peaks with a smaller mu0 overwrite the range of the previous peaks. The peaks, relating to the mu0, must
-- 
2.43.0


From 77d77c9eca482c3df2ca576c3659f6b13305989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 35/39] fix: integer TCT parameters or positions give the same
 curve as the equal real numbers

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 62ae290..b2878a0 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -52,15 +52,15 @@ def tct_bezier(
         x_eval = np.array([x_eval])
     else:
         single_value = False
-    # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    # copy x_eval so that the original supplied array is not modified (as floats, because it is shifted below)
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
 
     # setup coordinates for bezier curve nodes
-    x_vals = np.array([tct_params[4], 0, tct_params[6]])
-    y_vals = np.array([tct_params[5], 0, tct_params[7]])
+    x_vals = np.array([tct_params[4], 0, tct_params[6]], dtype=float)
+    y_vals = np.array([tct_params[5], 0, tct_params[7]], dtype=float)
     if x_vals[0] == x_vals[2] and y_vals[0] == y_vals[2]:
         # no interdot coupling region specified -> center anchor is equal to outer anchors
         x_vals[1] = x_vals[0]
-- 
2.43.0


From 62ce804e7e01d55edc30780ac955026cd4c9b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 36/39] fix: blurring integer occupations no longer truncates
 the result

---
 simcats/distortions/_transition_blurring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index 35739e6..1a01f69 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -100,6 +100,9 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
                 sigma = self.sigma
         self.__latest_sigma = sigma
         if sigma > 0:
+            # integer arrays can't hold the blurred occupations
+            if not np.issubdtype(occupations.dtype, np.inexact):
+                occupations = occupations.astype(float)
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
@@ -216,6 +219,9 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
                 sigma = self.sigma
         self.__latest_sigma = sigma
         if sigma > 0:
+            # integer arrays can't hold the blurred occupations
+            if not np.issubdtype(occupations.dtype, np.inexact):
+                occupations = occupations.astype(float)
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-- 
2.43.0


From 80848e59c8ae116d23e7c480744e348357144be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 37/39] fix: fermi filter of integer data no longer truncates
 the result

---
 simcats/support_functions/_fermi_filter1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simcats/support_functions/_fermi_filter1d.py b/simcats/support_functions/_fermi_filter1d.py
index 5a87af5..d4a6d72 100644
--- a/simcats/support_functions/_fermi_filter1d.py
+++ b/simcats/support_functions/_fermi_filter1d.py
@@ -71,4 +71,8 @@ def fermi_filter1d(
     kernel = fermi_dirac_derivative(x=np.arange(-radius, radius + 1), x0=0, sigma=sigma)
     # Normalize the kernel so that it sums to 1
     kernel /= np.sum(kernel)
+    # the output has the data type of the input, but integers can't hold the smoothed values
+    input = np.asarray(input)
+    if not np.issubdtype(input.dtype, np.inexact):
+        input = input.astype(float)
     return convolve1d(input=input, weights=kernel, axis=axis, mode=mode, cval=cval)
-- 
2.43.0


From 19629e01b7128bb2250fb1118159215f51359865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 38/39] fix: peak deformations for a sensor potential that only
 depends on the second sensor gate

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index fcf2e10..a989fa5 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -390,6 +390,17 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                   f"final_rise={self.__final_rise}, sensor_peak_deformations={self.sensor_peak_deformations})"
         )
 
+    def _middle_line_direction(self) -> np.ndarray:
+        """Direction (in the voltage space of the sensor gates) of the line on which peaks are not deformed.
+
+        Returns:
+            np.ndarray: Vector along the lever arms of the sensor potential.
+        """
+        if self.alpha_sensor_gate[0, 0] == 0:
+            # the potential only depends on the second sensor gate, the line is vertical
+            return np.array([0, np.sign(self.alpha_sensor_gate[0, 1])])
+        return np.array([1, self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]])
+
     def _peak_func(self,
                    mu_sens: Union[float, np.ndarray],
                    volt_g1: Union[float, np.ndarray],
@@ -428,13 +439,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         if self.__sensor_peak_function is None:
             return mu_sens
         else:
-            m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
+            direction = self._middle_line_direction()
 
             resp_sum = 0
 
             dist = signed_dist_points_line(points=np.array([[volt_sensor_g1, volt_sensor_g2]]),
                                            line_points=np.array(
-                                               [middle_line_point, middle_line_point + np.array([1, m])]))[0]
+                                               [middle_line_point, middle_line_point + direction]))[0]
 
             for idx, p in enumerate(self.__sensor_peak_function):
                 old_mu0 = p.mu0
@@ -836,8 +847,6 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         coulomb_peak_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
         conductive_mask = np.zeros_like(sensor_pot, dtype=np.uint8)
 
-        m = self.alpha_sensor_gate[0, 1] / self.alpha_sensor_gate[0, 0]
-
         # Create array with same voltages tuples with the same resolution as the sensor potential
         if potential.ndim == 3:
             x_values = np.linspace(volt_limits_sensor_g1[0], volt_limits_sensor_g1[-1], sensor_pot.shape[1])
@@ -862,7 +871,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             # Calculate distances from the middle line
             dist_array = signed_dist_points_line(points=xy_array,
                                                  line_points=np.array(
-                                                     [middle_point, middle_point + np.array([1, m])]))
+                                                     [middle_point,
+                                                      middle_point + self._middle_line_direction()]))
 
             # Reshape dist_array to the initial shape (shape of the potential)
             dist_array = dist_array.reshape(sensor_pot.shape)
-- 
2.43.0


From ddde8dd8489019a66cee91cd015690af6b2edee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 39/39] fix: scan sensors shared their lever-arm and offset
 arrays, so adjusting one changed others created with defaults

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index a989fa5..b33f665 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -243,7 +243,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_dot = np.array([alpha_dot, alpha_dot, alpha_dot])
                 return
             elif alpha_dot.shape == (3, 2):
-                self.__alpha_dot = alpha_dot
+                self.__alpha_dot = deepcopy(alpha_dot)
                 return
         elif alpha_dot is None:
             self.__alpha_dot = np.array([[0, 0], [0, 0], [0, 0]])
@@ -294,7 +294,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_gate = np.array([alpha_gate, alpha_gate, alpha_gate])
                 return
             elif alpha_gate.shape == (3, 2):
-                self.__alpha_gate = alpha_gate
+                self.__alpha_gate = deepcopy(alpha_gate)
                 return
         elif alpha_gate is None:
             self.__alpha_gate = np.array([[0, 0], [0, 0], [0, 0]])
@@ -340,7 +340,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check if alpha_sensor_gate is passed in an acceptable format
         if isinstance(alpha_sensor_gate, np.ndarray) and alpha_sensor_gate.shape == (3, 2):
-            self.__alpha_sensor_gate = alpha_sensor_gate
+            self.__alpha_sensor_gate = deepcopy(alpha_sensor_gate)
             return
 
         # Raise error if none of the cases for valid alpha_sensor_gate formats from before is true
@@ -374,7 +374,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check datatype of offset_mu_sens
         if isinstance(offset_mu_sens, np.ndarray) and offset_mu_sens.shape == (3,):
-            self.__offset_mu_sens = offset_mu_sens
+            self.__offset_mu_sens = deepcopy(offset_mu_sens)
         elif isinstance(offset_mu_sens, (float, int)):
             self.__offset_mu_sens = np.array([offset_mu_sens, offset_mu_sens, offset_mu_sens])
         else:
-- 
2.43.0

