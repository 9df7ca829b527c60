From 980796f73af71d2465c17b1ab55b76825e7c4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/56] fix: a ray normal to the glass wall no longer traces to
 NaN or a wrong direction

---
 openptv_python/ray_tracing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index 30c2b34..bf3cfea 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -94,8 +94,12 @@ def fast_ray_tracing(
         transformed_direction - transformed_direction_parallel
     )
     bp = unit_vector(transformed_direction_perpendicular)
+    # for a ray normal to the glass, bp is made of rounding errors and so can point along
+    # the glass vector, and abs(n) can be slightly larger than 1
+    bp = bp - glass_direction * np.dot(bp, glass_direction)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium1 / refractive_index_medium2
+    p = np.sqrt(max(1 - n**2, 0.0))
+    p = p * refractive_index_medium1 / refractive_index_medium2
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
@@ -119,7 +123,8 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular_scaled)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium2 / refractive_index_medium3
+    p = np.sqrt(max(1 - n**2, 0.0))
+    p = p * refractive_index_medium2 / refractive_index_medium3
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
-- 
2.43.0


From df956638954a654928561b6c347f251cc68877c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/56] fix: correct_brown_affine inverts distort_brown_affine
 with shear and decentering

---
 openptv_python/trafo.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index 5358ec5..d277b46 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -182,6 +182,10 @@ def correct_brown_affine(
     two_p2 = 2 * ap[4]
     cos_she = np.cos(ap[6])
     sin_she = np.sin(ap[6])
+    # undo the affine part once: what is left is the point moved by the distortion.
+    # distort_brown_affine() moves y using the already moved x, so does the inverse.
+    yd = y / cos_she
+    xd = (x + yd * sin_she) / ap[5]
 
     while True:
         r = rq
@@ -189,14 +193,9 @@ def correct_brown_affine(
         xq_common = xq * common_term
         yq_common = yq * common_term
 
-        xq = (
-            (x + yq * sin_she) / ap[5]
-            - xq_common
-            - ap[3] * (r**2 + 2 * xq**2)
-            - two_p2 * xq * yq
-        )
+        xq = xd - xq_common - ap[3] * (r**2 + 2 * xq**2) - two_p2 * xq * yq
 
-        yq = y / cos_she - yq_common - ap[4] * (r**2 + 2 * yq**2) - two_p1 * xq * yq
+        yq = yd - yq_common - ap[4] * (r**2 + 2 * yq**2) - two_p1 * xd * yq
 
         rq = np.sqrt(xq**2 + yq**2)
 
@@ -209,14 +208,9 @@ def correct_brown_affine(
             break
 
     r = rq
-    x1 = (
-        (x + yq * sin_she) / ap[5]
-        - xq * common_term
-        - ap[3] * (r**2 + 2 * xq**2)
-        - two_p2 * xq * yq
-    )
+    x1 = xd - xq * common_term - ap[3] * (r**2 + 2 * xq**2) - two_p2 * xq * yq
 
-    y1 = y / cos_she - yq * common_term - ap[4] * (r**2 + 2 * yq**2) - two_p1 * xq * yq
+    y1 = yd - yq * common_term - ap[4] * (r**2 + 2 * yq**2) - two_p1 * xd * yq
 
     return x1, y1
 
-- 
2.43.0


From 958add9d95814e8aef8542901b44709e1b6a367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 03/56] fix: Calibration.set_rotation_matrix no longer fails on
 every call

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..8ffa96c 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From 811659266d94955950a38928843050ff28d38fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 04/56] fix: read_ori returns the calibration it read

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 8ffa96c..e4eeef9 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From f4447bdedcfa40515cd530c68091cf5b55fc43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 05/56] fix: Calibration.copy fills the object it is given

---
 openptv_python/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index e4eeef9..fcc5462 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,12 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = copy.deepcopy(self.ext_par)
+        new_copy.int_par = copy.deepcopy(self.int_par)
+        new_copy.glass_par = copy.deepcopy(self.glass_par)
+        new_copy.added_par = copy.deepcopy(self.added_par)
+        new_copy.mmlut = copy.deepcopy(self.mmlut)
+        new_copy.mmlut_data = copy.deepcopy(self.mmlut_data)
 
 
 def write_ori(
-- 
2.43.0


From 839cbba8ee0f444a1f4a2074e7de3db3d66f7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/56] fix: orient compares distorted detections with
 distorted projections

The detections were corrected for distortion but compared with img_coord(),
which includes it, so the adjustment walked away from the true calibration
of any camera with distortion, affine scale or shear.
---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..5d2c1c7 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -18,7 +18,7 @@ from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import pixel_to_metric
 from .vec_utils import unit_vector, vec_norm, vec_set
 
 
@@ -338,9 +338,9 @@ def orient(
             elif flags.useflag == 3 and i % 3 == 0:
                 continue
 
-            # get metric flat-image coordinates of the detected point
+            # get metric image coordinates of the detected point, distorted as
+            # those of the projection they are compared with
             xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)
-            xc, yc = correct_brown_affine(xc, yc, cal.added_par)
 
             # Projected 2D position on sensor of corresponding known point
             cal.update_rotation_matrix()
-- 
2.43.0


From 3e0b270c2f08393e17452bf36e71beb3a87fb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 07/56] fix: multi_cam_point_positions returns the position of
 every point

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 5d2c1c7..46584ea 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From b4d9c0a508bb06671f6edef27d5cef586790f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 08/56] fix: full_calibration returns the residuals of the
 targets it used

With unmatched detections or a useflag the rows held the residuals of other
points, and of the identity observations.
---
 openptv_python/orientation.py | 42 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 46584ea..1ec7803 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -193,6 +193,21 @@ def num_deriv_exterior(
     return (x_ders, y_ders)
 
 
+def is_point_used(pix: Target, i: int, flags: OrientPar) -> bool:
+    """Tell whether orient() uses known point ``i``, detected as ``pix``."""
+    if pix.pnr != i:  # the point has no detection
+        return False
+
+    if flags.useflag == 1 and i % 2 == 0:
+        return False
+    if flags.useflag == 2 and i % 2 != 0:
+        return False
+    if flags.useflag == 3 and i % 3 == 0:
+        return False
+
+    return True
+
+
 def orient(
     cal: Calibration,
     cpar: ControlPar,
@@ -328,14 +343,7 @@ def orient(
         itnum += 1
         n = 0
         for i in range(nfix):
-            if pix[i].pnr != i:  # we need to check this point here
-                continue
-
-            if flags.useflag == 1 and i % 2 == 0:
-                continue
-            elif flags.useflag == 2 and i % 2 != 0:
-                continue
-            elif flags.useflag == 3 and i % 3 == 0:
+            if not is_point_used(pix[i], i, flags):
                 continue
 
             # get metric image coordinates of the detected point, distorted as
@@ -862,7 +870,7 @@ def full_calibration(
     ------
     ValueError if iteration did not converge.
     """
-    err_est = np.empty((NPAR + 1), dtype=np.float64)
+    err_est = np.zeros((NPAR + 1), dtype=np.float64)
 
     if isinstance(img_pts, np.ndarray):
         # convert numpy array to list of Target objects
@@ -886,12 +894,16 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
-
-    for ix, img_pt in enumerate(targs):
-        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
+    # the targets orient() used, in the order of their residuals
+    used = np.array(
+        [
+            ix
+            for ix in range(len(ref_pts))
+            if is_point_used(targs[ix], ix, orient_par)
+        ],
+        dtype=np.int_,
+    )
+    ret = np.array(residuals[: 2 * len(used)], dtype=np.float64).reshape(-1, 2)
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 09809a60d50db9788290dcb7aff356cbd1fca9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 09/56] fix: orient can adjust the glass vector

The saved glass vector was that of the first iteration, so every later
adjustment of it was lost, and the two directions it is adjusted along were
perpendicular to it only for a glass vector along z.
---
 openptv_python/orientation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 1ec7803..a026ddf 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -301,15 +301,16 @@ def orient(
     glass_dir = cal.glass_par
     nGl = vec_norm(glass_dir)
 
-    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[0]
+    # two directions perpendicular to the glass vector
+    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[1]
     e1_y = 3 * cal.glass_par[0] - 1 * cal.glass_par[2]
-    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[1]
+    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[0]
     tmp_vec = vec_set(e1_x, e1_y, e1_z)
     e1 = unit_vector(tmp_vec)
 
-    e2_x = e1_y * cal.glass_par[2] - e1_z * cal.glass_par[0]
+    e2_x = e1_y * cal.glass_par[2] - e1_z * cal.glass_par[1]
     e2_y = e1_z * cal.glass_par[0] - e1_x * cal.glass_par[2]
-    e2_z = e1_x * cal.glass_par[1] - e1_y * cal.glass_par[1]
+    e2_z = e1_x * cal.glass_par[1] - e1_y * cal.glass_par[0]
     tmp_vec = vec_set(e2_x, e2_y, e2_z)
     e2 = unit_vector(tmp_vec)
 
@@ -331,17 +332,18 @@ def orient(
         cal.added_par[6],
     ]
 
-    # backup for changing back and forth
-    safety_x = cal.glass_par[0]
-    safety_y = cal.glass_par[1]
-    safety_z = cal.glass_par[2]
-
     itnum = 0
     stopflag = False
     n = 0
     while not (stopflag or itnum >= NUM_ITER):
         itnum += 1
         n = 0
+
+        # backup for changing back and forth
+        safety_x = cal.glass_par[0]
+        safety_y = cal.glass_par[1]
+        safety_z = cal.glass_par[2]
+
         for i in range(nfix):
             if not is_point_used(pix[i], i, flags):
                 continue
-- 
2.43.0


From 83ee0c17502dadcc4ec8e7748efade8a1c7d798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 10/56] fix: orient leaves the calibration untouched when it
 does not converge

As its documentation and that of full_calibration() say.
---
 openptv_python/orientation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index a026ddf..87c3473 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1,5 +1,6 @@
 """Functions for the orientation of the camera."""
 
+import copy
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -275,6 +276,10 @@ def orient(
     """
     maxsize = nfix * 2 + IDT
 
+    # work on a copy: unless the iteration converges, cal stays as it is
+    cal_in = cal
+    cal = copy.deepcopy(cal_in)
+
     # dm: float = 0.000001
     # drad: float = 0.0000001
 
@@ -617,6 +622,7 @@ def orient(
 
     if stopflag:
         cal.update_rotation_matrix()
+        cal.copy(cal_in)
         return resi
     else:
         return None
-- 
2.43.0


From 556d73a324f767669d1a401cbcc6e3e91b01b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 11/56] fix: volumedimension follows the corner rays to z_min

It went to z_min + 2 pos[2] instead, so the volume did not cover what the
cameras see at its far end.
---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..4d7af1f 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -427,9 +427,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From aac9f6a28e96ab2e5d0bc012a8a9ab424259d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 12/56] fix: corner rays of the multimedia table and volume
 start at flat coordinates

Distortion is centred on the sensor, the principal point is subtracted after
correcting it, as dist_to_flat() does.
---
 openptv_python/multimed.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 4d7af1f..0e1d667 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -10,7 +10,7 @@ from .parameters import (
     VolumePar,
 )
 from .ray_tracing import ray_tracing
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import dist_to_flat, pixel_to_metric
 from .vec_utils import vec_norm
 
 
@@ -266,9 +266,7 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     for i in range(2):
         for j in range(2):
             x, y = pixel_to_metric(xc[i], yc[j], cpar)
-            x -= cal.int_par.xh
-            y -= cal.int_par.yh
-            x, y = correct_brown_affine(x, y, cal.added_par)
+            x, y = dist_to_flat(x, y, cal)
             pos, a = ray_tracing(x, y, cal, cpar.mm)
             xyz = move_along_ray(z_min, pos, a)
             xyz_t, _, _, cal_t.ext_par.z0 = trans_cam_point(
@@ -420,10 +418,7 @@ def volumedimension(
             for j in range(2):
                 x, y = pixel_to_metric(xc[i], yc[j], cpar)
 
-                x -= cal[i_cam].int_par.xh
-                y -= cal[i_cam].int_par.yh
-
-                x, y = correct_brown_affine(x, y, cal[i_cam].added_par)
+                x, y = dist_to_flat(x, y, cal[i_cam])
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-- 
2.43.0


From ef3c326207a61011e9c8e809dcef389cdd615f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 13/56] fix: no multimedia factor from beyond the edge of the
 table

Positions in the last row or column of the table read the next row, or past
the end of it (IndexError, also when projecting a point after init_mmlut).
---
 openptv_python/multimed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 0e1d667..608fa4b 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -359,9 +359,10 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    # the box needs a table entry on all its corners
+    if ir < 0 or ir >= nr - 1:
         return 0.0
-    if iz < 0 or iz > nz:
+    if sz < 0 or iz < 0 or iz >= nz - 1:
         return 0.0
 
     # bilinear interpolation in r/z box
-- 
2.43.0


From 3d789c546c04e4b15894d0433cab8ce462d69341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 14/56] fix: init_mmlut rebuilds the table for the volume it is
 given

A second call changed the size and origin of the table but kept its values.
---
 openptv_python/multimed.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 608fa4b..db21d05 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -315,15 +315,14 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
-
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
+
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
 
         # print(f"filled mmlut data with {data}")
         # cal.mmlut_data = data
-- 
2.43.0


From 5013869920c8b346a4563b0c6fb9ec9906ad13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 15/56] fix: candidate search does not skip the first targets
 of a long list

With 8191 targets or more the truncation errors of the binary search exceed
the margin of 12, and the leftmost targets were never candidates.
---
 openptv_python/find_candidate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..354eb45 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -204,4 +204,8 @@ def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) ->
     if start_point < 0:
         start_point = 0
 
+    # In long lists the truncation errors add up to more than that.
+    while start_point > 0 and x[start_point - 1] >= xa - eps0:
+        start_point -= 1
+
     return start_point
-- 
2.43.0


From 469c12f466d3cc01819807ef17a59198f90b6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 16/56] fix: no correspondences from the unused part of the
 scratch buffer

take_best_candidates() got the whole buffer, whose unused entries name target
0 of every camera: when those were free, they came out as a match that no
adjacency list supports.
---
 openptv_python/correspondences.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..356a5a0 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -653,31 +653,39 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
+        matched = four_camera_matching(
             corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:matched], con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
+        matched = three_camera_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched],
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
+        matched = consistent_pair_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched],
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 8b00ea2f205b96f64826d8172097e130a7a02a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 17/56] fix: triplets only use filled entries of the adjacency
 lists

Unused entries hold 0, so target 0 of the third camera matched any pair.
---
 openptv_python/correspondences.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 356a5a0..a8ece67 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -187,7 +187,7 @@ def three_camera_matching(
 
                 for j in range(corr_list[i1][i2][i].n):
                     p2 = corr_list[i1][i2][i].p2[j]
-                    if p2 > nmax or tusage[i2][p2] > 0:
+                    if p2 >= nmax or tusage[i2][p2] > 0:
                         continue
 
                     # print(f"p2 {p2}")
@@ -195,7 +195,7 @@ def three_camera_matching(
                     for i3 in range(i2 + 1, num_cams):
                         for k in range(corr_list[i1][i3][i].n):
                             p3 = corr_list[i1][i3][i].p2[k]
-                            if p3 > nmax or tusage[i3][p3] > 0:
+                            if p3 >= nmax or tusage[i3][p3] > 0:
                                 continue
 
                             # print(f"p3 {p3}")
@@ -204,7 +204,10 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            # Only the first n entries are candidates.
+                            p2array = np.atleast_1d(
+                                corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n]
+                            )
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From 55b3d87f316d1871fcf11d1b8427a314e5f6b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 18/56] fix: correspondences with two and three cameras

The counts are written to four elements, of which py_correspondences()
allocated one per camera, and a triplet of three cameras did not fit its
record: both raised on every call.
---
 openptv_python/correspondences.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index a8ece67..de86abd 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -231,7 +231,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(scratch[matched].p.shape, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
@@ -276,8 +276,7 @@ def consistent_pair_matching(
                 if corr <= accept_corr:
                     continue
 
-                for n in range(num_cams):
-                    scratch[matched].p[n] = -2
+                scratch[matched].p[:] = -2
 
                 scratch[matched].p[i1] = p1
                 scratch[matched].p[i2] = p2
@@ -530,7 +529,7 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    match_counts = [0] * 4
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -583,7 +582,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
@@ -616,9 +615,8 @@ def correspondences(
             parameters.
 
         Output Arguments:
-        int match_counts[] - output buffer, as long as the number of cameras.
-            stores the number of matches for each clique size, in descending
-            clique size order. The last element stores the total.
+        int match_counts[] - output buffer of 4 elements: the number of
+            quadruplets, triplets and pairs, and the total.
 
     Returns
     -------
@@ -657,7 +655,7 @@ def correspondences(
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
         matched = four_camera_matching(
-            corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
+            corr_list, frm.num_targets[0], vpar.corrmin, con0, len(con0)
         )
 
         match_counts[0] = take_best_candidates(
@@ -668,7 +666,7 @@ def correspondences(
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
         matched = three_camera_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, len(con0), tim
         )
 
         match_counts[1] = take_best_candidates(
@@ -682,7 +680,7 @@ def correspondences(
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
         matched = consistent_pair_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, len(con0), tim
         )
         match_counts[2] = take_best_candidates(
             con0[:matched],
-- 
2.43.0


From 40b9155068cc418ac1c82a17dbe799018afed28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 19/56] fix: image filters and subtraction no longer fail on
 every call

scipy functions cannot be compiled by numba, so each call raised a typing
error; the subtraction of unsigned images also must not wrap around.
---
 openptv_python/image_processing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index bd47fdb..3a63b7f 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -12,7 +12,6 @@ from .parameters import ControlPar
 filter_t = np.zeros((3, 3), dtype=float)
 
 
-@njit
 def filter_3(img, kernel=None) -> np.ndarray:
     """Apply a 3x3 filter to an image."""
     if kernel is None:  # default is a low pass
@@ -21,7 +20,6 @@ def filter_3(img, kernel=None) -> np.ndarray:
     return filtered_img
 
 
-@njit
 def lowpass_3(img: np.ndarray) -> np.ndarray:
     """Lowpass filter of 3x3."""
     # Define the 3x3 lowpass filter kernel
@@ -33,7 +31,6 @@ def lowpass_3(img: np.ndarray) -> np.ndarray:
     return img_lp
 
 
-@njit
 def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarray:
     """Fast box blur."""
     n = 2 * filt_span + 1
@@ -62,7 +59,6 @@ def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarr
 #     return new_img
 
 
-@njit
 def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> None:
     """
     Subtract img2 from img1 and store the result in img_new.
@@ -72,7 +68,7 @@ def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> Non
     img1, img2: numpy arrays containing the original images.
     img_new: numpy array to store the result.
     """
-    img_new[:] = ndimage.maximum(img1 - img2, 0)
+    img_new[:] = np.where(img1 > img2, img1 - img2, 0)
 
 
 @njit
-- 
2.43.0


From d02ced8577622a3341a817893771739eddfb63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 20/56] fix: sortgrid does not renumber the detections it is
 given

The sorted list shared its targets with the input: their pnr was overwritten,
and a detection near two points lost the number of the first one.
---
 openptv_python/sortgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..04741aa 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+import copy
 from pathlib import Path
 from typing import List
 
@@ -62,7 +63,8 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
+                # a copy: the detection may be near other points too
+                sorted_pix[i] = copy.copy(pix[j])
                 sorted_pix[i].pnr = i
 
     return sorted_pix
-- 
2.43.0


From 469e2115f09214ddfbada8565a368b5282519cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 21/56] fix: read_calblock returns one row per point and reads
 files with blank lines

---
 openptv_python/sortgrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 04741aa..0a8b748 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -141,18 +141,19 @@ def read_calblock(filename: Path) -> np.recarray:  # List[Coord3d]:
             lines = f.readlines()
             for line in lines:
                 values = line.strip().split()
+                if not values:  # blank line
+                    continue
                 pnr = int(values[0])
                 x = float(values[1])
                 y = float(values[2])
                 z = float(values[3])
                 # coord = Coord3d(pnr, x, y, z)
-                coord = np.array([(pnr, x, y, z)], dtype=Coord3d_dtype)
-                coords.append(coord)
+                coords.append((pnr, x, y, z))
     except FileNotFoundError:
         print(f"Can't open calibration block file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
-    except ValueError:
+    except (ValueError, IndexError):
         print(f"Empty or badly formatted file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
 
-    return np.array(coords).view(np.recarray)
+    return np.array(coords, dtype=Coord3d_dtype).view(np.recarray)
-- 
2.43.0


From d6d096e0509b0c7d18a7b25f393758b82ab2662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 22/56] fix: read_man_ori_fix reads calibration block and
 manual orientation files as they are

The block file has no count line, and the numbers of a camera may be on
several lines; every file of the test set failed.
---
 openptv_python/orientation.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 87c3473..451cacb 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -17,6 +17,7 @@ from .imgcoord import img_coord
 # from .lsqadj import ata, atl, matinv, matmul
 from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
+from .sortgrid import read_calblock as read_calblock_points
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
 from .trafo import pixel_to_metric
@@ -721,9 +722,11 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     num_match = 0
 
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        # four numbers per camera, however they are spread over the lines
+        nr = [int(x) for x in fpp.read().split()[4 * cam : 4 * cam + 4]]
+    if len(nr) < 4:
+        print(f"Too few points or incompatible file: {man_ori_filename}")
+        return None
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
     fix, num_fix = read_calblock(calblock_filename)
@@ -745,14 +748,9 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
 
 def read_calblock(filename):
     """Read the calibration block file."""
-    with open(filename, "r", encoding="utf-8") as f:
-        lines = f.readlines()
-        num_fix = int(lines[0])
-        fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
-            parts = line.split()
-            fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
-    return fix, num_fix
+    points = read_calblock_points(filename)
+    fix = np.c_[points.x, points.y, points.z]
+    return fix, len(fix)
 
 
 def dumbbell_target_func(
-- 
2.43.0


From 46075d7c18e0365067d415da8e267d4e17c6b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 23/56] fix: ControlPar.from_yaml restores the multimedia
 parameters, from_dict leaves its input alone

---
 openptv_python/parameters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..a4eae4c 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -458,8 +458,13 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
-        return cls(**data)
+        return cls(**{**data, "mm": MultimediaPar.from_dict(mm_data)})
+
+    @classmethod
+    def from_yaml(cls, file_path: Path):
+        """Read from YAML file, including the multimedia parameters."""
+        with open(file_path, "r", encoding="utf-8") as file:
+            return cls.from_dict(yaml.safe_load(file))
 
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
-- 
2.43.0


From 6c7fa03e947d4bdb34a01fb7c388d70762d1420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 24/56] fix: a missing tracking parameter file raises IOError

---
 openptv_python/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a4eae4c..8317763 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
-- 
2.43.0


From 5e747be121d36e45007301a42b78fd3e1595a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 25/56] fix: PftVersionPar.write writes the flag of the object,
 as from_file reads it

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 8317763..5d5d284 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -873,8 +873,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From 04b90537c10d5bb0037368beb3b0728eddffedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 26/56] fix: write_targets writes num_targets rows, also when
 there are none

---
 openptv_python/tracking_frame_buf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..0d4505f 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -229,8 +229,11 @@ def write_targets(
     try:
         # Convert targets to a 2D numpy array
         target_arr = np.array(
-            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+            [
+                (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)
+                for t in targets[:num_targets]
+            ]
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From 6629b69b8c10c31ac4fb3e479091d99cce6007b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 27/56] fix: read_targets finds the files write_targets writes
 for every base name

---
 openptv_python/tracking_frame_buf.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 0d4505f..431d46b 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -162,6 +162,17 @@ def sort_target_y(targets: List[Target]) -> List[Target]:
 #         return len(self)
 
 
+def targets_base_name(file_base: str) -> str:
+    """Return the base name with a place for the frame number."""
+    # fix old-type names, that are like cam1.# or just cam1.
+    if "#" in file_base:
+        file_base = file_base.replace("#", "%05d")
+    if "%" not in file_base:
+        file_base = file_base + "%05d"
+
+    return file_base
+
+
 def read_targets(file_base: str, frame_num: int) -> List[Target]:
     """Read targets from a file."""
     buffer = []
@@ -171,7 +182,7 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
 
     if frame_num > 0:
         # filename = f"{file_base}{frame_num:04d}_targets"
-        fname = file_base % frame_num + "_targets"
+        fname = targets_base_name(file_base) % frame_num + "_targets"
     else:
         fname = f"{file_base}_targets"
 
@@ -215,16 +226,10 @@ def write_targets(
     """Write targets to a file."""
     success = False
 
-    # fix old-type names, that are like cam1.# or just cam1.
-    if "#" in file_base:
-        file_base = file_base.replace("#", "%05d")
-    if "%" not in file_base:
-        file_base = file_base + "%05d"
-
     if frame_num == 0:
         frame_num = 123456789
 
-    file_name = file_base % frame_num + "_targets"
+    file_name = targets_base_name(file_base) % frame_num + "_targets"
 
     try:
         # Convert targets to a 2D numpy array
-- 
2.43.0


From 7f9e7705038da09fda4907869dfe7cf055bfc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 28/56] fix: write_path_frame without a prio file

---
 openptv_python/tracking_frame_buf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 431d46b..74c4b7c 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -844,7 +844,7 @@ def write_path_frame(
     """
     corres_fname = f"{corres_file_base}.{frame_num}"
     linkage_fname = f"{linkage_file_base}.{frame_num}"
-    prio_fname = f"{prio_file_base}.{frame_num}" if prio_file_base != "" else None
+    prio_fname = f"{prio_file_base}.{frame_num}" if prio_file_base else None
     success = False
 
     try:
@@ -854,8 +854,8 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
-            prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
+        if prio_fname is not None:
+            prio_file = open(prio_fname, "w", encoding="utf8")
             prio_file.write(f"{num_parts}\n")
 
         for pix in range(num_parts):
@@ -872,7 +872,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -881,7 +881,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 5730a83563271b1a0ede8180be51420e023f8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 29/56] fix: read_path_frame returns the rows it read, not
 uninitialised ones

---
 openptv_python/tracking_frame_buf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 74c4b7c..c0acbd0 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -809,7 +809,8 @@ def read_path_frame(
     if prioin is not None:
         prioin.close()
 
-    return cor_buf, path_buf
+    # a file that breaks off has fewer rows than it says
+    return cor_buf[:targets], path_buf[:targets]
 
 
 def write_path_frame(
-- 
2.43.0


From b71e5264b9db1d7b7ece93a1e193f44cd0b2ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 30/56] fix: Frame.read reports a missing file instead of an
 empty frame

---
 openptv_python/tracking_frame_buf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index c0acbd0..8f72a50 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -349,6 +349,10 @@ class Frame:
         frame_num: int,
     ) -> bool:
         """Read a frame from the disk."""
+        for base in (corres_file_base, linkage_file_base, prio_file_base):
+            if base and not Path(f"{base}.{frame_num}").exists():
+                return False
+
         cor_buf, path_buf = read_path_frame(
             # self.correspond, self.path_info = read_path_frame(
             corres_file_base,
-- 
2.43.0


From 5ab2095783af03e97c6043468b5613f45ac870a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 31/56] fix: sort_candidates_by_freq swaps candidates instead
 of duplicating one

---
 openptv_python/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..e8af362 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -508,7 +508,8 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                # fancy indexing copies, records are views that would be overwritten
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -521,7 +522,8 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                # fancy indexing copies, records are views that would be overwritten
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From 523117bb7b75faaea407a83c3c5b05073d38a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 32/56] fix: register_closest_neighbs does not take the last
 target for a missing one

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index e8af362..4e0099d 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From 1b658e47b90a4f63bcb13d931b80d002f64f8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 33/56] fix: add_particle adds one particle and leaves the
 others alone

---
 openptv_python/track.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 4e0099d..b697841 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -23,7 +22,7 @@ from .constants import (
 from .imgcoord import img_coord
 from .orientation import point_position
 from .parameters import ControlPar, TrackParTuple, convert_track_par_to_tuple
-from .tracking_frame_buf import Frame, Pathinfo, Target
+from .tracking_frame_buf import Corres_dtype, Frame, Pathinfo, Target
 from .tracking_run import TrackingRun
 from .trafo import dist_to_flat, metric_to_pixel, pixel_to_metric
 from .vec_utils import vec_copy, vec_diff_norm, vec_subt
@@ -733,27 +732,25 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
-        ref_path_inf = frm.path_info[num_parts]
-        ref_corres = frm.correspond[num_parts]
-    else:
-        ref_path_inf = Pathinfo()
-        frm.path_info.append(ref_path_inf)
-        frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
-            np.recarray
-        )
-        ref_corres = frm.correspond.view(np.recarray)
+    if num_parts >= len(frm.path_info):
+        frm.path_info.append(Pathinfo())
+    if num_parts >= len(frm.correspond):
+        frm.correspond = np.append(
+            frm.correspond, np.zeros(1, dtype=Corres_dtype)
+        ).view(np.recarray)
+
+    ref_path_inf = frm.path_info[num_parts]
+    ref_corres = frm.correspond[num_parts]
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
 
     ref_targets = frm.targets
+    ref_corres.p[:] = CORRES_NONE
 
     for cam in range(frm.num_cams):
-        ref_corres.p[cam] = CORRES_NONE
-
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 7dfc785ea237466fdf4158b93fe8ca002f4ef2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 34/56] fix: candsearch_in_pix keeps candidates at the same
 distance

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index b697841..87a89ab 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -326,13 +326,13 @@ def candsearch_in_pix(
                     if d < d1:
                         p4, p3, p2, p1 = p3, p2, p1, j
                         d4, d3, d2, d1 = d3, d2, d1, d
-                    elif d1 < d < d2:
+                    elif d < d2:
                         p4, p3, p2 = p3, p2, j
                         d4, d3, d2 = d3, d2, d
-                    elif d2 < d < d3:
+                    elif d < d3:
                         p4, p3 = p3, j
                         d4, d3 = d3, d
-                    elif d3 < d < d4:
+                    elif d < d4:
                         p4 = j
                         d4 = d
 
-- 
2.43.0


From a80644a66b52ad135aae6aaaae3f4d261a77dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 35/56] fix: candidate search misses no target in lists of 8191
 and more

---
 openptv_python/track.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 87a89ab..cffb940 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -309,6 +309,9 @@ def candsearch_in_pix(
         j0 -= 12
         if j0 < 0:
             j0 = 0
+        # truncation adds up in long lists
+        while j0 > 0 and next_frame[j0 - 1].y >= ymin:
+            j0 -= 1
 
         for j in range(j0, num_targets):
             if next_frame[j].tnr != -1:
@@ -396,6 +399,9 @@ def candsearch_in_pix_rest(
             dj //= 2
 
         j0 -= 12 if j0 >= 12 else j0  # due to trunc
+        # truncation adds up in long lists
+        while j0 > 0 and next_frame[j0 - 1].y >= ymin:
+            j0 -= 1
         for j in range(j0, num_targets):
             if next_frame[j].tnr == TR_UNUSED:
                 if next_frame[j].y > ymax:
-- 
2.43.0


From a04b3abc268f5a6c5f79df5eadc1540708b11a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 36/56] fix: angle_acc is defined for collinear and resting
 particles

---
 openptv_python/track.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index cffb940..f4e6870 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -251,18 +251,16 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
 
     acc = np.linalg.norm(v0 - v1)
 
-    if np.all(v0 == -v1):
-        angle = 200
-    elif np.all(v0 == v1):
-        angle = 0
-    else:
-        dot_product = np.sum(v0 * v1)
-        norm_start_pred = np.linalg.norm(start - pred)
-        norm_start_cand = np.linalg.norm(start - cand)
+    norms = np.linalg.norm(v0) * np.linalg.norm(v1)
 
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+    if np.all(v0 == v1) or norms == 0:  # a resting particle has no direction
+        angle = 0.0
+    elif np.all(v0 == -v1):
+        angle = 200.0
+    else:
+        # rounding may take the cosine of collinear velocities out of range
+        cosine = min(max(np.sum(v0 * v1) / norms, -1.0), 1.0)
+        angle = (200.0 / np.pi) * np.arccos(cosine)
 
     return np.array([angle, acc])
 
-- 
2.43.0


From d6f94a8a2400a340193ff814c451c1e688a95b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 37/56] fix: trackback_c writes the first frame under its own
 number

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index f4e6870..c065ab6 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1328,7 +1328,7 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    fb.write_frame_from_start(seq_par.first)
 
     return nlinks
 
-- 
2.43.0


From 277d2c85fabb6d4b35508a3f9ba4f42fdfcb875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 38/56] fix: trackback_c adds particles inside the volume

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index c065ab6..f04d11e 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1114,7 +1114,7 @@ def trackcorr_c_finish(run_info, step: int):
 def trackback_c(run_info: TrackingRun):
     """Trackback algorithm in C."""
     count1, count2, num_added, quali = 0, 0, 0, 0
-    Ymin, Ymax, npart, nlinks = 0, 0, 0.0, 0.0
+    npart, nlinks = 0.0, 0.0
 
     philf = np.zeros((4, MAX_CANDS))
     X = np.empty((6, 3))
@@ -1214,7 +1214,7 @@ def trackback_c(run_info: TrackingRun):
                         # volume check
                         if (
                             vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]
-                            and Ymin < X[3][1] < Ymax
+                            and run_info.ymin < X[3][1] < run_info.ymax
                             and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]
                         ):
                             in_volume = 1
-- 
2.43.0


From b6120dd888f740095bdcaf0defe07a7474d81e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 39/56] fix: the last tracking step does not look for
 candidates in an old frame

---
 openptv_python/track.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index f04d11e..207a7dc 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -807,6 +807,10 @@ def trackcorr_c_loop(run_info, step):
     cpar = run_info.cpar
     curr_targets = fb.buf[1].targets
 
+    # beyond the end of the sequence there is an old frame left in the buffer
+    in_sequence = step < run_info.seq_par.last - 1
+    frame3 = fb.buf[3] if in_sequence else Frame(fb.num_cams, 0)
+
     v1 = np.zeros((cpar.num_cams, 2))  # volume center projection on cameras
     v2 = np.zeros((cpar.num_cams, 2))  # volume center projection on cameras
 
@@ -875,15 +879,15 @@ def trackcorr_c_loop(run_info, step):
                 #  print(f"v1[{j}], {v1[j]}")
 
             # end of search in pix
-            wn = sorted_candidates_in_volume(X[5], v1, fb.buf[3], run_info)
+            wn = sorted_candidates_in_volume(X[5], v1, frame3, run_info)
             if wn.shape[0] > 1:  # not empty means two rows at least.
                 count3 += 1
                 kk = 0
                 while (
-                    wn[kk].ftnr != TR_UNUSED and len(fb.buf[3].path_info) > wn[kk].ftnr
+                    wn[kk].ftnr != TR_UNUSED and len(frame3.path_info) > wn[kk].ftnr
                 ):
                     # print(f" inside wn[{kk}].ftnr {wn[kk].ftnr}")
-                    ref_path_inf = fb.buf[3].path_info[wn[kk].ftnr]
+                    ref_path_inf = frame3.path_info[wn[kk].ftnr]
                     X[4] = vec_copy(ref_path_inf.x)
                     #  print(f"X[4] {X[4]}")
 
@@ -927,7 +931,7 @@ def trackcorr_c_loop(run_info, step):
             # fix distance of 3 pixels to define xl,xr,yu,yd instead of searchquader
             # and search for unused candidates in next_frame time step
 
-            quali, v2, philf = assess_new_position(X[5], fb.buf[3], run_info)
+            quali, v2, philf = assess_new_position(X[5], frame3, run_info)
             # print(f"quali {quali}, v2 {v2}, philf {philf}")
 
             # quali >=2 means at least in two cameras
@@ -967,7 +971,7 @@ def trackcorr_c_loop(run_info, step):
                         curr_path_inf.register_link_candidate(rr, w[mm].ftnr)
 
                         if tpar.add:
-                            add_particle(fb.buf[3], X[4], philf)
+                            add_particle(frame3, X[4], philf)
                             num_added += 1
 
                 in_volume = 0
-- 
2.43.0


From fa6d6db96ed0fde4f56eaaca41aaa498a368dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 40/56] fix: move_along_ray leaves the direction alone

---
 openptv_python/multimed.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index db21d05..0e17aaa 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -231,11 +231,10 @@ def move_along_ray(glob_z: float, vertex: np.ndarray, direct: np.ndarray) -> np.
 
     """
     out = np.zeros(3, dtype=np.float64)
-    if direct[2] == 0:
-        direct[2] = 1  # avoid division by zero
+    dz = direct[2] if direct[2] != 0 else 1.0  # avoid division by zero
 
-    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / direct[2]
-    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / direct[2]
+    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / dz
+    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / dz
     out[2] = glob_z
 
     return out
-- 
2.43.0


From c590d561f66fb660ca846fae6e3d001e641cbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 41/56] fix: velocity bounds hold for the velocity to an
 unmatched position

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 207a7dc..e137ef3 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -952,7 +952,7 @@ def trackcorr_c_loop(run_info, step):
                 ):
                     in_volume = 1
 
-                diff_pos = vec_subt(X[3], X[4])
+                diff_pos = vec_subt(X[4], X[3])
                 # print(f"second diff_pos {diff_pos}")
 
                 if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
-- 
2.43.0


From 397f24b806c442b564e4b6bcc0d0d0a4f488490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 42/56] fix: the number of links does not count those taken
 away again

---
 openptv_python/track.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index e137ef3..d9256f6 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1082,7 +1082,9 @@ def trackcorr_c_loop(run_info, step):
                 else:
                     curr_path_inf.next_frame = NEXT_NONE
 
-        if curr_path_inf.next_frame != NEXT_NONE:
+    # a link made above may have been taken away again by a better one
+    for h in range(fb.buf[1].num_parts):
+        if fb.buf[1].path_info[h].next_frame != NEXT_NONE:
             count1 += 1
 
     # end of creation of links with decision check
-- 
2.43.0


From dddf7e019e04ecf3dfefa19c6db8fd432ba58624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 43/56] fix: init_mmlut rounded a negative lower depth towards
 zero, out of the table

---
 openptv_python/multimed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 0e17aaa..ee2ef57 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -253,7 +253,7 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     z_min = min(vpar.z_min_lay)
     z_max = max(vpar.z_max_lay)
 
-    z_min -= np.fmod(z_min, rw)
+    z_min -= np.mod(z_min, rw)
     z_max += rw - np.fmod(z_max, rw)
 
     z_min_t = z_min
-- 
2.43.0


From c178b9d3a49ce8b84789206f0f78567906cb6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 44/56] fix: compare_mm_np ignored the layers after the first

---
 openptv_python/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 5d5d284..0a69111 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,12 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        list(mm_np2.n2),
+        list(mm_np2.d),
     )
 
 
-- 
2.43.0


From aec52312e47c0ac4b40c8ab865fc53e47773e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 45/56] fix: compare_calibration ignored the distortion
 parameters

---
 openptv_python/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index fcc5462..f9f9193 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -488,6 +488,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
-- 
2.43.0


From 323b6ed5a40d0180a30703253e27eb35de8b0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:27 +0000
Subject: [PATCH 46/56] fix: every layer of the wall refracts with its own
 index

---
 openptv_python/multimed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index ee2ef57..7bd19f7 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -83,13 +83,13 @@ def fast_multimed_r_nlay(
 
     while abs(rdiff) > 0.001 and it < n_iter:
         beta1 = np.arctan(rq / zdiff)
-        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[0])
+        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[:nlay])
         beta3 = np.arcsin(np.sin(beta1) * n1 / n3)
 
         rbeta = (
             (z0 - d[0]) * np.tan(beta1)
             - zout * np.tan(beta3)
-            + np.sum(d * np.tan(beta2))
+            + np.sum(d[:nlay] * np.tan(beta2))
         )
 
         rdiff = r - rbeta
-- 
2.43.0


From a5c387b7c4dc8119ffdbe11f5ef32028e33c21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 47/56] fix: the getters of a calibration hand out copies

The distortion and glass getters returned views of the calibration, so that
changing a value read from it, or setting it anew, changed the other.
---
 openptv_python/calibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index f9f9193..591d45e 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -318,7 +318,7 @@ class Calibration:
         array, from lowest power to highest.
         """
         # return np.r_[self.added_par.k1, self.added_par.k2, self.added_par.k3]
-        return self.added_par[:3]
+        return self.added_par[:3].copy()
 
     def set_decentering(self, decent: np.ndarray) -> None:
         """
@@ -337,7 +337,7 @@ class Calibration:
     def get_decentering(self):
         """Return the decentering parameters [1] as a 2 element array, (p_1, p_2)."""
         # return np.r_[self.added_par.p1, self.added_par.p2]
-        return self.added_par[3:5]
+        return self.added_par[3:5].copy()
 
     def set_affine_distortion(self, affine: np.ndarray) -> None:
         """
@@ -356,7 +356,7 @@ class Calibration:
     def get_affine(self):
         """Return the affine transform parameters [1] as a 2 element array, (scx, she)."""
         # return np.r_[self.added_par.scx, self.added_par.she]
-        return self.added_par[5:]
+        return self.added_par[5:].copy()
 
     def set_glass_vec(self, gvec: np.ndarray):
         """
@@ -377,7 +377,7 @@ class Calibration:
 
     def get_glass_vec(self) -> np.ndarray:
         """Return the glass vector, a 3-element array of float."""
-        return self.glass_par
+        return np.array(self.glass_par)
 
     def set_added_par(self, ap52_array: np.ndarray):
         """Set added par from an numpy array of parameters."""
-- 
2.43.0


From b70a4f46772b99ff31f151b8361289f1f3008310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 48/56] fix: a calibration keeps copies of the parts it is made
 of

Two calibrations made of the same arrays changed together.
---
 openptv_python/calibration.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 591d45e..570b1cb 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -108,25 +108,23 @@ class Calibration:
         mmlut=None,
         mmlut_data=None,
     ):
-        if ext_par is None:
-            ext_par = copy.deepcopy(Exterior)
-        if int_par is None:
-            int_par = copy.deepcopy(Interior)
+        # a calibration has parts of its own, whatever it is made of
+        ext_par = copy.deepcopy(Exterior if ext_par is None else ext_par)
+        int_par = copy.deepcopy(Interior if int_par is None else int_par)
         if glass_par is None:
             glass_par = np.array([0.0, 0.0, 1.0])
         if added_par is None:
             added_par = np.array((0, 0, 0, 0, 0, 1, 0), dtype=np.float64)
-        if mmlut is None:
-            mmlut = copy.deepcopy(mm_lut)  # (np.zeros(3), 0, 0, 0)
+        mmlut = copy.deepcopy(mm_lut if mmlut is None else mmlut)
         if mmlut_data is None:
             mmlut_data = np.zeros((mmlut.nr, mmlut.nz), dtype=np.float64)
 
         self.ext_par = ext_par
         self.int_par = int_par
-        self.glass_par = glass_par
-        self.added_par = added_par
+        self.glass_par = np.array(glass_par)
+        self.added_par = np.array(added_par)
         self.mmlut = mmlut
-        self.mmlut_data = mmlut_data
+        self.mmlut_data = np.array(mmlut_data)
 
     @classmethod
     def from_file(cls, ori_file: Path, add_file: Path | None):
-- 
2.43.0


From a21426922143401df1b5ad835f1193f5eb3f9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 49/56] fix: writing a calibration without its distortion is no
 failure

The ori file was written, but False returned, which Calibration.write raised
as an error.
---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 570b1cb..e561f55 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -412,6 +412,7 @@ def write_ori(
             fp.write(f"{row[0]:.7f} {row[1]:.7f} {row[2]:.7f}\n")
         fp.write(f"\n{int_par.xh:.4f} {int_par.yh:.4f}\n{int_par.cc:.4f}\n")
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
+        success = True
 
     if add_file is None:
         return success
@@ -421,7 +422,6 @@ def write_ori(
             f"{added_par[0]:.8f} {added_par[1]:.8f} {added_par[2]:.8f} "
             f"{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]:.8f} {added_par[6]:.8f}\n"
         )
-        success = True
 
     return success
 
-- 
2.43.0


From 220550b525eb4e26edde8fd2a1d0bb737c9684d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 50/56] fix: a tracking run enlarges a volume of its own

It enlarged the volume parameters it was given to what the cameras see, so that
afterwards correspondences were searched in, and another run used, that volume.
---
 openptv_python/tracking_run.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/tracking_run.py b/openptv_python/tracking_run.py
index 5a310ca..644974f 100644
--- a/openptv_python/tracking_run.py
+++ b/openptv_python/tracking_run.py
@@ -1,5 +1,6 @@
 """Tracking run module."""
 
+import copy
 import math
 from dataclasses import dataclass
 from pathlib import Path
@@ -53,6 +54,9 @@ class TrackingRun:
         cal: List[Calibration],
         flatten_tol: float,
     ):
+        # the volume is enlarged below, for this run only
+        vpar = copy.deepcopy(vpar)
+
         self.tpar = tpar
         self.vpar = vpar
         self.cpar = cpar
-- 
2.43.0


From 64ca4d7c0f85efe824656d4fcd8e98ed67c7a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 51/56] fix: parameters made from a dictionary or given layers
 share no lists

Two objects read from one dictionary, or given the same layers, changed together,
and with them the dictionary.
---
 openptv_python/parameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 0a69111..f6838dd 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -1,5 +1,6 @@
 """Parameters for OpenPTV-Python."""
 
+import copy
 from collections import namedtuple
 from dataclasses import asdict, dataclass, field
 from pathlib import Path
@@ -36,7 +37,7 @@ class Parameters:
     @classmethod
     def from_dict(cls, data):
         """Read MultimediaPar from a dictionary."""
-        return cls(**data)
+        return cls(**copy.deepcopy(data))
 
     @classmethod
     def to_dict(cls, data):
@@ -103,8 +104,8 @@ class MultimediaPar(Parameters):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
         else:
-            self.n2 = refr_index
-            self.d = thickness
+            self.n2 = list(refr_index)
+            self.d = list(thickness)
             # self.nlay = len(refr_index)
 
     def __str__(self) -> str:
@@ -460,7 +461,7 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        return cls(**{**data, "mm": MultimediaPar.from_dict(mm_data)})
+        return cls(**{**copy.deepcopy(data), "mm": MultimediaPar.from_dict(mm_data)})
 
     @classmethod
     def from_yaml(cls, file_path: Path):
-- 
2.43.0


From 9a4acf48959f6db78711f9c95c25ea2f7bcd4aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 52/56] fix: start tracking a sequence of two frames without a
 third one

---
 openptv_python/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index d9256f6..a730c6f 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -775,7 +775,8 @@ def track_forward_start(tr: TrackingRun):
 
     # Prime the buffer with first three frames, fourth frame is read when we track
     for step in range(tr.seq_par.first, tr.seq_par.first + TR_BUFSPACE - 1):
-        tr.fb.read_frame_at_end(step)
+        if step <= tr.seq_par.last:
+            tr.fb.read_frame_at_end(step)
         tr.fb.fb_next()
 
     tr.fb.fb_prev()
-- 
2.43.0


From 1420f887be75b376aeef578c13850d824a332bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 53/56] fix: track back in sequences of less than four frames

---
 openptv_python/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index a730c6f..6ad49c8 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1139,7 +1139,8 @@ def trackback_c(run_info: TrackingRun):
 
     # Prime the buffer with first frames
     for step in range(seq_par.last, seq_par.last - 4, -1):
-        fb.read_frame_at_end(step, read_links=True)
+        if step >= seq_par.first:
+            fb.read_frame_at_end(step, read_links=True)
         fb.fb_next()
 
     fb.fb_prev()
@@ -1327,8 +1328,10 @@ def trackback_c(run_info: TrackingRun):
             )
         )
 
-    npart /= seq_par.last - seq_par.first - 1
-    nlinks /= seq_par.last - seq_par.first - 1
+    # a sequence of two frames has none between the first and the last
+    num_steps = max(seq_par.last - seq_par.first - 1, 1)
+    npart /= num_steps
+    nlinks /= num_steps
 
     print(
         f"Average over sequence, particles: {npart:.1f}, links: {nlinks:.1f}, lost: {npart - nlinks:.1f}"
-- 
2.43.0


From 66c6ff1342c2e045ba78924a93113d3caea49c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 54/56] fix: calibrations made from whole numbers keep
 fractions set later

---
 openptv_python/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index e561f55..eeb3361 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -121,8 +121,8 @@ class Calibration:
 
         self.ext_par = ext_par
         self.int_par = int_par
-        self.glass_par = np.array(glass_par)
-        self.added_par = np.array(added_par)
+        self.glass_par = np.array(glass_par, dtype=np.float64)
+        self.added_par = np.array(added_par, dtype=np.float64)
         self.mmlut = mmlut
         self.mmlut_data = np.array(mmlut_data)
 
-- 
2.43.0


From 9b103d53f9864fba307d3b7d93f1b527f05bad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 55/56] fix: targets matched again do not keep the numbers of
 earlier matches

---
 openptv_python/correspondences.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index de86abd..445a6ca 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -690,7 +690,11 @@ def correspondences(
         )
         match_counts[3] += match_counts[2]
 
-    # Give each used pix the correspondence number
+    # Give each used pix the correspondence number, and no other
+    for cam in range(cpar.num_cams):
+        for targ in frm.targets[cam][: frm.num_targets[cam]]:
+            targ.tnr = CORRES_NONE
+
     for i in range(match_counts[3]):
         for j in range(cpar.num_cams):
             # Skip cameras without a correspondence obviously.
-- 
2.43.0


From 87c9a52d2d3c1ca57c7399c9301d7f868131f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 56/56] fix: match counts do not start from what was in the
 list

---
 openptv_python/correspondences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 445a6ca..2a1bf02 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -629,6 +629,10 @@ def correspondences(
     """
     nmax = NMAX
 
+    # the counts are only output, whatever was in them
+    for i in range(4):
+        match_counts[i] = 0
+
     # Allocation of scratch buffers for internal tasks and return-value space
     con0 = np.recarray((nmax * cpar.num_cams,), dtype=n_tupel_dtype)
     con0.p = 0
-- 
2.43.0

