From 5c82f872a8639258388577a1e941d73fb9be3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 1/3] fix: viewing directions do not depend on the camera
 centre

forward(), up() and right() mapped a point to the world and subtracted the
camera centre again, which loses all precision for large centres (a centre of
1e12 gives directions wrong in the fourth digit, 1e17 gives NaN). Rotate the
direction itself instead.
---
 src/extrinsics.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index d03cd9b..0983fd3 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -180,9 +180,9 @@ impl<R: RealField> ExtrinsicParameters<R> {
     ///
     /// `pt_cam` is specified in camera coords.
     fn lookdir(&self, pt_cam: &Point3<R>) -> Unit<Vector3<R>> {
-        let cc = self.camcenter();
-        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;
-        nalgebra::Unit::new_normalize(pt)
+        // A direction is not affected by the translation part of the pose.
+        let dir = self.cache.pose_inv.transform_vector(&pt_cam.coords);
+        nalgebra::Unit::new_normalize(dir)
     }
 
     /// Convert points in camera coordinates to world coordinates.
-- 
2.43.0


From 28bc38fb88dad6031de240f360b5de016133f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 2/3] fix: Jacobian of cameras whose matrix has a zero last
 element

JacobianPerspectiveCache::new divided the camera matrix by its last element,
which is zero when the world origin is in the plane of the camera centre (a
camera at the origin, for example), and every entry of the Jacobian was NaN.
The Jacobian does not depend on the scale of the matrix: do not normalize.
---
 src/linearize.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..281affc 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -18,11 +18,8 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
             p33 * cam.extrinsics().matrix()
         };
 
-        // flip sign if focal length < 0
-        let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
-
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
+        // The Jacobian does not depend on the scale (or sign) of this matrix, so it
+        // is not normalized. (Its last element is zero for some cameras.)
         Self { m }
     }
 
-- 
2.43.0


From 97cd15d578f46fc0db37046af6ea4895e906c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 3/3] fix: camera matrix of cameras with the world origin in
 their centre plane

as_camera_matrix() divided by the last element of the matrix, which is zero
when the world origin is in the plane of the camera centre (a camera at the
origin, for example), and returned a matrix of NaN and infinite values. Such a
matrix is now returned as it is.
---
 src/camera.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..fc29f47 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,14 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        let m23 = m[(2, 3)].clone();
+        if m23 == nalgebra::convert(0.0) {
+            // The world origin is in the plane of the camera center: the last
+            // element cannot be normalized to one.
+            return m;
+        }
+
+        m / m23 // normalize
     }
 }
 
-- 
2.43.0

