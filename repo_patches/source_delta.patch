From 403422c57c1dca4b1cabe80a9656840e9c57ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 1/6] fix: compute best_intersection_of_rays to working
 precision

The pseudo-inverse from the SVD is only accurate to about 1e-7 and the right
hand side was rounded to the caller's precision before being multiplied by it.
Keep the right hand side in f64 and refine the solution iteratively.
---
 src/ray_intersection.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ray_intersection.rs b/src/ray_intersection.rs
index 327a774..9b067cc 100644
--- a/src/ray_intersection.rs
+++ b/src/ray_intersection.rs
@@ -140,7 +140,6 @@ where
     let xt2 = py.iter().zip(xy.iter()).map(|(a, b)| a.clone() * b.clone());
     let xt3 = pz.iter().zip(xz.iter()).map(|(a, b)| a.clone() * b.clone());
     let CX: f64 = refsum_as_f64!(izip!(xt1, xt2, xt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CX: R = na::convert(CX);
 
     let yt1 = px.iter().zip(xy.iter()).map(|(a, b)| a.clone() * b.clone());
     let yt2 = py
@@ -149,7 +148,6 @@ where
         .map(|(a, b)| a.clone() * b.clone());
     let yt3 = pz.iter().zip(yz.iter()).map(|(a, b)| a.clone() * b.clone());
     let CY: f64 = refsum_as_f64!(izip!(yt1, yt2, yt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CY: R = na::convert(CY);
 
     let zt1 = px.iter().zip(xz.iter()).map(|(a, b)| a.clone() * b.clone());
     let zt2 = py.iter().zip(yz.iter()).map(|(a, b)| a.clone() * b.clone());
@@ -158,13 +156,17 @@ where
         .zip(zzm1.iter())
         .map(|(a, b)| a.clone() * b.clone());
     let CZ: f64 = refsum_as_f64!(izip!(zt1, zt2, zt3).map(|(t1, t2, t3)| t1 + t2 + t3), R);
-    let CZ: R = na::convert(CZ);
 
     let C = Vector3::new(CX, CY, CZ);
 
-    let s_f64_pinv = my_pinv(&S)?;
-    let s_pinv = despecialize!(s_f64_pinv, R, 3, 3);
-    let r: Vector3<R> = s_pinv * C;
+    let s_pinv = my_pinv(&S)?;
+    let mut r: Vector3<f64> = s_pinv * C;
+    // The SVD used for the pseudo-inverse converges only to about 1e-7. Polish
+    // the solution with iterative refinement.
+    for _ in 0..2 {
+        r += s_pinv * (C - S * r);
+    }
+    let r = despecialize!(r, R, 3, 1);
 
     let mut result = crate::Points::new(nalgebra::OMatrix::<R, U1, U3>::zeros_generic(u1, u3));
     for j in 0..3 {
-- 
2.43.0


From f0da22bed064ed7c79c729b67e3db51bcf7abd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 2/6] fix: as_camera_matrix returned NaN when the world origin
 is on the principal plane

---
 src/camera.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/camera.rs b/src/camera.rs
index aab0b6b..859872d 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -194,7 +194,16 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
             m
         };
 
-        m.clone() / m[(2, 3)].clone() // normalize
+        let scale = m[(2, 3)].clone();
+        let camcenter_dist = self.extrinsics().camcenter().coords.norm();
+        if scale.clone().abs() <= R::default_epsilon() * camcenter_dist {
+            // The world origin is, to working precision, on the principal plane
+            // of the camera. This element is zero (or only rounding error), so
+            // the matrix cannot be normalized by it.
+            m
+        } else {
+            m / scale // normalize
+        }
     }
 }
 
-- 
2.43.0


From 9f9f4e90637fb53d36735f88c9691a4089c84817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 3/6] fix: Jacobian was NaN when the world origin is on the
 principal plane

The scale of the projection matrix cancels in the Jacobian, so do not divide by
an element which may be zero.
---
 src/linearize.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/linearize.rs b/src/linearize.rs
index 701c1f9..d00e0d9 100644
--- a/src/linearize.rs
+++ b/src/linearize.rs
@@ -21,8 +21,6 @@ impl<R: RealField> JacobianPerspectiveCache<R> {
         // flip sign if focal length < 0
         let m = if m[(0, 0)] < nalgebra::zero() { -m } else { m };
 
-        let m = m.clone() / m[(2, 3)].clone(); // normalize
-
         Self { m }
     }
 
-- 
2.43.0


From b721d552c54166ae1a6dbdc790d47c5641a42ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 4/6] fix: look directions lost precision for cameras far from
 the world origin

The direction was computed as the difference of two points, which cancels when
the camera center is large. Rotate the direction instead.
---
 src/extrinsics.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/extrinsics.rs b/src/extrinsics.rs
index d03cd9b..6aeb641 100644
--- a/src/extrinsics.rs
+++ b/src/extrinsics.rs
@@ -180,9 +180,8 @@ impl<R: RealField> ExtrinsicParameters<R> {
     ///
     /// `pt_cam` is specified in camera coords.
     fn lookdir(&self, pt_cam: &Point3<R>) -> Unit<Vector3<R>> {
-        let cc = self.camcenter();
-        let pt = self.cache.pose_inv.transform_point(pt_cam) - cc;
-        nalgebra::Unit::new_normalize(pt)
+        let dir = self.cache.pose_inv.transform_vector(&pt_cam.coords);
+        nalgebra::Unit::new_normalize(dir)
     }
 
     /// Convert points in camera coordinates to world coordinates.
-- 
2.43.0


From cc31e8beab3fe8c9cda3acf3cc34f07f1dc119dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 5/6] fix: from_normalized_3x4_matrix accepted zero focal
 lengths and non-finite parameters

---
 src/intrinsics_perspective.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/intrinsics_perspective.rs b/src/intrinsics_perspective.rs
index 695065c..dd6b9c8 100644
--- a/src/intrinsics_perspective.rs
+++ b/src/intrinsics_perspective.rs
@@ -128,6 +128,20 @@ impl<R: RealField> IntrinsicParametersPerspective<R> {
             return Err(Error::InvalidInput);
         }
 
+        let zero: R = nalgebra::convert(0.0);
+        if params.fx == zero || params.fy == zero {
+            return Err(Error::InvalidInput); // not a perspective camera
+        }
+
+        if !(params.fx.is_finite()
+            && params.fy.is_finite()
+            && params.skew.is_finite()
+            && params.cx.is_finite()
+            && params.cy.is_finite())
+        {
+            return Err(Error::InvalidInput);
+        }
+
         Ok(params.into())
     }
 
-- 
2.43.0


From 77188ab8b3182638086ed55b440d876a93b10dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:23 +0000
Subject: [PATCH 6/6] fix: from_perspective_matrix overflowed or underflowed
 for matrices of large or small scale

---
 src/camera.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/camera.rs b/src/camera.rs
index 859872d..9a316f4 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -157,6 +157,10 @@ impl<R: RealField> Camera<R, IntrinsicParametersPerspective<R>> {
     where
         S: Storage<R, U3, U4> + Clone,
     {
+        // The scale of a projection matrix is arbitrary. Normalize it so that the
+        // determinants below neither overflow nor underflow.
+        let pmat = &(pmat.clone_owned() / pmat.amax());
+
         let m = pmat.clone().remove_column(3);
         let (rquat, k) = rq_decomposition(m)?;
 
-- 
2.43.0

