From c79e8dd3fa41c92d89bee68f2dc1fba71bc3bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 01/27] fix: quadratic returns NaN for a double root at zero

---
 src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index be7d004..e084532 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -79,6 +79,9 @@ pub fn quadratic(a: f64, b: f64, c: f64) -> Option<(f64, f64)> {
     } else {
         -0.5 * (b + root_discrim)
     };
+    if q == 0. { // b and c are both 0
+        return Some((0., 0.));
+    }
 
     let (mut t0, mut t1) = (q / a, c / q);
     if t0 > t1 {
-- 
2.43.0


From 752e449c4be903d9d963d14a55cf67364ca7c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 02/27] fix: channels are rounded twice when the image is
 written

---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index c967f36..ffa40ee 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255., 0., 255.).round();
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 55c442c5005712bba03286aeb7160e7de21af249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 03/27] fix: a longer previous output.ppm leaves its tail
 behind the image

---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..091eb3b 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From 7357947f173a1de9a77366641477ca53bfa93fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 04/27] fix: an error writing the end of the image is swallowed

---
 src/integrator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 091eb3b..2058b6d 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -1,6 +1,6 @@
 use std::cmp::min;
 use std::fs::OpenOptions;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
 
@@ -80,6 +80,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
                 .unwrap()
         );
         self.film.write_image_ppm(&mut file);
+        file.flush().unwrap();
     }
 }
 
-- 
2.43.0


From 31a969ad849fe5d62101a554317dcde35da6369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 05/27] fix: negative Bezout coefficient gives a wrong
 multiplicative inverse

---
 src/sampler_halton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..271fb7f 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1194,7 +1194,8 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    let n = n as i64;
+    return ((x % n + n) % n) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From b62016cb795997a411a32f31e49c94db6f45c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 06/27] fix: radical inverse overflows for large indices

---
 src/sampler_halton.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 271fb7f..76cd2eb 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -141,7 +141,10 @@ impl Sampler for HaltonSampler {
     }
 }
 
-fn radical_inverse(base: u32, mut a: u32) -> f32 {
+fn radical_inverse(base: u32, a: u32) -> f32 {
+    // x and base_n can exceed the range of u32
+    let base = base as u64;
+    let mut a = a as u64;
     let mut x = 0;
     let mut base_n = 1;
     while a > 0 {
-- 
2.43.0


From ab19d9ea995193bc83757bd8954a84a71ff06474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 07/27] fix: workers draw the same random numbers

---
 src/sampler_random.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sampler_random.rs b/src/sampler_random.rs
index e64abf6..fff2072 100644
--- a/src/sampler_random.rs
+++ b/src/sampler_random.rs
@@ -4,7 +4,6 @@ use self::rand::{Rng, StdRng};
 use sampler::Sampler;
 use vector::{Point2i, Point2f};
 
-#[derive(Clone)]
 pub struct RandomSampler {
     // General sampler
     samples_per_pixel: u32,
@@ -23,6 +22,16 @@ impl RandomSampler {
     }
 }
 
+/// A clone has a random generator of its own, otherwise it would repeat the random numbers of the original.
+impl Clone for RandomSampler {
+    fn clone(&self) -> RandomSampler {
+        RandomSampler {
+            rng: StdRng::new().unwrap(),
+            ..*self
+        }
+    }
+}
+
 impl Sampler for RandomSampler {
     fn start_pixel(&mut self, _: Point2i) {
         self.current_pixel_sample_index = 0;
-- 
2.43.0


From aee7d29566a4f1cf2ebd21f3827db267b166d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 08/27] fix: box test misses rays along a face when the
 direction is -0

---
 src/bbox.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..56840da 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -87,9 +87,10 @@ impl BBox3f {
 
         let mut axis = Axis::X;
         for _ in 0..3 {
+            let direction = ray.direction[axis] + 0.; // -0 becomes 0
             // t_near and t_far could be NaN or Infinity
-            let mut t_near = (self.min[axis] - ray.origin[axis]) / ray.direction[axis];
-            let mut t_far  = (self.max[axis] - ray.origin[axis]) / ray.direction[axis];
+            let mut t_near = (self.min[axis] - ray.origin[axis]) / direction;
+            let mut t_far  = (self.max[axis] - ray.origin[axis]) / direction;
             if t_near > t_far {
                 swap(&mut t_near, &mut t_far);
             }
-- 
2.43.0


From 767d5916d4cf588e54a99c5470ee98fe805b78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 09/27] fix: k-d tree misses hits of rays that lie in a split
 plane

---
 src/container_kdtree.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 2e4bdcb..4bc89a3 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -224,11 +224,18 @@ impl Container for KdTree {
                 return false;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
+                // the remaining nodes could be nearer, their t_min is not ordered if the ray lies in a split plane
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                }
                 break;
             }
 
@@ -306,12 +313,19 @@ impl Container for KdTree {
                 return None;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut interaction = None;
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
+                // the remaining nodes could be nearer, their t_min is not ordered if the ray lies in a split plane
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                }
                 break;
             }
 
-- 
2.43.0


From ec157bf46e0802b330dfe69fc5ff7ae5774ef9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 10/27] fix: sphere's reported error leaves out the translation
 to world space

---
 src/shape_sphere.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..478776a 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -74,7 +74,8 @@ impl Sphere {
         let mut p = ray.position(t);
         p *= self.radius / p.length();
 
-        let p_err = Vector3f::from(p).abs() * gamma(5.);
+        let p_world = self.local_to_world(p);
+        let p_err = Vector3f::from(p).abs() * gamma(5.) + Vector3f::from(p_world).abs() * gamma(1.);
 
         let phi = {
             let mut p = p;
@@ -96,7 +97,7 @@ impl Sphere {
 
         return (
             Interaction {
-                p: self.local_to_world(p),
+                p: p_world,
                 p_err,
                 uv,
                 n,
-- 
2.43.0


From 9cd981f588e15c844801a789064d4673e843d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 11/27] fix: tangents of a sphere are NaN at its poles

---
 src/shape_sphere.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 478776a..4841196 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -77,12 +77,14 @@ impl Sphere {
         let p_world = self.local_to_world(p);
         let p_err = Vector3f::from(p).abs() * gamma(5.) + Vector3f::from(p_world).abs() * gamma(1.);
 
+        // phi and the partial derivatives are undefined at the poles
+        let mut p_uv = p;
+        if p_uv.x.abs().max(p_uv.y.abs()) < 1e-10 * self.radius {
+            p_uv.x = 1e-10 * self.radius;
+        }
+
         let phi = {
-            let mut p = p;
-            if p.x == 0. && p.y == 0. {
-                p.x = 1e-5 * self.radius;
-            }
-            let mut phi = p.y.atan2(p.x);
+            let mut phi = p_uv.y.atan2(p_uv.x);
             if phi < 0. {
                 phi += PI * 2.;
             }
@@ -93,7 +95,7 @@ impl Sphere {
 
         let n = Normal3f::from(p.normalize());
 
-        let (dpdu, dpdv) = self.compute_partial_derivative(p);
+        let (dpdu, dpdv) = self.compute_partial_derivative(p_uv);
 
         return (
             Interaction {
-- 
2.43.0


From b0321e7804a0b158728a612f30bbf247816d96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 12/27] fix: shading normal is NaN where vertex normals cancel

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From f18537d3c6f1f56ab952b580b302da618db1f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 13/27] fix: points sampled on a triangle ignore its vertex
 normals

---
 src/shape_triangle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4cf146..b4fc702 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -305,6 +305,14 @@ impl Shape for Triangle {
         let p_err = Vector3f::from(p_abs_sum) * gamma(7.);
 
         let mut n = Normal3f::from((vs_o[1] - vs_o[0]).cross(vs_o[2] - vs_o[0]).normalize());
+        if let Some(vertex_normals) = self.vertex_normals {
+            let sn = vertex_normals[0] * b0
+                   + vertex_normals[1] * b1
+                   + vertex_normals[2] * b2;
+            if n.dot(sn) < 0. {
+                n *= -1.;
+            }
+        }
         if self.reverse_orientation {
             n *= -1.;
         }
-- 
2.43.0


From f78b2cfb648852bc5fcd870b7f1ea90d0702deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 14/27] fix: pdf of a light direction is per area instead of
 per solid angle

---
 src/shape.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..04db3f2 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,16 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// pdf returns the density of the direction wi with respect to solid angle as seen from ref_i, when points are sampled uniformly on the surface.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        if let Some((i, _)) = self.intersect(&ref_i.spawn_ray(wi)) {
+            let d = i.p - ref_i.p;
+            let pdf = d.dot(d) / (wi.dot_n(i.n).abs() * self.area());
+            if pdf.is_finite() {
+                return pdf;
+            }
+        }
+        return 0.;
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From 465816081ec366c79af93a3f8a472825a0dd8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 15/27] fix: rough glass hit from inside reflects like from
 outside

---
 src/bxdf_microfacet_reflection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index ceefc3e..48e4734 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -38,7 +38,9 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
-        let f = self.fresnel.evaluate(wh.dot(wi));
+        // wh is on the side of wo, Fresnel expects the normal on the upper side
+        let cos_theta_h = if wh.z < 0. { -wh.dot(wi) } else { wh.dot(wi) };
+        let f = self.fresnel.evaluate(cos_theta_h);
         return self.r * d * g * f
             / (4. * cos_theta_o * cos_theta_i);
     }
-- 
2.43.0


From 16225e76997c7ed53b91341da476c136d9cf3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 16/27] fix: density of microfacet normals divides by the
 cosine instead of multiplying

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From c9dbe1370fb9f033fd94b9b6a15c227fbfbbe4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 17/27] fix: microfacet transmission between directions no
 microfacet can join

---
 src/bxdf_microfacet_transmission.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_transmission.rs b/src/bxdf_microfacet_transmission.rs
index 3bc83b7..53e0f31 100644
--- a/src/bxdf_microfacet_transmission.rs
+++ b/src/bxdf_microfacet_transmission.rs
@@ -50,6 +50,10 @@ impl BxDF for MicrofacetTransmissionBTDF {
         if wh.z < 0. {
             wh *= -1.;
         }
+        // wo and wi have to see the upper and lower side of the microfacet
+        if wo.dot(wh) * cos_theta_o <= 0. || wi.dot(wh) * cos_theta_i <= 0. {
+            return Spectrum::default();
+        }
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
@@ -64,6 +68,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
         }
 
         let wh = self.distribution.sample_wh(wo, sample);
+        if wo.dot(wh) <= 0. {
+            return Default::default();
+        }
         let eta = if cos_theta(wo) > 0. {
             self.eta_a / self.eta_b
         } else {
@@ -91,7 +98,13 @@ impl BxDF for MicrofacetTransmissionBTDF {
         } else {
             self.eta_a / self.eta_b
         };
-        let wh = (wo + wi * eta).normalize();
+        let mut wh = (wo + wi * eta).normalize();
+        if wh.z < 0. {
+            wh *= -1.;
+        }
+        if wo.dot(wh) * cos_theta(wo) <= 0. || wi.dot(wh) * cos_theta(wi) <= 0. {
+            return 0.;
+        }
 
         let sqrt_denom = wo.dot(wh) + wi.dot(wh) * eta;
         let dwh_dwi = (wi.dot(wh) * eta * eta / sqrt_denom.powi(2)).abs();
-- 
2.43.0


From a12b04d4610262b03576e28cb7d592d2503cbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 18/27] fix: a sample of a single lobe is not checked against
 the geometric normal

---
 src/reflection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f14ccd4 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,7 +119,7 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
-- 
2.43.0


From fe63835c1e5aed9f7871ffdda67664cace249050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 19/27] fix: microfacets of zero roughness in one direction
 give NaN

---
 src/microfacet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index fa632a3..9648bad 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -11,7 +11,8 @@ pub struct MicrofacetDistribution {
 
 impl MicrofacetDistribution {
     pub fn new(alpha_x: f32, alpha_y: f32) -> MicrofacetDistribution {
-        MicrofacetDistribution { alpha_x, alpha_y }
+        // the distribution is undefined for a roughness of zero
+        MicrofacetDistribution { alpha_x: alpha_x.max(1e-3), alpha_y: alpha_y.max(1e-3) }
     }
 
     pub fn d(&self, wh: Vector3f) -> f32 {
-- 
2.43.0


From 05f8af8d3d980d959591a04a2952b827b4bec30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 20/27] fix: rough glass without a change of index gives NaN
 and transmits nothing

---
 src/material_glass.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/material_glass.rs b/src/material_glass.rs
index 9eb4799..6754733 100644
--- a/src/material_glass.rs
+++ b/src/material_glass.rs
@@ -36,7 +36,8 @@ impl Material for GlassMaterial {
         let rough_u = self.roughness_u.evaluate(i);
         let rough_v = self.roughness_v.evaluate(i);
 
-        if rough_u == 0. && rough_v == 0. {
+        // without a change of index microfacets do not deflect light
+        if (rough_u == 0. && rough_v == 0.) || eta == 1. {
             if !r.is_black() {
                 let fresnel = FresnelDielectric::new(1., eta);
                 bsdf.add(SpecularReflectionBRDF::new(r, fresnel));
-- 
2.43.0


From feb3d946e5feeedf36abfd884bf943a86c37350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 21/27] fix: light seen in a specular surface is added twice

---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2058b6d..0e29214 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -149,15 +149,13 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            // li() adds what is seen through specular bounces
+            if scattering_pdf > 0. && !f.is_black() && !sampled_specular {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From 14eac062c3121f9f1276d1753e99362ec5fa3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 22/27] fix: transformed box only encloses two of its corners

---
 src/transform.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..1fd7b3c 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,15 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
-            self.min._transform(m, m_inv),
-            self.max._transform(m, m_inv),
-        )
+        let corner = |x, y, z| Point3f::new(x, y, z)._transform(m, m_inv);
+        let (min, max) = (self.min, self.max);
+        return BBox3f::new(corner(min.x, min.y, min.z), corner(max.x, max.y, max.z))
+            .union_point(corner(max.x, min.y, min.z))
+            .union_point(corner(min.x, max.y, min.z))
+            .union_point(corner(min.x, min.y, max.z))
+            .union_point(corner(max.x, max.y, min.z))
+            .union_point(corner(max.x, min.y, max.z))
+            .union_point(corner(min.x, max.y, max.z));
     }
 }
 
-- 
2.43.0


From b5c2b28e3002f1b83111fc66685e3c99258669df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 23/27] fix: transformed error bound of a hit is negative or
 cancels

---
 src/transform.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1fd7b3c..6aaa79c 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -257,7 +257,12 @@ impl Transformable for Interaction {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> Interaction {
         Interaction {
             p: self.p._transform(m, m_inv),
-            p_err: self.p_err._transform(m, m_inv),
+            // a bound on the absolute error
+            p_err: Vector3f::new(
+                Vector3f::new(m[0][0], m[0][1], m[0][2]).abs().dot(self.p_err),
+                Vector3f::new(m[1][0], m[1][1], m[1][2]).abs().dot(self.p_err),
+                Vector3f::new(m[2][0], m[2][1], m[2][2]).abs().dot(self.p_err),
+            ),
             uv: self.uv,
             n: self.n._transform(m, m_inv),
             sn: self.sn._transform(m, m_inv),
-- 
2.43.0


From 7122d795262e6bbc139d2b2f637c9835f6477e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 24/27] fix: ray of a scaled camera is not a unit vector

---
 src/camera.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/camera.rs b/src/camera.rs
index 9267c19..3e2abd9 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -61,10 +61,13 @@ impl Camera for PerspectiveCamera {
         let p_camera = self.raster_to_camera.apply(&p_film);
 
         let ray = Ray {
-            direction: Vector3f::from(p_camera).normalize(),
+            direction: Vector3f::from(p_camera),
             ..Default::default()
         };
 
-        return self.camera_to_world.apply(&ray);
+        let mut ray = self.camera_to_world.apply(&ray);
+        ray.direction = ray.direction.normalize(); // camera_to_world may scale
+
+        return ray;
     }
 }
-- 
2.43.0


From 88ad40ea4aab372046a52ef77daec883df001b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 25/27] fix: a scene without shapes panics

---
 src/bbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bbox.rs b/src/bbox.rs
index 56840da..0a15cfc 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -23,6 +23,9 @@ impl BBox3f {
     }
 
     pub fn bbox_of_shapes(shapes: &[Arc<Shape>]) -> BBox3f {
+        if shapes.is_empty() {
+            return BBox3f::new(Point3f::default(), Point3f::default());
+        }
         shapes[1..].iter().fold(shapes[0].bbox(), |bbox, s| bbox.union(&s.bbox()))
     }
 
-- 
2.43.0


From df840aecccf99c5abcc3a68cfdb23cd1ea0c7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 26/27] fix: point the first tangent of triangles with vertex
 normals along growing u

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4fc702..a35785f 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -245,7 +245,7 @@ impl Shape for Triangle {
             }
 
             dpdu = dpdu.normalize();
-            dpdv = dpdu.cross(Vector3f::from(sn));
+            dpdv = Vector3f::from(sn).cross(dpdu);
             let len = dpdv.length();
             if len > 0. {
                 dpdv /= len;
-- 
2.43.0


From df868004933b6d05a492c1a2e431510fa2b37071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 27/27] fix: a failed render no longer returns while other
 workers go on

---
 src/integrator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 0e29214..8b0bf26 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -69,7 +69,9 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             handles.push(handle);
         }
 
-        handles.into_iter().for_each(|handle| handle.join().unwrap());
+        // wait for all workers, also if one of them panicked
+        let results: Vec<_> = handles.into_iter().map(|handle| handle.join()).collect();
+        results.into_iter().for_each(|result| result.unwrap());
 
         let mut file = BufWriter::new(
             OpenOptions::new()
-- 
2.43.0

