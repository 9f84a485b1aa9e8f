From 9dddaa107ff087cd33ee4b0aad565a22b2d8d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 01/17] fix: keep degenerate simplices marked when their matrix
 can't be inverted

---
 qhull-rs/src/delaunay.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..84875a4 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -614,7 +614,10 @@ impl<N> BarycentricTransformation<N>
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        if !decomp.try_inverse_to(&mut t_inv) {
+            // A failed inversion leaves junk in `t_inv`, so mark the simplex as degenerate again.
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From 9cc206575fbf1e1f9719ef517f4f875150954683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 02/17] fix: compute and check all coordinates in neighbors of
 degenerate simplices

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 84875a4..7271e0c 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -462,9 +462,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From c9bc0aeb95e89b1a97e21fae172a7991b51da1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 03/17] fix: start simplex searches from the first simplex,
 which always exists

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 7271e0c..f85680c 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From ff0be69c2b7262e112b52edf8804ad70394bf5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 04/17] fix: compute plane distances as an inner product

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index f85680c..d45b6ce 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From 9e02ea49ed81c3fc5a0c534afd79516296419ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 05/17] fix: lift points with the scale and shift used by qhull

---
 qhull-rs/src/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index d45b6ce..3d747e2 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
-- 
2.43.0


From e196add7280e71254d588c45208321e14e9e6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 06/17] fix: don't overflow when counting the pixels of large
 images

---
 image-palette-recoloring/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..5ff7c32 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -48,7 +48,7 @@ impl ImageWeights {
         let tri = Delaunay::<Const<5>>::from_arrays(&ch_vertices[..]);
 
         let vertex_count = ch_vertices.len();
-        let row_count = (img.height() * img.width()) as usize;
+        let row_count = img.height() as usize * img.width() as usize;
 
         // We'll be building a COO matrix, so we need to collect the following vecs
         let mut row_indices = Vec::with_capacity(row_count);
-- 
2.43.0


From 78d5a03b217266dd10df7fcc422de8e523b924ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 07/17] fix: reject palettes that contain the same color twice

---
 image-palette-recoloring/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 5ff7c32..affac3f 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -164,7 +164,10 @@ impl DecomposedImage {
             .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
             .collect();
 
-        for color in palette {
+        for (i, color) in palette.iter().enumerate() {
+            if palette[..i].contains(color) {
+                return Err("The palette contains the same color more than once".into());
+            }
             let color = [color[0] as f64, color[1] as f64, color[2] as f64];
             if palette_ch.vertices().all(|v| v.point().as_slice() != &color[..]) {
                 return Err(
-- 
2.43.0


From 28c56f1da9c0eb869eda027cfb3fc9b9c4e428f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 08/17] fix: measure the palette error against the clamped hull
 only

---
 image-palette-recoloring/src/palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..da8e475 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -127,7 +127,7 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
+    let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
         .collect::<Vec<[f64; 3]>>()
-- 
2.43.0


From 44813b3b476794e18e35d37431d2dc9ed25aecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 09/17] fix: avoid 32-bit overflow in the buffer sizes of the C
 interface

---
 image-palette-recoloring-c/src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index b0ed75c..33c6f44 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -21,11 +21,18 @@ unsafe extern "C" fn free_image_buffer(size: u32, buf: *mut u8) {
     let _ = Box::from_raw(slice_ptr);
 }
 
+fn rgb_image_len(width: u32, height: u32) -> Option<usize> {
+    (width as usize).checked_mul(height as usize)?.checked_mul(3)
+}
+
 #[no_mangle]
 unsafe extern "C" fn create_image_weights(width: u32, height: u32, bytes: *const u8)
     -> *const c_void
 {
-    let bytes_slice = slice::from_raw_parts(bytes, 3 * (width * height) as usize);
+    let Some(len) = rgb_image_len(width, height) else {
+        return ptr::null()
+    };
+    let bytes_slice = slice::from_raw_parts(bytes, len);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {
         return ptr::null()
     };
@@ -50,7 +57,10 @@ unsafe extern "C" fn compute_palette(
     out_palette_size: *mut u8
 ) -> *mut [u8; 3]
 {
-    let bytes_slice = slice::from_raw_parts(img_bytes, (img_width * img_height * 3) as usize);
+    let Some(len) = rgb_image_len(img_width, img_height) else {
+        return ptr::null_mut()
+    };
+    let bytes_slice = slice::from_raw_parts(img_bytes, len);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(img_width, img_height, bytes_slice) else {
         return ptr::null_mut()
     };
@@ -122,10 +132,7 @@ unsafe extern "C" fn reconstruct_image(
         return 0;
     };
 
-    let output_slice = slice::from_raw_parts_mut(
-        output_buffer,
-        (reconstructed.width() * reconstructed.height() * 3) as usize,
-    );
+    let output_slice = slice::from_raw_parts_mut(output_buffer, reconstructed.len());
     output_slice.copy_from_slice(&reconstructed);
     1
 }
@@ -142,10 +149,7 @@ unsafe extern "C" fn grayscale_image_channel(
         return 0;
     };
 
-    let output_slice = slice::from_raw_parts_mut(
-        output_buffer,
-        (reconstructed.width() * reconstructed.height()) as usize,
-    );
+    let output_slice = slice::from_raw_parts_mut(output_buffer, reconstructed.len());
     output_slice.copy_from_slice(&reconstructed);
     1
 }
-- 
2.43.0


From 82320ca28019fbfde4963dfa83b85405b9005e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 10/17] fix: don't report a truncated palette size to C callers

---
 image-palette-recoloring-c/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index 33c6f44..f49722d 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -72,7 +72,10 @@ unsafe extern "C" fn compute_palette(
         error_bound
     );
 
-    *out_palette_size = palette.len() as u8;
+    let Ok(palette_size) = u8::try_from(palette.len()) else {
+        return ptr::null_mut()
+    };
+    *out_palette_size = palette_size;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
 }
 
-- 
2.43.0


From c70cb30666a7f37a790c647b8d117424a005fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 11/17] fix: declare max_palette_size in the C header

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From af7eafa0a00fa0f2714cd950fb0f2614e8997a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 12/17] fix: only accept hexadecimal digits in color lists

---
 image-palette-recoloring-cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..7d27f32 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,9 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        if !color_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+            Err(format!("Color {i} isn't valid: not hexadecimal."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From e4d03b3b35d18d7c5f89e2c611c9327552196a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 13/17] fix: map qhull facets to their own index so hull facets
 get their real neighbors

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..892baa3 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), offsets_and_normals.len());
             offsets_and_normals.push((
                 // XXX This feels really gross, but it's necessary until a change is made to the
                 //     facet api :(
-- 
2.43.0


From 7849586554e057724dff76f85de1e8b843804a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 14/17] fix: stop simplifying a palette when no edge can be
 collapsed instead of panicking

---
 image-palette-recoloring/src/palette.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index da8e475..05f0257 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -78,7 +78,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // There is no edge that can be collapsed without cutting into the hull.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -228,7 +231,7 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -293,10 +296,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From e46a04fed610705abbd360ea8a8aa0f37a11e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 15/17] fix: handle palette facets that lie in one plane with
 the star vertex

---
 image-palette-recoloring/src/palette.rs | 41 ++++++++++++-------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 05f0257..f579b56 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -338,7 +338,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
     // hull - the "star". (Naturally, we exclude the triangles that include the star itself to
     // avoid degenerate tetrahedrons.)
 
-    let solvers: Vec<_> = palette_ch.facets()
+    let (star_facets, solvers): (Vec<_>, Vec<_>) = palette_ch.facets()
         // Facets involving the star vertex would create degenerate tetrahedrons, so skip them.
         .filter(|f| f.vertices().all(|v| v.index() != star_index))
         .map(|f| {
@@ -357,14 +357,16 @@ pub(crate) fn compute_star_triangulation_coordinates(
                 col[2] = point[2];
                 // col[3] = 1.0;
             }
-            output
+            (f, output)
         })
+        // Facets in the same plane as the star create degenerate tetrahedrons too. (The colors are
+        // integers, so the determinant of any other tetrahedron is at least 1.)
+        .filter(|(_, mat)| mat.determinant().abs() > 0.5)
         // XXX QR or LU? They both should work, I think, but I think QR can handle a greater range
         //     of matrices?
-        .map(|mat| mat.lu().try_inverse().unwrap())
-        .collect();
-    let simplex_indices: Vec<_> = palette_ch.facets()
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+        .map(|(f, mat)| (f, mat.lu().try_inverse().unwrap()))
+        .unzip();
+    let simplex_indices: Vec<_> = star_facets.iter()
         .map(|f| Vector4::from_iterator(
                 std::iter::once(star_index).chain(f.vertices().map(|v| v.index()))
             ))
@@ -391,7 +393,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         } else {
             // If this point is outside of the convex hull, then we want to find the point on the
             // hull closest to the point.
-            let (closest_facet, projected_point, _) = palette_ch.facets()
+            let (projected_point, _) = palette_ch.facets()
                 .map(|f| {
                     let mut it = f.vertices();
                     let v0 = it.next().unwrap().point().clone();
@@ -402,27 +404,22 @@ pub(crate) fn compute_star_triangulation_coordinates(
                     );
                     let diff = pixel - projected_point;
                     let dist = diff.dot(&diff);
-                    (f, projected_point, dist)
+                    (projected_point, dist)
                 })
-                .min_by(|(_, _, left), (_, _, right)| left.total_cmp(right))
+                .min_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
-            let solver_index = simplex_indices.iter().enumerate()
-                .find(|(_, indices)| {
-                    // This is a match if the simplex has all 3 of the vertices of closest facet.
-                    // There should only every be 1 simplex for which that is true.
-                    let indices = indices.as_slice();
-                    closest_facet.vertices()
-                        .map(|v| v.index())
-                        .all(|i| indices.contains(&i))
+            // The simplices cover the hull, so the projected point must be in (at least) one. Use
+            // the simplex that contains it best.
+            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
+            let (solver, matched_indices) = solvers.iter()
+                .zip(&simplex_indices)
+                .max_by(|(left, _), (right, _)| {
+                    (*left * vec).min().total_cmp(&(*right * vec).min())
                 })
-                .map(|(i, _)| i)
                 .unwrap();
-
-            let solver = &solvers[solver_index];
-            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
             solver.mul_to(&vec, &mut bcoords);
-            &simplex_indices[solver_index]
+            matched_indices
         };
         let mut row = matrix.row_mut(row_number);
         for (value, index) in bcoords.iter().zip(matched_indices) {
-- 
2.43.0


From ca118bd5b4de02f93142774b22cf38a6463de781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 16/17] fix: treat almost singular simplices of a raw
 triangulation as degenerate

---
 qhull-rs/src/raw.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..e7ce53a 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -893,12 +893,18 @@ impl<N: DimName> Delaunay<N>
                 continue;
             }
 
+            let norm = mat.norm();
             let lu = mat.clone().lu();
             let mat = if let Some(mat) = lu.try_inverse() {
                 mat
             } else {
                 continue;
             };
+            // The inverse of an almost singular matrix is mostly rounding error, so treat the
+            // simplex as degenerate. (SciPy uses the same limit for the condition number.)
+            if !(1.0 / (norm * mat.norm()) >= 1000.0 * f64::EPSILON) {
+                continue;
+            }
             solvers[simplex.id() as usize] = Some(BarycentricSolver {
                 mat,
             });
-- 
2.43.0


From 213b77623063c5e2a6ce0be8765f4b8343a49ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 17/17] fix: treat almost singular simplices of a triangulation
 as degenerate

---
 qhull-rs/src/delaunay.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 3d747e2..811b181 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -612,9 +612,14 @@ impl<N> BarycentricTransformation<N>
                 .map(move |vert| vert[i] - rn)
             );
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
+        let norm = t.norm();
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        if !decomp.try_inverse_to(&mut t_inv) {
+        // The inverse of an almost singular matrix is mostly rounding error. (SciPy uses the same
+        // limit for the condition number.)
+        if !decomp.try_inverse_to(&mut t_inv)
+            || !(1.0 / (norm * t_inv.norm()) >= 1000.0 * f64::EPSILON)
+        {
             // A failed inversion leaves junk in `t_inv`, so mark the simplex as degenerate again.
             t_inv.fill(f64::NAN);
         }
-- 
2.43.0

