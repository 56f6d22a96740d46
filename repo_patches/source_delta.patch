From 2c44e05e952e452a2aa314157485d487d2ba5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 01/46] fix: replace and overlay reach the last row and column
 of the bottom image

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..eab7212 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -215,8 +215,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x + top.width());
+    let y_end = min(bottom.height(), y + top.height());
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
@@ -262,8 +262,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x + top.width());
+    let y_end = min(bottom.height(), y + top.height());
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
-- 
2.43.0


From 94937f303507ab57a312dee4b84b6671764575ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 02/46] fix: overlay blends the pixels of the top image

---
 src/compose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compose.rs b/src/compose.rs
index eab7212..73f3028 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -268,7 +268,7 @@ where
     for y_bot in y..y_end {
         for x_bot in x..x_end {
             let mut bottom_pixel = *bottom.get_pixel(x_bot, y_bot);
-            let top_pixel = bottom.get_pixel(x_bot - x, y_bot - y);
+            let top_pixel = top.get_pixel(x_bot - x, y_bot - y);
 
             bottom_pixel.blend(top_pixel);
 
-- 
2.43.0


From f2727fed4d60cd8bea00bcd54be9de4cf7cc71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 03/46] fix: Projection keeps invertible matrices whose last
 element is zero

---
 src/geometric_transformations.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..30c63f1 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -675,6 +675,11 @@ fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
 }
 
 fn normalize(mx: [f32; 9]) -> [f32; 9] {
+    // Homogeneous matrices are equal up to scale, but a zero corner cannot be scaled to one.
+    if mx[8] == 0.0 {
+        return mx;
+    }
+
     [
         mx[0] / mx[8],
         mx[1] / mx[8],
-- 
2.43.0


From e324d6aa05e43b052620e42372efa15e8da66794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 04/46] fix: translating or warping an image of zero width does
 not panic

---
 src/geometric_transformations.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 30c63f1..27cf5f9 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -472,8 +472,12 @@ where
     let num_channels = P::CHANNEL_COUNT as usize;
     let mut out = Image::new(width, height);
 
+    if width == 0 {
+        return out;
+    }
+
     for y in 0..height {
-        let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
+        let y_in = cmp::max(0, cmp::min((y as i32).saturating_sub(ty), h - 1));
 
         if tx > 0 {
             let p_min = *image.get_pixel(0, y_in as u32);
@@ -644,6 +648,10 @@ where
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
 
+    if pitch == 0 {
+        return;
+    }
+
     #[cfg(feature = "rayon")]
     let chunks = raw_out.par_chunks_mut(pitch);
     #[cfg(not(feature = "rayon"))]
-- 
2.43.0


From b3603be90ab03477140dd58c446a6a055c94f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 05/46] fix: distances saturate at 255 when there is no pixel
 of interest

---
 src/distance_transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/distance_transform.rs b/src/distance_transform.rs
index f6f588b..eeeebca 100644
--- a/src/distance_transform.rs
+++ b/src/distance_transform.rs
@@ -3,6 +3,7 @@
 
 use crate::definitions::Image;
 use image::{GenericImage, GenericImageView, GrayImage, Luma};
+#[cfg(test)]
 use std::cmp::min;
 
 /// How to measure distance between coordinates.
@@ -128,7 +129,8 @@ fn distance_transform_impl_linf_or_l1<const IS_LINF: bool>(
     image: &mut GrayImage,
     from: DistanceFrom,
 ) {
-    let max_distance = Luma([min(image.width() + image.height(), 255u32) as u8]);
+    // No pixel of interest found yet: infinitely far away, so saturated.
+    let max_distance = Luma([u8::MAX]);
 
     // We use an unsafe code block for optimisation purposes here
     // We use the 'unsafe_get_pixel' and 'check' unsafe functions,
-- 
2.43.0


From 29fe4a4955720d9d7dbe404e15061b4d98534cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 06/46] fix: grayscale morphology accepts images of zero width

---
 src/morphology.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index badb683..88c0209 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -542,6 +542,9 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
+    if image.width() == 0 {
+        return result;
+    }
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-- 
2.43.0


From 75dbd8ec4f493423146678059c55591be75e9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 07/46] fix: connected_components panicked when every pixel
 starts a new component

---
 src/region_labelling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/region_labelling.rs b/src/region_labelling.rs
index 3a8be91..88e63f0 100644
--- a/src/region_labelling.rs
+++ b/src/region_labelling.rs
@@ -141,7 +141,8 @@ where
         return out;
     }
 
-    let mut forest = DisjointSetForest::new(image_size);
+    // Labels start at 1, so there may be a label equal to image_size.
+    let mut forest = DisjointSetForest::new(image_size + 1);
     let mut adj_labels = [0u32; 4];
     let mut next_label = 1;
 
@@ -216,7 +217,7 @@ where
     }
 
     // Make components start at 1
-    let mut output_labels = vec![0u32; image_size];
+    let mut output_labels = vec![0u32; image_size + 1];
     let mut count = 1;
 
     unsafe {
-- 
2.43.0


From b64e99a065512b129fbaafef65f84ec97d9d45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 08/46] fix: flood_fill never terminated when filling a region
 with its own color

---
 src/drawing/fill.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..a68553e 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -19,6 +19,12 @@ where
 {
     let target = *image.get_pixel(x, y);
 
+    // Filling a region with its own color changes nothing, and filled pixels would never
+    // become distinguishable from unfilled ones.
+    if target == fill_with {
+        return;
+    }
+
     let mut stack = Vec::new();
 
     stack.push((x as i32, x as i32, y as i32, 1_i32));
-- 
2.43.0


From 4b1def2e8ce15d089c68773395e2c18dc28bbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 09/46] fix: find_contours missed the outer borders of
 components touching the left image edge

---
 src/contours.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/contours.rs b/src/contours.rs
index dcdafb3..a61ea25 100644
--- a/src/contours.rs
+++ b/src/contours.rs
@@ -106,17 +106,17 @@ where
                 continue;
             }
 
-            if let Some((adj, border_type)) = if image_values[at(x, y)] == 1
-                && x > 0
-                && image_values[at(x - 1, y)] == 0
+            if let Some((adj_diff, border_type)) = if image_values[at(x, y)] == 1
+                && (x == 0 || image_values[at(x - 1, y)] == 0)
             {
-                Some((Point::new(x - 1, y), BorderType::Outer))
+                // Pixels outside the image belong to the background.
+                Some((Point::new(-1, 0), BorderType::Outer))
             } else if image_values[at(x, y)] > 0 && x + 1 < width && image_values[at(x + 1, y)] == 0
             {
                 if image_values[at(x, y)] > 1 {
                     parent_border_num = image_values[at(x, y)] as usize;
                 }
-                Some((Point::new(x + 1, y), BorderType::Hole))
+                Some((Point::new(1, 0), BorderType::Hole))
             } else {
                 None
             } {
@@ -138,7 +138,7 @@ where
 
                 let mut contour_points = Vec::new();
                 let curr = Point::new(x, y);
-                rotate_to_value(&mut diffs, adj.to_i32() - curr.to_i32());
+                rotate_to_value(&mut diffs, adj_diff);
 
                 if let Some(pos1) = diffs.iter().find_map(|diff| {
                     get_position_if_non_zero_pixel(&image_values, curr.to_i32() + *diff)
-- 
2.43.0


From 6716326409f96c50ec009c3b4601eeba27b5cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 10/46] fix: canny panicked on empty images and for low
 thresholds that reach the image border

---
 src/edges.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/edges.rs b/src/edges.rs
index 38ce3d9..931867a 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -60,8 +60,8 @@ fn non_maximum_suppression(
 ) -> Image<Luma<f32>> {
     const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
     let mut out = Image::from_pixel(g.width(), g.height(), Luma([0.0]));
-    for y in 1..g.height() - 1 {
-        for x in 1..g.width() - 1 {
+    for y in 1..g.height().saturating_sub(1) {
+        for x in 1..g.width().saturating_sub(1) {
             let x_gradient = gx[(x, y)][0] as f32;
             let y_gradient = gy[(x, y)][0] as f32;
             let mut angle = (y_gradient).atan2(x_gradient) * RADIANS_TO_DEGREES;
@@ -118,8 +118,8 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
     let mut out = Image::from_pixel(input.width(), input.height(), min_brightness);
     // Stack. Possible optimization: Use previously allocated memory, i.e. gx.
     let mut edges = Vec::with_capacity(((input.width() * input.height()) / 2) as usize);
-    for y in 1..input.height() - 1 {
-        for x in 1..input.width() - 1 {
+    for y in 1..input.height().saturating_sub(1) {
+        for x in 1..input.width().saturating_sub(1) {
             let inp_pix = *input.get_pixel(x, y);
             let out_pix = *out.get_pixel(x, y);
             // If the edge strength is higher than high_thresh, mark it as an edge.
@@ -138,6 +138,14 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
                     ];
 
                     for neighbor_idx in &neighbor_indices {
+                        // Pixels on the image border are never edges.
+                        if neighbor_idx.0 == 0
+                            || neighbor_idx.1 == 0
+                            || neighbor_idx.0 >= input.width() - 1
+                            || neighbor_idx.1 >= input.height() - 1
+                        {
+                            continue;
+                        }
                         let in_neighbor = *input.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         let out_neighbor = *out.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         if in_neighbor[0] >= low_thresh && out_neighbor[0] == 0 {
-- 
2.43.0


From 3f23c453107e9634dd66161f0d2df4c360154d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 11/46] fix: draw_filled_rect panicked on images of zero size

---
 src/drawing/rect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/rect.rs b/src/drawing/rect.rs
index ee2c99e..4f20d3e 100644
--- a/src/drawing/rect.rs
+++ b/src/drawing/rect.rs
@@ -52,6 +52,9 @@ pub fn draw_filled_rect_mut<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
 where
     C: Canvas,
 {
+    if canvas.width() == 0 || canvas.height() == 0 {
+        return;
+    }
     let canvas_bounds = Rect::at(0, 0).of_size(canvas.width(), canvas.height());
     if let Some(intersection) = canvas_bounds.intersect(rect) {
         for dy in 0..intersection.height() {
-- 
2.43.0


From f8dd2b4f74b9ac6cafda4ddb6c9cd53af78ba05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 12/46] fix: draw_polygon drew outside of images of zero height

---
 src/drawing/polygon.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/polygon.rs b/src/drawing/polygon.rs
index b3169f8..224a280 100644
--- a/src/drawing/polygon.rs
+++ b/src/drawing/polygon.rs
@@ -155,6 +155,9 @@ where
     }
 
     let (width, height) = canvas.dimensions();
+    if height == 0 {
+        return;
+    }
 
     // Intersect polygon vertical range with image bounds
     y_min = max(0, min(y_min, height as i32 - 1));
-- 
2.43.0


From e5b9061e1ea1fbf0126cd266def8150d8549b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 13/46] fix: antialiased lines had weights outside of [0, 1]
 next to coordinate zero

---
 src/drawing/line.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..0a8c031 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -284,8 +284,10 @@ fn plot_wu_line<I, T, B>(
     let mut fy = start.1 as f32;
 
     for x in start.0..(end.0 + 1) {
-        plotter.plot(x, fy as i32, color, 1.0 - fy.fract());
-        plotter.plot(x, fy as i32 + 1, color, fy.fract());
+        // Round down, also for negative coordinates.
+        let y = fy.floor();
+        plotter.plot(x, y as i32, color, 1.0 - (fy - y));
+        plotter.plot(x, y as i32 + 1, color, fy - y);
         fy += gradient;
     }
 }
-- 
2.43.0


From f7ee13774e0315f96bb8ceebe527e72aaa30afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 14/46] fix: draw_cross overflowed for extreme coordinates

---
 src/drawing/cross.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawing/cross.rs b/src/drawing/cross.rs
index bb3be8c..35844a7 100644
--- a/src/drawing/cross.rs
+++ b/src/drawing/cross.rs
@@ -28,13 +28,13 @@ where
                    0u8, 1u8, 0u8];
 
     for sy in -1..2 {
-        let iy = y + sy;
+        let iy = y.saturating_add(sy);
         if iy < 0 || iy >= height as i32 {
             continue;
         }
 
         for sx in -1..2 {
-            let ix = x + sx;
+            let ix = x.saturating_add(sx);
             if ix < 0 || ix >= width as i32 {
                 continue;
             }
-- 
2.43.0


From 1540e39294e26ee68ff1ff9654a5f8bb67031039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 15/46] fix: local_maxima ignored the last row of points

---
 src/suppress.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index b7af9d6..ea46a42 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -132,12 +132,8 @@ where
 
         let mut is_max = true;
         let row_lower = cy.saturating_sub(radius);
-        let row_upper = if cy + radius + 1 > height {
-            height
-        } else {
-            cy + radius + 1
-        };
-        for y in row_lower..row_upper {
+        let row_upper = cmp::min(height, cy.saturating_add(radius));
+        for y in row_lower..=row_upper {
             for c in &ts_by_row[y as usize] {
                 if c.x() + radius < cx {
                     continue;
-- 
2.43.0


From f851858fc74b3539e2d9d44e6b997f94f796194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 16/46] fix: enumerate_haar_features overflowed for frames of
 side 255

---
 src/haar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 8eb7cd3..89f3707 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -327,8 +327,8 @@ impl<T> Size<T> {
 
 // Returns the valid block sizes for a feature of shape `feature_shape` in a frame of size `frame_size`.
 fn block_sizes(feature_shape: Size<Blocks>, frame_size: Size<Pixels>) -> Vec<Size<Pixels>> {
-    (1..frame_size.width / feature_shape.width + 1)
-        .cartesian_product(1..frame_size.height / feature_shape.height + 1)
+    (1..=frame_size.width / feature_shape.width)
+        .cartesian_product(1..=frame_size.height / feature_shape.height)
         .map(|(w, h)| Size::new(w, h))
         .collect()
 }
-- 
2.43.0


From d3e73636bdfc889327ba577b9e8f7e95ef5758bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 17/46] fix: brief lost the first bit of every 128-bit chunk

---
 src/binary_descriptors/brief.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..a74d134 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -179,10 +179,10 @@ pub(crate) fn brief_impl(
             };
 
             // if p0 < p1, then record true for this test; otherwise, record false
+            descriptor_chunk <<= 1;
             descriptor_chunk += (local_pixel_average(integral_image, p0.x, p0.y, 2)
                 < local_pixel_average(integral_image, p1.x, p1.y, 2))
                 as u128;
-            descriptor_chunk <<= 1;
         }
         // save the final chunk too
         descriptor.bits.push(descriptor_chunk);
-- 
2.43.0


From 0596dc2d12305c16c1f86d500b7ba05b493fd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 18/46] fix: match_binary_descriptors matched the wrong way
 round for d1 longer than d2

---
 src/binary_descriptors/mod.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/binary_descriptors/mod.rs b/src/binary_descriptors/mod.rs
index f695bc1..1f06784 100644
--- a/src/binary_descriptors/mod.rs
+++ b/src/binary_descriptors/mod.rs
@@ -63,12 +63,7 @@ pub fn match_binary_descriptors<'a, T: BinaryDescriptor>(
     };
 
     // locality-sensitive hashing (LSH)
-    // this algorithm is log(d2.len()) but linear in d1.len(), so swap the inputs if needed
-    let (queries, database, swapped) = if d1.len() > d2.len() {
-        (d2, d1, true)
-    } else {
-        (d1, d2, false)
-    };
+    let (queries, database) = (d1, d2);
 
     // build l hash tables by selecting k random bits from each descriptor
     let l = 3;
@@ -123,11 +118,7 @@ pub fn match_binary_descriptors<'a, T: BinaryDescriptor>(
         }
         // ignore the match if it's beyond our threshold
         if best_score < threshold {
-            if swapped {
-                matches.push((best_candidate.unwrap(), query));
-            } else {
-                matches.push((query, best_candidate.unwrap()));
-            }
+            matches.push((query, best_candidate.unwrap()));
         }
     }
     matches
-- 
2.43.0


From 8466abb80ead2b99a37e726b970833ef5d944f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 19/46] fix: oriented_fast panicked on images with fewer than
 1000 pixels

---
 src/corners.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..b68ae30 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -205,9 +205,9 @@ pub fn oriented_fast(
             .collect();
         fast_scores.sort();
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
-        let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
+        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(sample_size - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-- 
2.43.0


From f2558fc39e8d763a07aba464afd0f76432cc9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 20/46] fix: intersection_points returned one corner twice for
 lines through a corner

---
 src/hough.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/hough.rs b/src/hough.rs
index 659a481..99b2ec9 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -163,37 +163,34 @@ pub fn intersection_points(
     let bottom_x = sin.mul_add(-h, r) / cos;
     let top_x = r / cos;
 
+    // A line through a corner meets two sides there, so keep the two points furthest apart.
+    let mut points: Option<((f32, f32), (f32, f32))> = None;
     let mut start = None;
+    let mut add = |p: (f32, f32)| {
+        let Some(s) = start else {
+            start = Some(p);
+            return;
+        };
+        let distance = |q: (f32, f32)| (q.0 - s.0).abs() + (q.1 - s.1).abs();
+        if points.map_or(true, |(_, e)| distance(p) > distance(e)) {
+            points = Some((s, p));
+        }
+    };
 
     if right_y >= 0.0 && right_y <= h {
-        let right_intersect = (w, right_y);
-        start = Some(right_intersect);
+        add((w, right_y));
     }
-
     if left_y >= 0.0 && left_y <= h {
-        let left_intersect = (0.0, left_y);
-        if let Some(s) = start {
-            return Some((s, left_intersect));
-        }
-        start = Some(left_intersect);
+        add((0.0, left_y));
     }
-
     if bottom_x >= 0.0 && bottom_x <= w {
-        let bottom_intersect = (bottom_x, h);
-        if let Some(s) = start {
-            return Some((s, bottom_intersect));
-        }
-        start = Some(bottom_intersect);
+        add((bottom_x, h));
     }
-
     if top_x >= 0.0 && top_x <= w {
-        let top_intersect = (top_x, 0.0);
-        if let Some(s) = start {
-            return Some((s, top_intersect));
-        }
+        add((top_x, 0.0));
     }
 
-    None
+    points
 }
 
 #[cfg(test)]
-- 
2.43.0


From c6ddac8c7594b379cffa1256cd59044150a9a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 21/46] fix: corners_fast12 missed corners whose arc excludes
 the top or bottom circle pixel

---
 src/corners.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index b68ae30..6ba147a 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -365,8 +365,8 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
         )
     };
 
-    let mut above = p0 > high_thresh && p8 > high_thresh;
-    let mut below = p0 < low_thresh && p8 < low_thresh;
+    let mut above = p0 > high_thresh || p8 > high_thresh;
+    let mut below = p0 < low_thresh || p8 < low_thresh;
 
     if !above && !below {
         return false;
@@ -396,12 +396,9 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
     // JUSTIFICATION - see comment at the start of this function
     let pixels = unsafe { get_circle(image, x, y, p0, p4, p8, p12) };
 
-    // Exactly one of above or below is true
-    if above {
-        has_bright_span(&pixels, 12, high_thresh)
-    } else {
-        has_dark_span(&pixels, 12, low_thresh)
-    }
+    // above and below could both be true
+    (above && has_bright_span(&pixels, 12, high_thresh))
+        || (below && has_dark_span(&pixels, 12, low_thresh))
 }
 
 /// # Safety
-- 
2.43.0


From 89bfd7cf21afb099e9d5c286fc4993fac8bf4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 22/46] fix: find_vertical_seam compared against the energy of
 the row below

---
 src/seam_carving.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..1255fee 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -93,6 +93,7 @@ where
 
     for y in (1..height).rev() {
         let above = gradients.get_pixel(last_x, y - 1)[0];
+        let mut min_energy = above;
         if last_x > 0 {
             let left = gradients.get_pixel(last_x - 1, y - 1)[0];
             if left < above {
@@ -104,7 +105,6 @@ where
             let right = gradients.get_pixel(last_x + 1, y - 1)[0];
             if right < min_energy {
                 min_x = last_x + 1;
-                min_energy = right;
             }
         }
 
-- 
2.43.0


From 5e730c621e1dfb1717ef334f1d6594120880a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 23/46] fix: draw_vertical_seams misplaced pixels of later
 seams

---
 src/seam_carving.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 1255fee..fa6cb8d 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -173,14 +173,16 @@ pub fn draw_vertical_seams(image: &GrayImage, seams: &[VerticalSeam]) -> Image<R
 
     for seam in seams {
         for (y, x) in (0..height).rev().zip(&seam.0) {
+            // Undo the earlier removals from this row, whose columns are kept in increasing order.
+            let row_offsets: &mut Vec<u32> = &mut offsets[y as usize];
             let mut x_original = *x;
-            for o in &offsets[y as usize] {
-                if *o < *x {
-                    x_original += 1;
-                }
+            let mut i = 0;
+            while i < row_offsets.len() && row_offsets[i] <= x_original {
+                x_original += 1;
+                i += 1;
             }
             out.put_pixel(x_original, y, Rgb([255, 0, 0]));
-            offsets[y as usize].push(x_original);
+            row_offsets.insert(i, x_original);
         }
     }
 
-- 
2.43.0


From bbbfe2b854e1ef8fb19e31a0ab5266047e816b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 24/46] fix: map_pixels2 did not always panic for images of
 different dimensions

---
 src/map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 61f28b7..092e0ff 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -351,9 +351,15 @@ where
     R: Pixel,
     F: Fn(P, Q) -> R,
 {
+    assert_eq!(
+        image1.dimensions(),
+        image2.dimensions(),
+        "the images must have the same dimensions"
+    );
+
     Image::from_vec(
         image1.width(),
-        image2.height(),
+        image1.height(),
         image1
             .pixels()
             .zip(image2.pixels())
-- 
2.43.0


From 7c90571fa3817181407c774a3509ba2cf8c6e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 25/46] fix: convex_hull overflowed for coordinates further
 than 46340 apart

---
 src/geometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..ed7169d 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -261,7 +261,8 @@ enum Orientation {
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
 fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
-    let val = (q.y - p.y) * (r.x - q.x) - (q.x - p.x) * (r.y - q.y);
+    let diff = |a: i32, b: i32| a as i64 - b as i64;
+    let val = diff(q.y, p.y) * diff(r.x, q.x) - diff(q.x, p.x) * diff(r.y, q.y);
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
         Ordering::Greater => Orientation::Clockwise,
-- 
2.43.0


From 0b78e0b755bc7e338f3f6845e79d590e907185de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 26/46] fix: convex_hull of repeated points contained
 duplicates or could panic while sorting

---
 src/geometry.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index ed7169d..50059fe 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -193,29 +193,23 @@ where
     if points.is_empty() {
         return vec![];
     }
-    let mut start_point_pos = 0;
     let mut start_point = points[0];
-    for (i, &point) in points.iter().enumerate().skip(1) {
+    for &point in points.iter().skip(1) {
         if point.y < start_point.y || point.y == start_point.y && point.x < start_point.x {
-            start_point_pos = i;
             start_point = point;
         }
     }
-    points.swap(0, start_point_pos);
-    points.remove(0);
+    points.retain(|p| *p != start_point);
     points.sort_by(
         |a, b| match orientation(start_point.to_i32(), a.to_i32(), b.to_i32()) {
             Orientation::Collinear => {
-                if distance(start_point, *a) < distance(start_point, *b) {
-                    Ordering::Less
-                } else {
-                    Ordering::Greater
-                }
+                distance(start_point, *a).total_cmp(&distance(start_point, *b))
             }
             Orientation::Clockwise => Ordering::Greater,
             Orientation::CounterClockwise => Ordering::Less,
         },
     );
+    points.dedup();
 
     let mut iter = points.iter().peekable();
     let mut remaining_points = Vec::with_capacity(points.len());
-- 
2.43.0


From b77eecc24bef622fbd757b219020712d51e79ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 27/46] fix: min_area_rect ignored the closing edge of the
 convex hull

---
 src/geometry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 50059fe..679ae4d 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -120,9 +120,10 @@ where
     T: NumCast + Copy,
 {
     let mut edge_angles: Vec<f64> = points
-        .windows(2)
-        .map(|e| {
-            let edge = e[1].to_f64() - e[0].to_f64();
+        .iter()
+        .zip(points.iter().cycle().skip(1))
+        .map(|(p, q)| {
+            let edge = q.to_f64() - p.to_f64();
             ((edge.y.atan2(edge.x) + PI) % (PI / 2.)).abs()
         })
         .collect();
-- 
2.43.0


From 20e38170ece2af614059244f8c5d6fee13b01928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 28/46] fix: approximate_polygon_dp dropped every point between
 equal end points

---
 src/geometry.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 679ae4d..e1dc572 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -35,9 +35,15 @@ where
     let mut dmax = 0.0;
     let mut index = 0;
     let end = curve.len() - 1;
-    let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
+    let (first, last) = (curve[0].to_f64(), curve[end].to_f64());
+    let line = Line::from_points(first, last);
     for (i, point) in curve.iter().enumerate().skip(1) {
-        let d = line.distance_from_point(point.to_f64());
+        // There is no line through the end points of a closed curve.
+        let d = if first == last {
+            distance(first, point.to_f64())
+        } else {
+            line.distance_from_point(point.to_f64())
+        };
         if d > dmax {
             index = i;
             dmax = d;
-- 
2.43.0


From 8332a630cdc1e9741638184183fc64d61d18693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 29/46] fix: HogSpec::from_options panicked for blocks larger
 than the image

---
 src/hog.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..63aebff 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -113,13 +113,23 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
-        if (cells_wide - options.block_side) % options.block_stride != 0 {
+        if cells_wide < options.block_side {
+            errors.push(format!(
+                "block side {} is greater than cells wide {}",
+                options.block_side, cells_wide
+            ));
+        } else if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells wide {} - block side {})",
                 options.block_stride, cells_wide, options.block_side
             ));
         }
-        if (cells_high - options.block_side) % options.block_stride != 0 {
+        if cells_high < options.block_side {
+            errors.push(format!(
+                "block side {} is greater than cells high {}",
+                options.block_side, cells_high
+            ));
+        } else if (cells_high - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells high {} - block side {})",
                 options.block_stride, cells_high, options.block_side
-- 
2.43.0


From 454a3b6acaf8f06f5d09f1b6e439f3b4315abb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 30/46] fix: render_hist_grid drew every star in the centre of
 the image

---
 src/hog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index 63aebff..18abd38 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -391,7 +391,7 @@ pub fn render_hist_grid(star_side: u32, grid: &View3d<'_, f32>, signed: bool) ->
             let x_window = x as u32 * star_side;
             let mut window = out.sub_image(x_window, y_window, star_side, star_side);
             let hist = grid.inner_slice(x, y);
-            draw_star_mut(window.inner_mut(), hist, signed);
+            draw_star_mut(&mut *window, hist, signed);
         }
     }
 
-- 
2.43.0


From dc844dae5edf555218b7dc452bf67bd585f6226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 31/46] fix: bilateral_filter panicked for radii above 90

The index into the table of spatial weights was computed as i16, which
overflows once the window holds more than i16::MAX pixels.
---
 src/filter/bilateral.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 1cbd4a5..8e09608 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -129,7 +129,7 @@ where
         // Safety: `Image::from_fn` yields `col` in [0, width) and `row` in [0, height).
         let center_pixel = unsafe { image.unsafe_get_pixel(x, y) };
 
-        let window_len = 2 * radius + 1;
+        let window_len = 2 * radius as usize + 1;
         let weights_and_values = window_range
             .clone()
             .cartesian_product(window_range.clone())
@@ -148,7 +148,7 @@ where
                 let window_pixel = unsafe { image.unsafe_get_pixel(window_x, window_y) };
 
                 let spatial_distance = spatial_distance_lookup
-                    [(window_len * (w_y + radius) + (w_x + radius)) as usize];
+                    [window_len * (w_y + radius) as usize + (w_x + radius) as usize];
                 let color_distance = color_distance.color_distance(&center_pixel, &window_pixel);
                 let weight = spatial_distance * color_distance;
 
-- 
2.43.0


From 73bd1067095b9cae9dba87cdb281234b404b7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 32/46] fix: adaptive_threshold overflowed on large bright
 images and extreme radii or deltas

---
 src/contrast.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index c9024f1..ad950e1 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -1,6 +1,6 @@
 //! Functions for manipulating the contrast of images.
 
-use std::cmp::{max, min};
+use std::cmp::min;
 
 use image::{GrayImage, Luma, Pixel};
 #[cfg(feature = "rayon")]
@@ -18,7 +18,7 @@ use crate::stats::{cumulative_histogram, histogram};
 /// as the threshold then it will have a value of 255 in the output image, otherwise 0.
 pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> GrayImage {
     assert!(block_radius > 0);
-    let integral = integral_image::<_, u32>(image);
+    let integral = integral_image::<_, u64>(image);
     let mut out = GrayImage::from_pixel(image.width(), image.height(), Luma::black());
 
     for y in 0..image.height() {
@@ -26,19 +26,19 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
             let current_pixel = image.get_pixel(x, y);
             // Traverse all neighbors in (2 * block_radius + 1) x (2 * block_radius + 1)
             let (y_low, y_high) = (
-                max(0, y as i32 - (block_radius as i32)) as u32,
-                min(image.height() - 1, y + block_radius),
+                y.saturating_sub(block_radius),
+                min(image.height() - 1, y.saturating_add(block_radius)),
             );
             let (x_low, x_high) = (
-                max(0, x as i32 - (block_radius as i32)) as u32,
-                min(image.width() - 1, x + block_radius),
+                x.saturating_sub(block_radius),
+                min(image.width() - 1, x.saturating_add(block_radius)),
             );
 
             // Number of pixels in the block, adjusted for edge cases.
-            let w = (y_high - y_low + 1) * (x_high - x_low + 1);
+            let w = u64::from(y_high - y_low + 1) * u64::from(x_high - x_low + 1);
             let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
 
-            if current_pixel[0] as i32 >= mean as i32 - delta {
+            if i64::from(current_pixel[0]) >= mean as i64 - i64::from(delta) {
                 out.put_pixel(x, y, Luma::white());
             }
         }
-- 
2.43.0


From 710b1867524eda3f9b76c64444cdac2f2ec7f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 33/46] fix: otsu_level overflowed on images of more than 2^24
 pixels

---
 src/contrast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index ad950e1..9a63d9c 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -58,7 +58,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
     let total_pixel_sum = hist.channels[0]
         .iter()
         .enumerate()
-        .fold(0f64, |sum, (t, h)| sum + (t as u32 * h) as f64);
+        .fold(0f64, |sum, (t, h)| sum + t as f64 * *h as f64);
 
     // Sum of all pixel intensities in the background class.
     let mut background_pixel_sum = 0f64;
@@ -83,7 +83,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
             break;
         };
 
-        background_pixel_sum += (threshold as u32 * hist_count) as f64;
+        background_pixel_sum += threshold as f64 * *hist_count as f64;
         let foreground_pixel_sum = total_pixel_sum - background_pixel_sum;
 
         let background_mean = background_pixel_sum / (background_weight as f64);
-- 
2.43.0


From df2d98a0eb74c716b5673f935352814f7b8fac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 34/46] fix: suppress_non_maximum and local_maxima overflowed
 for huge radii

---
 src/suppress.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index ea46a42..e4cba80 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -18,6 +18,9 @@ where
         return out;
     }
 
+    // A larger radius covers the whole image just the same, but the sums below could overflow.
+    let radius = cmp::min(radius, cmp::max(width, height));
+
     // We divide the image into a grid of blocks of size r * r. We find the maximum
     // value in each block, and then test whether this is in fact the maximum value
     // in the (2r + 1) * (2r + 1) block centered on it. Any pixel that's not maximal
@@ -135,10 +138,10 @@ where
         let row_upper = cmp::min(height, cy.saturating_add(radius));
         for y in row_lower..=row_upper {
             for c in &ts_by_row[y as usize] {
-                if c.x() + radius < cx {
+                if c.x().saturating_add(radius) < cx {
                     continue;
                 }
-                if c.x() > cx + radius {
+                if c.x() > cx.saturating_add(radius) {
                     break;
                 }
                 if c.score() > cs {
-- 
2.43.0


From c3e5b8c3f981f54543baffa3652b638eece5a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 35/46] fix: ellipses with large radii overflowed or left the
 ellipse

---
 src/drawing/conics.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..870c2b6 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -124,17 +124,17 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    let w2 = f64::from(width_radius).powi(2);
+    let h2 = f64::from(height_radius).powi(2);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
-    let mut py = 2.0 * w2 * y as f32;
+    let mut py = 2.0 * w2 * f64::from(y);
 
     render_func(x0, y0, x, y);
 
     // Top and bottom regions.
-    let mut p = h2 - (w2 * height_radius as f32) + (0.25 * w2);
+    let mut p = h2 - (w2 * f64::from(height_radius)) + (0.25 * w2);
     while px < py {
         x += 1;
         px += 2.0 * h2;
@@ -150,7 +150,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (f64::from(x) + 0.5).powi(2) + (w2 * f64::from(y - 1).powi(2)) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
-- 
2.43.0


From 9b4514e8023ebd802849eef29495ad171c68f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 36/46] fix: Projection::from_control_points went wrong when
 the origin's image is at infinity or points are collinear

---
 src/geometric_transformations.rs | 125 +++++++++++++++----------------
 1 file changed, 62 insertions(+), 63 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 27cf5f9..a4d2915 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -3,6 +3,7 @@
 
 use crate::definitions::{Clamp, Image};
 use image::{GenericImageView, Pixel};
+use num::Num;
 #[cfg(feature = "rayon")]
 use rayon::prelude::*;
 use std::{cmp, ops::Mul};
@@ -127,70 +128,20 @@ impl Projection {
     }
 
     /// Calculates a projection from a set of four control point pairs.
+    ///
+    /// Returns `None` if three of the points in `from` or in `to` lie on a line.
     pub fn from_control_points(from: [(f32, f32); 4], to: [(f32, f32); 4]) -> Option<Projection> {
-        use approx::AbsDiffEq;
-        use nalgebra::{linalg::SVD, OMatrix, OVector, U8};
-
-        let (xf1, yf1, xf2, yf2, xf3, yf3, xf4, yf4) = (
-            from[0].0 as f64,
-            from[0].1 as f64,
-            from[1].0 as f64,
-            from[1].1 as f64,
-            from[2].0 as f64,
-            from[2].1 as f64,
-            from[3].0 as f64,
-            from[3].1 as f64,
-        );
-
-        let (x1, y1, x2, y2, x3, y3, x4, y4) = (
-            to[0].0 as f64,
-            to[0].1 as f64,
-            to[1].0 as f64,
-            to[1].1 as f64,
-            to[2].0 as f64,
-            to[2].1 as f64,
-            to[3].0 as f64,
-            to[3].1 as f64,
-        );
+        // Both sets of points are images of the same four standard points,
+        // so go from the first set to these and on to the second one.
+        let (from, to) = (projective_frame(from)?, projective_frame(to)?);
+        let transform = normalize(to_f32(mul3x3(to, adjugate(&from))));
+        let inverse = normalize(to_f32(mul3x3(from, adjugate(&to))));
 
-        #[rustfmt::skip]
-        let a = OMatrix::<_, U8, U8>::from_row_slice(&[
-            0.0, 0.0, 0.0, -xf1, -yf1, -1.0,  y1 * xf1,  y1 * yf1,
-            xf1, yf1, 1.0,  0.0,  0.0,  0.0, -x1 * xf1, -x1 * yf1,
-            0.0, 0.0, 0.0, -xf2, -yf2, -1.0,  y2 * xf2,  y2 * yf2,
-            xf2, yf2, 1.0,  0.0,  0.0,  0.0, -x2 * xf2, -x2 * yf2,
-            0.0, 0.0, 0.0, -xf3, -yf3, -1.0,  y3 * xf3,  y3 * yf3,
-            xf3, yf3, 1.0,  0.0,  0.0,  0.0, -x3 * xf3, -x3 * yf3,
-            0.0, 0.0, 0.0, -xf4, -yf4, -1.0,  y4 * xf4,  y4 * yf4,
-            xf4, yf4, 1.0,  0.0,  0.0,  0.0, -x4 * xf4, -x4 * yf4,
-        ]);
-
-        let b = OVector::<_, U8>::from_row_slice(&[-y1, x1, -y2, x2, -y3, x3, -y4, x4]);
-
-        SVD::try_new(a, true, true, f64::default_epsilon(), 0)
-            .and_then(|svd| svd.solve(&b, f64::default_epsilon()).ok())
-            .and_then(|h| {
-                let mut transform = [
-                    h[0] as f32,
-                    h[1] as f32,
-                    h[2] as f32,
-                    h[3] as f32,
-                    h[4] as f32,
-                    h[5] as f32,
-                    h[6] as f32,
-                    h[7] as f32,
-                    1.0,
-                ];
-
-                transform = normalize(transform);
-                let class = class_from_matrix(transform);
-
-                try_inverse(&transform).map(|inverse| Projection {
-                    transform,
-                    inverse,
-                    class,
-                })
-            })
+        Some(Projection {
+            transform,
+            inverse,
+            class: class_from_matrix(transform),
+        })
     }
 
     // Helper functions used as optimization in warp.
@@ -732,7 +683,7 @@ fn try_inverse(t: &[f32; 9]) -> Option<[f32; 9]> {
     Some(normalize(inv))
 }
 
-fn mul3x3(a: [f32; 9], b: [f32; 9]) -> [f32; 9] {
+fn mul3x3<T: Num + Copy>(a: [T; 9], b: [T; 9]) -> [T; 9] {
     let [a00, a01, a02, a10, a11, a12, a20, a21, a22] = a;
     let [b00, b01, b02, b10, b11, b12, b20, b21, b22] = b;
     [
@@ -748,6 +699,54 @@ fn mul3x3(a: [f32; 9], b: [f32; 9]) -> [f32; 9] {
     ]
 }
 
+/// The matrix which maps (1, 0, 0), (0, 1, 0), (0, 0, 1) and (1, 1, 1) to the given points,
+/// or `None` if three of them lie on a line.
+fn projective_frame(points: [(f32, f32); 4]) -> Option<[f64; 9]> {
+    let [p1, p2, p3, p4] = points.map(|(x, y)| (f64::from(x), f64::from(y)));
+    // Twice the signed area of a triangle.
+    let area = |a: (f64, f64), b: (f64, f64), c: (f64, f64)| {
+        (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
+    };
+
+    // The fourth point is (w1 * p1 + w2 * p2 + w3 * p3) / (w1 + w2 + w3).
+    let (w1, w2, w3) = (area(p4, p2, p3), area(p1, p4, p3), area(p1, p2, p4));
+    if w1 == 0.0 || w2 == 0.0 || w3 == 0.0 || area(p1, p2, p3) == 0.0 {
+        return None;
+    }
+
+    #[rustfmt::skip]
+    let frame = [
+        w1 * p1.0, w2 * p2.0, w3 * p3.0,
+        w1 * p1.1, w2 * p2.1, w3 * p3.1,
+        w1,        w2,        w3,
+    ];
+
+    Some(frame)
+}
+
+/// The inverse of a matrix up to a factor.
+fn adjugate(t: &[f64; 9]) -> [f64; 9] {
+    let [t00, t01, t02, t10, t11, t12, t20, t21, t22] = t;
+
+    [
+        t11 * t22 - t12 * t21,
+        t02 * t21 - t01 * t22,
+        t01 * t12 - t02 * t11,
+        t12 * t20 - t10 * t22,
+        t00 * t22 - t02 * t20,
+        t02 * t10 - t00 * t12,
+        t10 * t21 - t11 * t20,
+        t01 * t20 - t00 * t21,
+        t00 * t11 - t01 * t10,
+    ]
+}
+
+/// Converts a homogeneous matrix, scaled to a largest entry of one.
+fn to_f32(t: [f64; 9]) -> [f32; 9] {
+    let largest = t.iter().fold(0f64, |m, x| m.max(x.abs()));
+    t.map(|x| (x / largest) as f32)
+}
+
 fn blend_cubic<P>(px0: &P, px1: &P, px2: &P, px3: &P, x: f32) -> P
 where
     P: Pixel,
-- 
2.43.0


From 3c6e84ab2afa8eb892c0a0040f087349aef75c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 37/46] fix: orientation of corners whose patch is clipped by
 the left or top border

---
 src/corners.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 6ba147a..8a69dbd 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -124,7 +124,10 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
     let y_max = u32::min(y + radius + 1, height);
     let x_max = u32::min(x + radius + 1, width);
 
-    let (mut x_count, mut y_count) = (-(radius as i32), (radius as i32));
+    // The offsets of the first column and row, which may have been clipped to the image.
+    let x_start = x_min as i32 - x as i32;
+    let y_start = y as i32 - y_min as i32;
+    let (mut x_count, mut y_count) = (x_start, y_start);
 
     for y in y_min..y_max {
         for x in x_min..x_max {
@@ -146,7 +149,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             x_centroid += x_count * (pixel as i32);
             x_count += 1;
         }
-        x_count = -(radius as i32);
+        x_count = x_start;
     }
 
     for x in x_min..x_max {
-- 
2.43.0


From 9b2731ab55f95de5e04e9fb6cdf237afd840412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 38/46] fix: oriented_fast panicked when the edge radius leaves
 no pixel

---
 src/corners.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 8a69dbd..239e316 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -159,7 +159,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             y_centroid += y_count * (pixel as i32);
             y_count -= 1;
         }
-        y_count = radius as i32;
+        y_count = y_start;
     }
 
     // Important note: we flip the sign here because there are two coordinate
@@ -181,8 +181,12 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
-    let (min_x, max_x) = (edge_radius, width - edge_radius);
-    let (min_y, max_y) = (edge_radius, height - edge_radius);
+    let (min_x, max_x) = (edge_radius, width.saturating_sub(edge_radius));
+    let (min_y, max_y) = (edge_radius, height.saturating_sub(edge_radius));
+    // No pixel is far enough from the edges to be a corner.
+    if min_x >= max_x || min_y >= max_y {
+        return vec![];
+    }
     let mut corners = vec![];
 
     let local_threshold = if let Some(t) = threshold {
@@ -214,8 +218,8 @@ pub fn oriented_fast(
     };
 
     // Iterate over every pixel in the image and find potential corners.
-    for y in edge_radius..height - edge_radius {
-        for x in edge_radius..width - edge_radius {
+    for y in min_y..max_y {
+        for x in min_x..max_x {
             if is_corner_fast9(image, local_threshold, x, y) {
                 let score = fast_corner_score(image, local_threshold, x, y, Fast::Nine);
                 corners.push(Corner::new(x, y, score as f32));
-- 
2.43.0


From 0160db2a3e117c4ab7276865285ea4a2e305c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 39/46] fix: detect_lines overflowed for images with a side
 over 65535

---
 src/hough.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hough.rs b/src/hough.rs
index 99b2ec9..50f5bbe 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -40,7 +40,7 @@ pub fn detect_lines(image: &GrayImage, options: LineDetectionOptions) -> Vec<Pol
     let (width, height) = image.dimensions();
 
     // The maximum possible radius is the diagonal of the image.
-    let rmax = ((width * width + height * height) as f64).sqrt() as i32;
+    let rmax = (f64::from(width).powi(2) + f64::from(height).powi(2)).sqrt() as i32;
 
     // Measure angles in degrees, and use bins of width 1 pixel and height 1 degree.
     // We use the convention that distances are positive for angles in (0, 180] and
-- 
2.43.0


From 3945bb3594738b7675c25530451b5dce22b18625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 40/46] fix: brief read out of bounds for test pairs far
 outside the image and overflowed for far keypoints

---
 src/binary_descriptors/brief.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index a74d134..ea3e073 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -71,10 +71,10 @@ fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius
     if radius == 0 {
         return 0;
     }
-    let y_min = y.saturating_sub(radius);
-    let x_min = x.saturating_sub(radius);
-    let y_max = u32::min(y + radius + 1, integral_image.height() - 1);
-    let x_max = u32::min(x + radius + 1, integral_image.width() - 1);
+    let y_max = u32::min(y.saturating_add(radius + 1), integral_image.height() - 1);
+    let x_max = u32::min(x.saturating_add(radius + 1), integral_image.width() - 1);
+    let y_min = u32::min(y.saturating_sub(radius), y_max);
+    let x_min = u32::min(x.saturating_sub(radius), x_max);
 
     let pixel_area = (y_max - y_min) * (x_max - x_min);
     if pixel_area == 0 {
@@ -135,9 +135,9 @@ pub(crate) fn brief_impl(
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x.saturating_add(BRIEF_PATCH_RADIUS) >= width
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y.saturating_add(BRIEF_PATCH_RADIUS) >= height
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
@@ -170,12 +170,12 @@ pub(crate) fn brief_impl(
             }
 
             let p0 = Point {
-                x: test_pair.p0.x + patch_top_left.x + 1,
-                y: test_pair.p0.y + patch_top_left.y + 1,
+                x: test_pair.p0.x.saturating_add(patch_top_left.x + 1),
+                y: test_pair.p0.y.saturating_add(patch_top_left.y + 1),
             };
             let p1 = Point {
-                x: test_pair.p1.x + patch_top_left.x + 1,
-                y: test_pair.p1.y + patch_top_left.y + 1,
+                x: test_pair.p1.x.saturating_add(patch_top_left.x + 1),
+                y: test_pair.p1.y.saturating_add(patch_top_left.y + 1),
             };
 
             // if p0 < p1, then record true for this test; otherwise, record false
-- 
2.43.0


From d7b71946708bc0e3e0429f87cbd6241b7d971acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 41/46] fix: approximate_polygon_dp recursed forever on tiny
 epsilons

---
 src/geometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index e1dc572..70d98fc 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -37,7 +37,8 @@ where
     let end = curve.len() - 1;
     let (first, last) = (curve[0].to_f64(), curve[end].to_f64());
     let line = Line::from_points(first, last);
-    for (i, point) in curve.iter().enumerate().skip(1) {
+    // The end points stay, even if rounding moves them off the line.
+    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
         // There is no line through the end points of a closed curve.
         let d = if first == last {
             distance(first, point.to_f64())
-- 
2.43.0


From 77ef1e6092b89de68aa73ea92d9faf6040a3a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 42/46] fix: Rect edges beyond i32 arithmetic

Rect::right, bottom and intersect overflowed when a side is longer than
i32::MAX, although the edges themselves may be representable.
---
 src/rect.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4c64403..d737d70 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -62,14 +62,14 @@ impl Rect {
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn bottom(&self) -> i32 {
-        self.top + (self.height as i32) - 1
+        self.top.saturating_add_unsigned(self.height - 1)
     }
 
     /// Greatest x-coordinate reached by rect.
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn right(&self) -> i32 {
-        self.left + (self.width as i32) - 1
+        self.left.saturating_add_unsigned(self.width - 1)
     }
 
     /// Width of rect.
@@ -117,8 +117,8 @@ impl Rect {
         Some(Rect {
             left,
             top,
-            width: (right - left) as u32 + 1,
-            height: (bottom - top) as u32 + 1,
+            width: right.abs_diff(left) + 1,
+            height: bottom.abs_diff(top) + 1,
         })
     }
 }
-- 
2.43.0


From 4d73c3dc49063a43a6fd6e9dcee4e2480a7910d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 43/46] fix: convex_hull overflowed for points spread over the
 whole i32 plane

---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 70d98fc..e02d0fb 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -263,7 +263,7 @@ enum Orientation {
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
 fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
-    let diff = |a: i32, b: i32| a as i64 - b as i64;
+    let diff = |a: i32, b: i32| a as i128 - b as i128;
     let val = diff(q.y, p.y) * diff(r.x, q.x) - diff(q.x, p.x) * diff(r.y, q.y);
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
-- 
2.43.0


From 72ae7d726d961b3a10ccf40a3685d7215f8d4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 44/46] fix: circles, ellipses and lines at the ends of the
 coordinate range overflowed

---
 src/drawing/conics.rs | 52 +++++++++++++++++++++----------------------
 src/drawing/line.rs   | 19 ++++++++--------
 2 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 870c2b6..8eaabc8 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -47,10 +47,10 @@ pub fn draw_hollow_ellipse_mut<C>(
     }
 
     let draw_quad_pixels = |x0: i32, y0: i32, x: i32, y: i32| {
-        draw_if_in_bounds(canvas, x0 + x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 + x, y0 - y, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 - y, color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_sub(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_sub(y), color);
     };
 
     draw_ellipse(draw_quad_pixels, center, width_radius, height_radius);
@@ -101,14 +101,14 @@ pub fn draw_filled_ellipse_mut<C>(
     let draw_line_pairs = |x0: i32, y0: i32, x: i32, y: i32| {
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 + y) as f32),
-            ((x0 + x) as f32, (y0 + y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_add(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_add(y) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 - y) as f32),
-            ((x0 + x) as f32, (y0 - y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_sub(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_sub(y) as f32),
             color,
         );
     };
@@ -191,19 +191,19 @@ where
 {
     let mut x = 0i32;
     let mut y = radius;
-    let mut p = 1 - radius;
+    let mut p = 1i32.saturating_sub(radius);
     let x0 = center.0;
     let y0 = center.1;
 
     while x <= y {
-        draw_if_in_bounds(canvas, x0 + x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 + y, y0 + x, color);
-        draw_if_in_bounds(canvas, x0 - y, y0 + x, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 + y, color);
-        draw_if_in_bounds(canvas, x0 - x, y0 - y, color);
-        draw_if_in_bounds(canvas, x0 - y, y0 - x, color);
-        draw_if_in_bounds(canvas, x0 + y, y0 - x, color);
-        draw_if_in_bounds(canvas, x0 + x, y0 - y, color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(y), y0.saturating_add(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(y), y0.saturating_add(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_add(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(x), y0.saturating_sub(y), color);
+        draw_if_in_bounds(canvas, x0.saturating_sub(y), y0.saturating_sub(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(y), y0.saturating_sub(x), color);
+        draw_if_in_bounds(canvas, x0.saturating_add(x), y0.saturating_sub(y), color);
 
         x += 1;
         if p < 0 {
@@ -240,33 +240,33 @@ where
 {
     let mut x = 0i32;
     let mut y = radius;
-    let mut p = 1 - radius;
+    let mut p = 1i32.saturating_sub(radius);
     let x0 = center.0;
     let y0 = center.1;
 
     while x <= y {
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 + y) as f32),
-            ((x0 + x) as f32, (y0 + y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_add(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_add(y) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - y) as f32, (y0 + x) as f32),
-            ((x0 + y) as f32, (y0 + x) as f32),
+            (x0.saturating_sub(y) as f32, y0.saturating_add(x) as f32),
+            (x0.saturating_add(y) as f32, y0.saturating_add(x) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - x) as f32, (y0 - y) as f32),
-            ((x0 + x) as f32, (y0 - y) as f32),
+            (x0.saturating_sub(x) as f32, y0.saturating_sub(y) as f32),
+            (x0.saturating_add(x) as f32, y0.saturating_sub(y) as f32),
             color,
         );
         draw_line_segment_mut(
             canvas,
-            ((x0 - y) as f32, (y0 - x) as f32),
-            ((x0 + y) as f32, (y0 - x) as f32),
+            (x0.saturating_sub(y) as f32, y0.saturating_sub(x) as f32),
+            (x0.saturating_add(y) as f32, y0.saturating_sub(x) as f32),
             color,
         );
 
diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 0a8c031..a17f6b7 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -8,12 +8,13 @@ use std::mem::{swap, transmute};
 pub struct BresenhamLineIter {
     dx: f32,
     dy: f32,
-    x: i32,
-    y: i32,
+    // Wider than the coordinates, so that stepping past the last point can't overflow.
+    x: i64,
+    y: i64,
     error: f32,
-    end_x: i32,
+    end_x: i64,
     is_steep: bool,
-    y_step: i32,
+    y_step: i64,
 }
 
 impl BresenhamLineIter {
@@ -39,10 +40,10 @@ impl BresenhamLineIter {
         BresenhamLineIter {
             dx,
             dy: (y1 - y0).abs(),
-            x: x0 as i32,
-            y: y0 as i32,
+            x: x0 as i32 as i64,
+            y: y0 as i32 as i64,
             error: dx / 2f32,
-            end_x: x1 as i32,
+            end_x: x1 as i32 as i64,
             is_steep,
             y_step: if y0 < y1 { 1 } else { -1 },
         }
@@ -57,9 +58,9 @@ impl Iterator for BresenhamLineIter {
             None
         } else {
             let ret = if self.is_steep {
-                (self.y, self.x)
+                (self.y as i32, self.x as i32)
             } else {
-                (self.x, self.y)
+                (self.x as i32, self.y as i32)
             };
 
             self.x += 1;
-- 
2.43.0


From 6f8abcf09f9dcf2e862ea25e773b036ead0dd976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 45/46] fix: text and antialiased lines at the ends of the
 coordinate range overflowed

---
 src/drawing/line.rs | 4 ++--
 src/drawing/text.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index a17f6b7..4c65ad5 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -284,11 +284,11 @@ fn plot_wu_line<I, T, B>(
     let gradient = dy as f32 / dx as f32;
     let mut fy = start.1 as f32;
 
-    for x in start.0..(end.0 + 1) {
+    for x in start.0..=end.0 {
         // Round down, also for negative coordinates.
         let y = fy.floor();
         plotter.plot(x, y as i32, color, 1.0 - (fy - y));
-        plotter.plot(x, y as i32 + 1, color, fy - y);
+        plotter.plot(x, (y as i32).saturating_add(1), color, fy - y);
         fy += gradient;
     }
 }
diff --git a/src/drawing/text.rs b/src/drawing/text.rs
index 13319af..05a12aa 100644
--- a/src/drawing/text.rs
+++ b/src/drawing/text.rs
@@ -89,11 +89,11 @@ pub fn draw_text_mut<C>(
     let image_height = canvas.height() as i32;
 
     layout_glyphs(scale, font, text, |g, bb| {
-        let x_shift = x + bb.min.x.round() as i32;
-        let y_shift = y + bb.min.y.round() as i32;
+        let x_shift = x.saturating_add(bb.min.x.round() as i32);
+        let y_shift = y.saturating_add(bb.min.y.round() as i32);
         g.draw(|gx, gy, gv| {
-            let image_x = gx as i32 + x_shift;
-            let image_y = gy as i32 + y_shift;
+            let image_x = x_shift.saturating_add(gx as i32);
+            let image_y = y_shift.saturating_add(gy as i32);
 
             if (0..image_width).contains(&image_x) && (0..image_height).contains(&image_y) {
                 let image_x = image_x as u32;
-- 
2.43.0


From d3b8fc899a5f5caf570ca228fda31af23a325eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 46/46] fix: polar lines that cross the image border beside a
 corner

The two quotients for the sides meeting at a corner could both be rounded to
just outside of them, so that a line through the image had no intersection.
---
 src/hough.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/hough.rs b/src/hough.rs
index 50f5bbe..e186272 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -177,17 +177,21 @@ pub fn intersection_points(
         }
     };
 
-    if right_y >= 0.0 && right_y <= h {
-        add((w, right_y));
+    // Rounding can put the point where the line meets a corner just outside of both its sides.
+    let margin = 4.0 * f32::EPSILON * (w + h);
+    let on_side = |v: f32, side: f32| v >= -margin && v <= side + margin;
+
+    if on_side(right_y, h) {
+        add((w, right_y.clamp(0.0, h)));
     }
-    if left_y >= 0.0 && left_y <= h {
-        add((0.0, left_y));
+    if on_side(left_y, h) {
+        add((0.0, left_y.clamp(0.0, h)));
     }
-    if bottom_x >= 0.0 && bottom_x <= w {
-        add((bottom_x, h));
+    if on_side(bottom_x, w) {
+        add((bottom_x.clamp(0.0, w), h));
     }
-    if top_x >= 0.0 && top_x <= w {
-        add((top_x, 0.0));
+    if on_side(top_x, w) {
+        add((top_x.clamp(0.0, w), 0.0));
     }
 
     points
-- 
2.43.0

