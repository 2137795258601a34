From 67a4686c45a808357383601f22496300fc600919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 01/13] fix: ColorTransform::None panicked on horizontally
 subsampled images

---
 src/decoder.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..f767390 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1474,12 +1474,11 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
+    // The line buffers of subsampled images are wider than the image.
+    let width = output.len() / data.len();
 
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
-        }
+    for (line, component) in output.chunks_exact_mut(width).zip(data) {
+        line.copy_from_slice(&component[..width]);
     }
 }
 
-- 
2.43.0


From b2b606d6d4d2d10845d5187ddb17d4b65d291dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 02/13] fix: lossless images of 2 to 7 bits were returned as
 16-bit samples while info() says L8

---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..3583d24 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -250,7 +250,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From 1488c4923c3a5bc27873770025decf57119a95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 03/13] fix: lossless scans of single components were stored
 under the wrong component

---
 src/decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f767390..2a89199 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -414,9 +414,10 @@ impl<R: Read> Decoder<R> {
                     if frame.coding_process == CodingProcess::Lossless {
                         let (marker, data) = self.decode_scan_lossless(&frame, &scan)?;
 
-                        for (i, plane) in data
-                            .into_iter()
-                            .enumerate()
+                        for (&i, plane) in scan
+                            .component_indices
+                            .iter()
+                            .zip(data)
                             .filter(|(_, plane)| !plane.is_empty())
                         {
                             planes_u16[i] = plane;
-- 
2.43.0


From 2d3682acd23b573d0d2ff206a284c56005752c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 04/13] fix: lossless prediction used samples that were already
 scaled by the point transform

---
 src/decoder/lossless.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 3583d24..a436efb 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -111,7 +111,6 @@ impl<R: Read> Decoder<R> {
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -120,7 +119,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -131,7 +129,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -170,12 +167,20 @@ impl<R: Read> Decoder<R> {
                                 && mcus_left_until_restart == self.restart_interval - 1,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // Section A.4 (the point transform), only undone on output: predictions are made from the
+        // samples before it.
+        if scan.point_transform > 0 {
+            for sample in results.iter_mut().flatten() {
+                *sample <<= scan.point_transform;
+            }
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = self.read_marker().ok();
-- 
2.43.0


From 824587db9cc14fe4c5e06d1cd3eca0cd46f189da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 05/13] fix: initial lossless prediction when the point
 transform leaves one bit

---
 src/decoder/lossless.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index a436efb..92746bc 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -204,11 +204,7 @@ fn predict(
 ) -> i32 {
     if (ix == 0 && iy == 0) || restart {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
-            1 << (input_precision - point_transform - 1)
-        } else {
-            0
-        }
+        1 << (input_precision - point_transform - 1)
     } else if iy == 0 {
         // rest of first line
         ra
-- 
2.43.0


From 45fac7201284ff5d8b912dc38ac5fff53f6a6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 06/13] fix: lossless prediction was not reset at restart
 intervals

---
 src/decoder/lossless.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 92746bc..90c7a21 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -105,19 +105,27 @@ impl<R: Read> Decoder<R> {
             }
         }
 
+        // Section H.1.1: prediction starts anew, with a first line, in every restart interval.
+        let restart_interval = usize::from(self.restart_interval);
+        let restarts_at = |sample: usize| restart_interval > 0 && sample % restart_interval == 0;
+
         if scan.predictor_selection == Predictor::Ra {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
-                let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
-                let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
+                let initial_prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
+                let result = ((initial_prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
                 let mut previous = result;
                 for mcu_y in 1..height {
                     let diff = differences[i][mcu_y * width];
-                    let prediction = previous as i32;
+                    let prediction = if restarts_at(mcu_y * width) {
+                        initial_prediction
+                    } else {
+                        previous as i32
+                    };
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                     results[i][mcu_y * width] = result;
                     previous = result;
@@ -127,7 +135,11 @@ impl<R: Read> Decoder<R> {
                 for mcu_y in 0..height {
                     for mcu_x in 1..width {
                         let diff = differences[i][mcu_y * width + mcu_x];
-                        let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
+                        let prediction = if restarts_at(mcu_y * width + mcu_x) {
+                            initial_prediction
+                        } else {
+                            results[i][mcu_y * width + mcu_x - 1] as i32
+                        };
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result;
                     }
@@ -135,6 +147,8 @@ impl<R: Read> Decoder<R> {
             }
         } else {
             for mcu_y in 0..height {
+                let first_line = mcu_y == 0 || restarts_at(mcu_y * width);
+
                 for mcu_x in 0..width {
                     for (i, _component) in components.iter().enumerate() {
                         let diff = differences[i][mcu_y * width + mcu_x];
@@ -162,9 +176,8 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            first_line,
+                            restarts_at(mcu_y * width + mcu_x),
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result;
@@ -199,13 +212,13 @@ fn predict(
     point_transform: u8,
     input_precision: u8,
     ix: usize,
-    iy: usize,
+    first_line: bool,
     restart: bool,
 ) -> i32 {
-    if (ix == 0 && iy == 0) || restart {
+    if (ix == 0 && first_line) || restart {
         // start of first line or restart
         1 << (input_precision - point_transform - 1)
-    } else if iy == 0 {
+    } else if first_line {
         // rest of first line
         ra
     } else if ix == 0 {
-- 
2.43.0


From 66868c57370d79403405d5a0ef9d09519e03754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 07/13] fix: scale() on a lossless image promised a size that
 decode() did not produce

---
 src/decoder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 2a89199..921b692 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,13 +278,18 @@ impl<R: Read> Decoder<R> {
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
-        let idct_size = crate::idct::choose_idct_size(
-            frame.image_size,
-            Dimensions {
-                width: requested_width,
-                height: requested_height,
-            },
-        );
+        let idct_size = if frame.coding_process == CodingProcess::Lossless {
+            // There is no DCT to scale by.
+            8
+        } else {
+            crate::idct::choose_idct_size(
+                frame.image_size,
+                Dimensions {
+                    width: requested_width,
+                    height: requested_height,
+                },
+            )
+        };
         frame.update_idct_size(idct_size)?;
         Ok((frame.output_size.width, frame.output_size.height))
     }
-- 
2.43.0


From 82f238e3f052750857d54c1040980da6767a04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 08/13] fix: block counts of non-interleaved scans of
 subsampled components

---
 src/decoder.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 921b692..a93df75 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -907,22 +907,32 @@ impl<R: Read> Decoder<R> {
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
+            // Section A.2.2
+            // Blocks that only pad the component to whole MCUs of an interleaved scan are absent.
+            let component = &components[0];
+            let factors = frame.components.iter();
+            let h_max = factors.clone().map(|c| c.horizontal_sampling_factor).max();
+            let v_max = factors.map(|c| c.vertical_sampling_factor).max();
+            let blocks = |size: u16, factor: u8, max_factor: Option<u8>| {
+                let block = 8 * usize::from(max_factor.unwrap());
+                ((usize::from(size) * usize::from(factor) + block - 1) / block) as u16
+            };
             (
-                components[0].block_size.width,
-                components[0].block_size.height,
+                blocks(
+                    frame.image_size.width,
+                    component.horizontal_sampling_factor,
+                    h_max,
+                ),
+                blocks(
+                    frame.image_size.height,
+                    component.vertical_sampling_factor,
+                    v_max,
+                ),
             )
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1028,7 +1038,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
-- 
2.43.0


From ab98b9253fdce878b1c132b70b8fb9003185a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 09/13] fix: ICC profiles split into 255 segments were dropped

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index a93df75..3c9ba25 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 132db08c6f3c50ab6dda93ff25c2796d22e17b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 10/13] fix: the decoding buffer limit counted 16-bit samples
 as one byte

---
 src/decoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 3c9ba25..184a07b 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -639,6 +639,7 @@ impl<R: Read> Decoder<R> {
             .len()
             .checked_mul(frame.output_size.width.into())
             .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            .and_then(|m| m.checked_mul(if frame.precision > 8 { 2 } else { 1 }))
             .map_or(true, |m| self.decoding_buffer_size_limit < m)
         {
             return Err(Error::Format(
-- 
2.43.0


From 3417a4357608bc70f3356beec2dc76faef25e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 11/13] fix: reader errors after a trailing restart marker were
 swallowed

---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 184a07b..6acd5fe 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1079,7 +1079,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 90c7a21..2b20e92 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -196,7 +196,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From db7dbb97244c869c3449de81b3db5c68a8b6b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 12/13] fix: progressive scans with a point transform of 8 to
 13 were refused

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b17e7e9..bdb2e62 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -405,7 +405,7 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
     let predictor_selection;
     let point_transform = successive_approximation_low;
 
-    if point_transform >= frame.precision {
+    if frame.coding_process == CodingProcess::Lossless && point_transform >= frame.precision {
         return Err(Error::Format(
             "invalid point transform, must be less than the frame precision".to_owned(),
         ));
-- 
2.43.0


From 3e6132a98de169ea44e7106447f5f577bffb96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 13/13] fix: DC refinement scans, which use no Huffman table,
 required one

---
 src/decoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6acd5fe..6657735 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -831,6 +831,7 @@ impl<R: Read> Decoder<R> {
 
         // Verify that all required huffman tables has been set.
         if scan.spectral_selection.start == 0
+            && scan.successive_approximation_high == 0
             && scan
                 .dc_table_indices
                 .iter()
-- 
2.43.0

