From aea9e7fe0886635753fceec61265b00a816afc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:20 +0000
Subject: [PATCH 01/17] fix: encode image data containing color index 255

The number of color table entries needed was calculated as the largest
index plus one, using 8-bit arithmetic.  An index of 255 overflowed.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..5ac087a 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From 9afa2dd73987d6324987ff2774dc8b06f39da0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:38 +0000
Subject: [PATCH 02/17] fix: reject LZW data starting with a code not in the
 table

After a clear code, the first code was output without checking that it
is a color index.  Using it as a prefix for the next code caused an out
of bounds panic, or a node which is its own parent.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..4571ef9 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -386,6 +386,10 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
+            // First code must not be beyond the initial table
+            None if code > self.end_code() => {
+                return Err(Error::InvalidLzwData);
+            }
             None => buffer.push(code as u8),
         }
         if next_code + 1 == self.code_bits.entries() {
-- 
2.43.0


From c049927755b11869cae151016939d95b48a851fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:39 +0000
Subject: [PATCH 03/17] fix: stop adding codes to a full LZW decompressor table

Encoders may defer the clear code, leaving the table full.  It kept
growing past 4096 entries until the next code overflowed.
---
 gift/src/lzw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 4571ef9..42be690 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -383,7 +383,10 @@ impl Decompressor {
                 } else {
                     self.lookup(prefix)
                 };
-                self.push_node(Some(prefix), data);
+                // Codes cannot be added once the table is full
+                if next_code < Bits::MAX.entries() {
+                    self.push_node(Some(prefix), data);
+                }
                 self.decompress_buffer(code, buffer);
             }
             // First code must not be beyond the initial table
-- 
2.43.0


From edbd890bb40790d40e27ac2b2b562ba515240f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:41 +0000
Subject: [PATCH 04/17] fix: stop LZW decompression at the end code

Padding bits after the end code were decompressed as more codes, adding
pixels which are not part of the image.
---
 gift/src/lzw.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 42be690..1bc907b 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// End code found
+    ended: bool,
 }
 
 impl CNode {
@@ -264,6 +266,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            ended: false,
         };
         dec.reset_table();
         dec
@@ -336,9 +339,15 @@ impl Decompressor {
         bytes: &[u8],
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
+        if self.ended {
+            return Ok(());
+        }
         let mut bytes = bytes;
         while let (Some(code), n_consumed) = self.unpack(bytes) {
             self.decompress_code(code, buffer)?;
+            if self.ended {
+                break;
+            }
             bytes = &bytes[n_consumed..];
         }
         Ok(())
@@ -356,8 +365,8 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
             self.prefix = None;
+            self.ended = true;
         } else {
             self.decompress_data(code, buffer)?;
             self.prefix = Some(code);
-- 
2.43.0


From fb0235e8edcc0e933f37e4f846b604914fdbf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:42 +0000
Subject: [PATCH 05/17] fix: write all bits of the last LZW code

When the end code did not fill up a byte, pending bits from the last
data code were never written, so the image data was incomplete.
---
 gift/src/lzw.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 1bc907b..9743d56 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -224,7 +224,13 @@ impl Compressor {
         if let Some(code) = code {
             self.pack(code, buffer);
         }
+        let pending = self.n_bits > 0;
+        let len = buffer.len();
         self.pack(self.end_code(), buffer);
+        // Do not lose bits from the last data code
+        if pending && buffer.len() == len {
+            buffer.push(self.code as u8);
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From 3dd825143b4e5b4614fec4124b48f7986e3401e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:13 +0000
Subject: [PATCH 06/17] fix: end frame iteration after a block sequence error

Errors reading a block are followed by None, but an invalid sequence of
blocks was not.
---
 gift/src/decode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..0422809 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -447,7 +447,10 @@ impl<R: Read> Iterator for Frames<R> {
                     match self.handle_block(b) {
                         Ok(Some(f)) => return Some(Ok(f)), // transpose
                         Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            self.blocks.done = true;
+                            return Some(Err(e));
+                        }
                     }
                 }
                 Err(e) => return Some(Err(e)),
@@ -477,7 +480,10 @@ impl<R: Read> Frames<R> {
         }
         self.preamble = Some(Preamble::default());
         while let Some(block) = self.blocks.next() {
-            self.handle_block(block?)?;
+            if let Err(e) = self.handle_block(block?) {
+                self.blocks.done = true;
+                return Err(e);
+            }
             if self.has_frame() {
                 return Ok(self.preamble.take());
             }
-- 
2.43.0


From c41e90c0951a5e3b000d17b27f7d92f0de589c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:15 +0000
Subject: [PATCH 07/17] fix: end step iteration after the first error

When there was an error before the first frame, the step iterator never
returned None.  Looping over the steps of such a file never finished.
---
 gift/src/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 0422809..ee23baf 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -574,6 +574,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when done
+    done: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -636,15 +638,21 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         if self.raster.is_none()
             && let Err(e) = self.make_raster()
         {
+            self.done = true;
             return Some(Err(e));
         }
-        match self.raster {
+        let step = match self.raster {
             Some(_) => self.next_step(),
             None => None,
-        }
+        };
+        self.done = matches!(step, Some(Err(_)));
+        step
     }
 }
 
@@ -656,6 +664,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From aa42668ed397e60542b95b31398027e8a43960ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:16 +0000
Subject: [PATCH 08/17] fix: return looping steps before a decoding error

The error was returned first, followed by the steps decoded before it.
Now it comes after those steps, and ends the iteration.
---
 gift/src/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index ee23baf..a85bd6b 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -773,12 +773,12 @@ impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(err) = self.err.take() {
-            return Some(Err(err));
-        }
         if let Some(step) = self.steps.get(self.step_n) {
             self.step_n += 1;
             Some(Ok(step.clone()))
+        } else if let Some(err) = self.err.take() {
+            self.loop_count = None;
+            Some(Err(err))
         } else if let Some(loop_count) = self.loop_count {
             match loop_count.cmp(&1) {
                 Ordering::Greater => self.loop_count = Some(loop_count - 1),
-- 
2.43.0


From 1d638dd2dd4a61ab87421513f211e5827d3a1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:18 +0000
Subject: [PATCH 09/17] fix: return an error for an empty screen or frame

Zero width or height caused a panic when splitting the raster or image
data into rows.
---
 gift/src/decode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index a85bd6b..4512d9e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -676,6 +676,9 @@ impl<R: Read> StepsOnce<R> {
                 self.loop_count_ext = p.loop_count_ext.take();
                 let w = p.screen_width().into();
                 let h = p.screen_height().into();
+                if w == 0 || h == 0 {
+                    return Err(Error::InvalidRasterDimensions);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
@@ -728,6 +731,9 @@ fn update_raster(
     global_tbl: &Option<GlobalColorTable>,
 ) -> Result<()> {
     let reg = frame.region();
+    if reg.width() == 0 || reg.height() == 0 {
+        return Err(Error::InvalidFrameDimensions);
+    }
     if raster.intersection(reg) == reg {
         let clrs = if let Some(tbl) = &frame.local_color_table {
             tbl.colors()
-- 
2.43.0


From 733c2649c37d96732cb48d0a6f8fa55f0eccb8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 10/17] fix: limit screen size to the maximum image size

Only frames were checked.  A file with a small frame on a huge screen
could allocate 16 GB or panic with an arithmetic overflow.
---
 gift/src/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 4512d9e..33f341e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -679,6 +679,11 @@ impl<R: Read> StepsOnce<R> {
                 if w == 0 || h == 0 {
                     return Err(Error::InvalidRasterDimensions);
                 }
+                let max = self.frames.blocks.max_image_sz;
+                let max = max.unwrap_or(usize::MAX).min(i32::MAX as usize);
+                if w as usize * h as usize > max {
+                    return Err(Error::TooLargeImage);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
-- 
2.43.0


From fdc02c92539bcb40e449e172b7f0a81af454bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 11/17] fix: use little-endian byte order for loop count

All GIF integers are stored with the least significant byte first.  A
loop count of 4 was written in a way that other software reads as 1024.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From f857d0ac511032ec6b92c4b3e161e9e7a5e10254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:40 +0000
Subject: [PATCH 12/17] fix: keep raster pixels under transparent frame pixels

A frame pixel with the transparent color index must not modify the
raster, but it was erasing what earlier frames had drawn there.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 33f341e..8a50482 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -770,11 +770,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // Transparent pixels leave the raster unchanged
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From bf37167f96100259df5f276c4d0bbb1752f9ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:42 +0000
Subject: [PATCH 13/17] fix: set delay time of decoded steps

The delay time was lost, so animations could not be played back with the
right timing.
---
 gift/src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 8a50482..206ec2d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -710,6 +710,7 @@ impl<R: Read> StepsOnce<R> {
             .graphic_control_ext
             .unwrap_or_default()
             .transparent_color();
+        let delay_time_cs = frame.graphic_control_ext.map(|c| c.delay_time_cs());
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = Raster::with_raster(raster);
@@ -725,7 +726,8 @@ impl<R: Read> StepsOnce<R> {
             rs.copy_color(frame.region(), SRgba8::default());
         }
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(transparent_color)
+            .with_delay_time_cs(delay_time_cs))
     }
 }
 
-- 
2.43.0


From 8604fa9ad57e5d89a99da8c9baa7098fe1b22ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:44 +0000
Subject: [PATCH 14/17] fix: limit color tables to 256 entries

A larger palette was written in full, but the descriptor can only declare
256 entries, so the remaining colors were read as blocks.
---
 gift/src/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5ac087a..851bff2 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -441,10 +441,10 @@ fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        palette.len().min(256) as u16,
     );
     let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    for clr in palette.colors().iter().take(256) {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From 5c221c8a1c07d74ff567db9ee6222c4e1e8bbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:45 +0000
Subject: [PATCH 15/17] fix: ignore image data after image is complete

All extra LZW data was decompressed before being discarded, so memory
use was not limited by the maximum image size.
---
 gift/src/decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 206ec2d..55cb82a 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,12 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => {
+                // Ignore sub-blocks after image is complete
+                if b.data().len() <= self.image_sz {
+                    b.parse_sub_block(bytes, &mut self.decompressor)?;
+                }
+            }
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
-- 
2.43.0


From e916dcf3a7f5bdd5c8d7560a65abd8d50cea9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:47 +0000
Subject: [PATCH 16/17] fix: apply graphic control to plain text block only

A graphic control block before a plain text block was used for the next
frame instead, or caused an error if that frame had its own.
---
 gift/src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 55cb82a..5d6407c 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -538,6 +538,9 @@ impl<R: Read> Frames<R> {
                 }
                 self.graphic_control_ext = Some(b);
             }
+            Block::PlainText(_) => {
+                self.graphic_control_ext = None;
+            }
             Block::ImageDesc(b) => {
                 if self.image_desc.is_some() {
                     return Err(Error::InvalidBlockSequence);
-- 
2.43.0


From bb5aef1d933d806b4d575b549969fccd5e936cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:39 +0000
Subject: [PATCH 17/17] fix: use global color table set for step encoder

The table given to with_global_color_table was ignored.  Now it is written
in the preamble, and steps with a different palette use a local table.
---
 gift/src/encode.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 851bff2..62c44ec 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -382,6 +382,16 @@ impl<W: Write> StepEnc<W> {
             loop_count_ext,
             ..Preamble::default()
         };
+        if self.preamble.is_none() {
+            let mut pre = preamble.clone();
+            if let (tbl_cfg, Some(tbl)) = &self.global_color_table {
+                pre.logical_screen_desc =
+                    pre.logical_screen_desc.with_color_table_config(*tbl_cfg);
+                pre.global_color_table = Some(tbl.clone());
+            }
+            self.frame_enc.encode_preamble(&pre)?;
+            self.preamble = Some(pre);
+        }
         match &self.preamble {
             Some(pre) => {
                 if !pre
@@ -400,10 +410,7 @@ impl<W: Write> StepEnc<W> {
                     return self.frame_enc.encode_frame(&frame);
                 }
             }
-            None => {
-                self.frame_enc.encode_preamble(&preamble)?;
-                self.preamble = Some(preamble);
-            }
+            None => (),
         }
         let frame = Frame::new(control, image_desc, None, image_data);
         self.frame_enc.encode_frame(&frame)
-- 
2.43.0

