From 4361529c5346c040490f4a8a44aa7886cb693f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:09 +0000
Subject: [PATCH 01/56] Add a verification-only hook (cfg jxl_verif) to cap the
 SIMD level

---
 jxl_simd/src/lib.rs           | 19 +++++++++++++++++++
 jxl_simd/src/x86_64/avx.rs    |  4 ++++
 jxl_simd/src/x86_64/avx512.rs |  4 ++++
 jxl_simd/src/x86_64/sse42.rs  |  4 ++++
 4 files changed, 31 insertions(+)

diff --git a/jxl_simd/src/lib.rs b/jxl_simd/src/lib.rs
index 189201a..7daf14e 100644
--- a/jxl_simd/src/lib.rs
+++ b/jxl_simd/src/lib.rs
@@ -4,6 +4,8 @@
 // license that can be found in the LICENSE file.
 
 #![allow(clippy::too_many_arguments)]
+// `jxl_verif` is a verification-only cfg flag, never set in normal builds.
+#![allow(unexpected_cfgs)]
 
 use std::fmt::Debug;
 use std::ops::{
@@ -23,6 +25,23 @@ mod wasm32;
 pub mod float16;
 pub mod scalar;
 
+/// Verification-only hook: caps the x86_64 instruction set picked at run time.
+#[cfg(jxl_verif)]
+pub mod verif {
+    use std::sync::atomic::{AtomicU8, Ordering};
+
+    /// 0: scalar, 1: SSE4.2, 2: AVX2, 3: AVX-512.
+    static MAX_LEVEL: AtomicU8 = AtomicU8::new(u8::MAX);
+
+    pub fn set_max_level(level: u8) {
+        MAX_LEVEL.store(level, Ordering::SeqCst);
+    }
+
+    pub fn level_allowed(level: u8) -> bool {
+        level <= MAX_LEVEL.load(Ordering::Relaxed)
+    }
+}
+
 #[cfg(all(target_arch = "aarch64", feature = "neon"))]
 pub use aarch64::neon::NeonDescriptor;
 pub use float16::f16;
diff --git a/jxl_simd/src/x86_64/avx.rs b/jxl_simd/src/x86_64/avx.rs
index 3679417..9141fb0 100644
--- a/jxl_simd/src/x86_64/avx.rs
+++ b/jxl_simd/src/x86_64/avx.rs
@@ -139,6 +139,10 @@ impl SimdDescriptor for AvxDescriptor {
     }
 
     fn new() -> Option<Self> {
+        #[cfg(jxl_verif)]
+        if !crate::verif::level_allowed(2) {
+            return None;
+        }
         if is_x86_feature_detected!("avx2")
             && is_x86_feature_detected!("fma")
             && is_x86_feature_detected!("f16c")
diff --git a/jxl_simd/src/x86_64/avx512.rs b/jxl_simd/src/x86_64/avx512.rs
index b659f02..63cf9b0 100644
--- a/jxl_simd/src/x86_64/avx512.rs
+++ b/jxl_simd/src/x86_64/avx512.rs
@@ -60,6 +60,10 @@ impl SimdDescriptor for Avx512Descriptor {
     }
 
     fn new() -> Option<Self> {
+        #[cfg(jxl_verif)]
+        if !crate::verif::level_allowed(3) {
+            return None;
+        }
         if is_x86_feature_detected!("avx512f") && is_x86_feature_detected!("avx512bw") {
             // SAFETY: we just checked avx512f and avx512bw.
             Some(Self(()))
diff --git a/jxl_simd/src/x86_64/sse42.rs b/jxl_simd/src/x86_64/sse42.rs
index b0cbd2c..f677183 100644
--- a/jxl_simd/src/x86_64/sse42.rs
+++ b/jxl_simd/src/x86_64/sse42.rs
@@ -45,6 +45,10 @@ impl SimdDescriptor for Sse42Descriptor {
     }
 
     fn new() -> Option<Self> {
+        #[cfg(jxl_verif)]
+        if !crate::verif::level_allowed(1) {
+            return None;
+        }
         if is_x86_feature_detected!("sse4.2") {
             // SAFETY: we just checked sse4.2.
             Some(unsafe { Self::new_unchecked() })
-- 
2.43.0


From f9b50b01e4957c766a0ac5d71cd5fbfe2dc6cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:30 +0000
Subject: [PATCH 02/56] fix: count of entropy code clusters overflowed for a
 full context map of 256 clusters

---
 jxl/src/entropy_coding/decode.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 9318f4e..5f41215 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -519,18 +519,14 @@ impl Histograms {
         } else {
             br.read(2)? as usize + 5
         };
-        let num_histograms = *context_map.iter().max().unwrap() + 1;
+        let num_histograms = *context_map.iter().max().unwrap() as usize + 1;
         let uint_configs = ((0..num_histograms).map(|_| HybridUint::decode(log_alpha_size, br)))
             .collect::<Result<_>>()?;
 
         let codes = if use_prefix_code {
-            Codes::Huffman(HuffmanCodes::decode(num_histograms as usize, br)?)
+            Codes::Huffman(HuffmanCodes::decode(num_histograms, br)?)
         } else {
-            Codes::Ans(AnsCodes::decode(
-                num_histograms as usize,
-                log_alpha_size,
-                br,
-            )?)
+            Codes::Ans(AnsCodes::decode(num_histograms, log_alpha_size, br)?)
         };
 
         Ok(Histograms {
-- 
2.43.0


From 9e49e11de7bd2db1dfcc00e75919856c8c8bdb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 03/56] fix: skipping input past its end (or by short reads)
 reported bytes that were not there

---
 jxl/src/api/input.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..d0f2ba2 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,9 +26,12 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
-            bytes -= num;
-            skipped += num;
+            let read = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            if read == 0 {
+                break;
+            }
+            bytes -= read;
+            skipped += read;
         }
         Ok(skipped)
     }
@@ -63,6 +66,8 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
     }
 
     fn skip(&mut self, bytes: usize) -> Result<usize, Error> {
+        // Seeking past the end is not an error, so limit the amount to what is there.
+        let bytes = bytes.min(self.available_bytes()?);
         let cur = self.stream_position()?;
         self.seek(SeekFrom::Current(bytes as i64))
             .map(|x| x.saturating_sub(cur) as usize)
-- 
2.43.0


From 229171a4d34d9e456a0da896fa1e0fed10bd3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 04/56] fix: bytes read just before running out of input were
 not counted towards a header

---
 jxl/src/api/inner/process.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 7ac7fbb..481386e 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -12,7 +12,7 @@ use crate::api::{
     ProcessingResult,
 };
 use crate::bit_reader::BitReader;
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 /// A small buffer, that guarantees to never use more than twice the maximum
 /// amount of bytes that were simultaneously present in it.
@@ -43,7 +43,11 @@ impl SmallBuffer {
             if self.range.len() >= self.buf.len() / 2 {
                 break;
             }
-            let num = get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])])?;
+            let num = match get_input(&mut [IoSliceMut::new(&mut self.buf[self.range.end..])]) {
+                // The bytes that were already read must be reported to the caller.
+                Err(Error::OutOfBounds(_)) if total > 0 => break,
+                r => r?,
+            };
             total += num;
             self.range.end += num;
             if num == 0 {
-- 
2.43.0


From 97f121de60105235fbc312475ac4acdb9c3dd14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 05/56] fix: skipping a frame stopped at the first jxlp box
 boundary

---
 .../api/inner/codestream_parser/frame_info.rs | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 484ccae..ed89839 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -333,16 +333,18 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         let total_size = self.section_size;
-        let need_skip = total_size - self.ready_section_data;
-        let skipped = input.skip(need_skip)?;
-        buf.mark_consumed(skipped as u64);
-        self.ready_section_data += skipped;
-        if self.ready_section_data < total_size {
-            Err(Error::OutOfBounds(total_size - self.ready_section_data))
-        } else {
-            self.sections.clear();
-            Ok(())
+        // A single skip does not go past the end of a box, so more than one might be needed.
+        while self.ready_section_data < total_size {
+            let need_skip = total_size - self.ready_section_data;
+            let skipped = input.skip(need_skip)?;
+            if skipped == 0 {
+                return Err(Error::OutOfBounds(need_skip));
+            }
+            buf.mark_consumed(skipped as u64);
+            self.ready_section_data += skipped;
         }
+        self.sections.clear();
+        Ok(())
     }
 
     pub fn fill_sections(
-- 
2.43.0


From 3fbf09e96398f06e2f50ee8c2ef8bf66f52eaa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 06/56] fix: panic when only extra channels of a VarDCT image
 are requested

---
 jxl/src/render/internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/internal.rs b/jxl/src/render/internal.rs
index 57f0885..a61272b 100644
--- a/jxl/src/render/internal.rs
+++ b/jxl/src/render/internal.rs
@@ -147,7 +147,8 @@ impl<Buffer> RenderPipelineShared<Buffer> {
         requested_data_type: DataTypeTag,
     ) -> (usize, usize) {
         let ChannelInfo { downsample, ty } = self.channel_info[0][channel];
-        if ty.unwrap() != requested_data_type {
+        // Channels that no stage uses (i.e. that are not part of the output) have no type.
+        if ty.is_some_and(|ty| ty != requested_data_type) {
             panic!(
                 "Invalid pipeline usage: incorrect channel type, requested {:?}, but pipeline wants {ty:?}",
                 requested_data_type
-- 
2.43.0


From 8d08208374fbe0d1642fe1a25a5a537ee8bcc59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 07/56] fix: seeking to a frame in a jxlp box read past the end
 of the box

---
 jxl/src/api/inner/box_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..bc66ea7 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -105,6 +105,7 @@ impl BoxParser {
             }
             let overflow = codestream_pos - start;
             b.file_position += overflow;
+            b.codestream_left = b.codestream_left.map(|x| x.saturating_sub(overflow));
             b.consumed_codestream = codestream_pos;
             Ok(Some(b))
         }
-- 
2.43.0


From d434e50e2d8e1fc78697d83d86cd0ab3a35706f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 08/56] fix: the data of out-of-order jxlp boxes was lost or
 padded when it was already buffered

---
 jxl/src/api/inner/box_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index bc66ea7..2d66353 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -301,7 +301,8 @@ impl BoxParser {
                     let mut buf = self.ooo_jxlp_buffer.remove(&id).unwrap();
                     let mut total = 0;
                     loop {
-                        let space = buf.data.len().max(1024).min(input.available_bytes()?) as u64;
+                        let available = self.available_bytes_inner(input)?;
+                        let space = buf.data.len().max(1024).min(available) as u64;
                         let space = count.map(|x| (x - total).min(space)).unwrap_or(space) as usize;
                         if space == 0 {
                             break;
@@ -332,6 +333,7 @@ impl BoxParser {
     fn parse_box(&mut self, input: &mut dyn JxlBitstreamInput, required_size: usize) -> Result<()> {
         self.read_until_at_least(input, required_size)?;
 
+                        buf.data.truncate(cur + n);
         let min_len = match &self.local_buffer[..] {
             [0, 0, 0, 1, ..] => 16,
             _ => 8,
-- 
2.43.0


From 9dcf4831c81c28ef11f61f9d462297e938e30db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 09/56] fix: file length and box positions were wrong after
 reordered or partly consumed jxlp boxes

---
 jxl/src/api/inner/box_parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 2d66353..f7a1797 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -112,7 +112,13 @@ impl BoxParser {
     }
 
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
-        let (start, b) = self.codestream_pos_to_box.last_key_value().unwrap();
+        // The boxes read so far might extend past the end of what was consumed: use the
+        // one that contains the last consumed byte.
+        let (start, b) = self
+            .codestream_pos_to_box
+            .range(..codestream_bytes_consumed)
+            .last()
+            .unwrap();
         b.file_position + (codestream_bytes_consumed - *start)
     }
 
@@ -190,6 +196,7 @@ impl BoxParser {
                 ParseState::Complete
             } else {
                 if let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
+        *c = Some(new_size);
                     && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
                 {
                     self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
@@ -197,8 +204,6 @@ impl BoxParser {
                 }
                 ParseState::BoxNeeded(8)
             }
-        } else {
-            *c = Some(new_size);
         }
     }
 
-- 
2.43.0


From 769b7a8e43ca42c334e69707c99c8f4f7a8a772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 10/56] fix: files with empty jxlp boxes could not be decoded
 completely

---
 jxl/src/api/inner/box_parser.rs | 49 +++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index f7a1797..57d0b02 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -164,19 +164,27 @@ impl BoxParser {
     }
 
     fn check_ooo_jxlp_done(&mut self) {
-        let CodestreamBoxType::Jxlp(j, is_last) = self.latest_codestream_box else {
-            unreachable!()
-        };
-        let Some(b) = self.ooo_jxlp_buffer.get_mut(&j) else {
-            unreachable!()
-        };
-        if b.consumed == b.data.len() {
+        // This is a loop because the boxes that follow might be empty, in which case
+        // they are already done.
+        loop {
+            let CodestreamBoxType::Jxlp(j, is_last) = self.latest_codestream_box else {
+                unreachable!()
+            };
+            let Some(b) = self.ooo_jxlp_buffer.get_mut(&j) else {
+                unreachable!()
+            };
+            if b.consumed != b.data.len() {
+                return;
+            }
             self.ooo_jxlp_buffer.remove(&j);
             if is_last {
                 self.state = ParseState::Complete;
-            } else if let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) {
-                self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+                return;
             }
+            let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) else {
+                return;
+            };
+            self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
         }
     }
 
@@ -188,6 +196,7 @@ impl BoxParser {
             return;
         }
         let new_size = c.unwrap() - n as u64;
+        *c = Some(new_size);
         if new_size == 0 {
             self.state = if matches!(
                 self.latest_codestream_box,
@@ -196,11 +205,14 @@ impl BoxParser {
                 ParseState::Complete
             } else {
                 if let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
-        *c = Some(new_size);
                     && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
                 {
                     self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
                     self.add_checkpoint();
+                    self.state = ParseState::BoxNeeded(8);
+                    // The buffered box might be empty, in which case it is already done.
+                    self.check_ooo_jxlp_done();
+                    return;
                 }
                 ParseState::BoxNeeded(8)
             }
@@ -264,8 +276,12 @@ impl BoxParser {
 
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
+            if self.injected_jxlp().is_some() {
+                return Ok(());
+            }
             match self.state {
-                ParseState::Codestream(Some(0)) => self.state = ParseState::BoxNeeded(8),
+                // An empty codestream box.
+                ParseState::Codestream(Some(0)) => self.mark_codestream_read(0),
                 ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
@@ -317,6 +333,7 @@ impl BoxParser {
                         buf.data.resize(cur + space, 0);
                         let n =
                             self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])?;
+                        buf.data.truncate(cur + n);
                         if n == 0 {
                             break;
                         }
@@ -338,7 +355,6 @@ impl BoxParser {
     fn parse_box(&mut self, input: &mut dyn JxlBitstreamInput, required_size: usize) -> Result<()> {
         self.read_until_at_least(input, required_size)?;
 
-                        buf.data.truncate(cur + n);
         let min_len = match &self.local_buffer[..] {
             [0, 0, 0, 1, ..] => 16,
             _ => 8,
@@ -469,11 +485,12 @@ impl<'a> CodestreamInput<'a> {
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
+
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
 
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -483,6 +500,8 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
+
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -491,7 +510,6 @@ impl<'a> CodestreamInput<'a> {
             return Ok(n);
         }
 
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -518,6 +536,8 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
+
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
@@ -525,7 +545,6 @@ impl<'a> CodestreamInput<'a> {
             return Ok(n);
         }
 
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
-- 
2.43.0


From 423e3264471ba418de6d044336438e338b6b88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 11/56] fix: overflow when a group is smaller than the border
 of the render pipeline

The size of a rectangle was computed even when it was known to be empty, and
the end of a group minus the border underflowed for images smaller than the
border when the corner of a group was completed by another thread than its
side.
---
 jxl/src/render/low_memory_pipeline/group_scheduler.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..cb11fc3 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -85,20 +85,20 @@ fn ready_image_area(
         (false, 0) => group_rect.origin.1 - border_size.1,
         (_, 1) => group_rect.origin.1 + border_size.1,
         // (_, 2)
-        _ => group_rect.end().1 - border_size.1,
+        _ => group_rect.end().1.saturating_sub(border_size.1),
     };
     let x0 = match (gx == 0, xrange.start) {
         (true, 0) => group_rect.origin.0,
         (false, 0) => group_rect.origin.0 - border_size.0,
         (_, 1) => group_rect.origin.0 + border_size.0,
         // (_, 2)
-        _ => group_rect.end().0 - border_size.0,
+        _ => group_rect.end().0.saturating_sub(border_size.0),
     };
 
     let y1 = match (gy + 1 == group_count.1, yrange.end) {
         (true, 3) => group_rect.end().1,
         (false, 3) => group_rect.end().1 + border_size.1,
-        (_, 2) => group_rect.end().1 - border_size.1,
+        (_, 2) => group_rect.end().1.saturating_sub(border_size.1),
         // (_, 1)
         _ => group_rect.origin.1 + border_size.1,
     }
@@ -107,13 +107,13 @@ fn ready_image_area(
     let x1 = match (gx + 1 == group_count.0, xrange.end) {
         (true, 3) => group_rect.end().0,
         (false, 3) => group_rect.end().0 + border_size.0,
-        (_, 2) => group_rect.end().0 - border_size.0,
+        (_, 2) => group_rect.end().0.saturating_sub(border_size.0),
         // (_, 1)
         _ => group_rect.origin.0 + border_size.0,
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then_some(Rect {
+    (x1 >= x0 && y1 >= y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From 679231345c7bca003c62cdc871b832704f7f6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 12/56] fix: panic when a modular tree without LZ77 looks like
 a run-length coded one

---
 jxl/src/entropy_coding/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 5f41215..593dde7 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -568,6 +568,9 @@ impl Histograms {
     }
 
     pub fn is_rle(&self) -> bool {
+        if !self.lz77_params.enabled {
+            return false;
+        }
         let lz_dist_cluster = self.lz_dist_cluster as usize;
         let lz_conf = &self.uint_configs[lz_dist_cluster];
         self.codes.single_symbol(lz_dist_cluster) == Some(1) && lz_conf.is_split_exponent_zero()
-- 
2.43.0


From f0f3764aece9c6924464c420f9cac0849543dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 13/56] fix: full-resolution modular channels were read again
 in passes after the one that completes them

---
 jxl/src/headers/frame_header.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 9a7a239..06c1345 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -75,7 +75,7 @@ pub struct Passes {
 
 impl Passes {
     pub fn downsampling_bracket(&self, pass: usize) -> (usize, usize) {
-        let mut max_shift = 2;
+        let mut max_shift = Some(2);
         let mut min_shift = 3;
         for i in 0..pass + 1 {
             for j in 0..self.num_ds as usize {
@@ -87,10 +87,14 @@ impl Passes {
                 min_shift = 0;
             }
             if i != pass {
-                max_shift = min_shift.saturating_sub(1);
+                max_shift = min_shift.checked_sub(1);
             }
         }
-        (min_shift as usize, max_shift as usize)
+        match max_shift {
+            Some(max_shift) => (min_shift as usize, max_shift as usize),
+            // Everything is in the previous passes: this range is empty.
+            None => (1, 0),
+        }
     }
 }
 
-- 
2.43.0


From 1a15f878410db1e181c4d65954cd6c2916bc1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 14/56] fix: panic for an RCT of empty channels

---
 jxl/src/frame/modular/transforms/rct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jxl/src/frame/modular/transforms/rct.rs b/jxl/src/frame/modular/transforms/rct.rs
index e77ea0d..10285c2 100644
--- a/jxl/src/frame/modular/transforms/rct.rs
+++ b/jxl/src/frame/modular/transforms/rct.rs
@@ -116,6 +116,11 @@ simd_function!(
 // Applies a RCT in-place to the given buffers.
 #[instrument(level = "debug", skip(buffers), ret)]
 pub fn do_rct_step(buffers: &mut [&mut ModularChannel], op: RctOp, perm: RctPermutation) {
+    // Tiles of zero size are skipped when borrowing buffers (see `with_buffers`). The three channels
+    // have the same size, so either all or none of them are missing.
+    if buffers.is_empty() {
+        return;
+    }
     let [r, g, b] = buffers else {
         unreachable!("incorrect buffer count for RCT");
     };
-- 
2.43.0


From b726f50956faf6014d3402dc2b28a4eb6ad44ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 15/56] fix: reference-only frames larger than the image could
 not be saved after the color transform

---
 jxl/src/frame/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..e585bbf 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -206,7 +206,8 @@ impl Frame {
         let reference_frame_data = if frame_header.can_be_referenced {
             let image_size = &decoder_state.file_header.size;
             let image_size = (image_size.xsize() as usize, image_size.ysize() as usize);
-            let sz = if frame_header.save_before_ct {
+            // Frames are only extended (or cropped) to the size of the image by blending.
+            let sz = if frame_header.save_before_ct || !frame_header.needs_blending() {
                 frame_header.size_upsampled()
             } else {
                 image_size
-- 
2.43.0


From f50342ac228b1ab206490a0e3f92e0be7c678ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 16/56] fix: panic for a palette with a predictor over a
 channel with empty tiles

---
 jxl/src/frame/modular/transforms/step.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c1b76a4..ff6e959 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -646,8 +646,12 @@ impl TransformStepChunk {
                     let grid_shape = buffers[buf_out[0]].grid_shape;
                     let grid_x = out_grid % grid_shape.0;
                     let grid_y = out_grid / grid_shape.0;
-                    let has_left = *predictor != Predictor::Zero && grid_x > 0;
-                    let has_top = *predictor != Predictor::Zero && grid_y > 0;
+                    // Empty tiles have no samples to predict, and their neighbours might have no
+                    // borders.
+                    let (tile_w, tile_h) = buffers[buf_out[0]].buffer_grid[out_grid].size;
+                    let is_empty = tile_w == 0 || tile_h == 0;
+                    let has_left = !is_empty && *predictor != Predictor::Zero && grid_x > 0;
+                    let has_top = !is_empty && *predictor != Predictor::Zero && grid_y > 0;
                     let borrow_border_guards = |grid_idx: usize, is_lr: bool| {
                         buf_out
                             .iter()
@@ -683,7 +687,9 @@ impl TransformStepChunk {
                     }
                     let mut out_buf_refs: Vec<&mut ModularChannel> =
                         guards.iter_mut().map(|g| g.as_mut().unwrap()).collect();
-                    if matches!(predictor, Predictor::Zero)
+                    if is_empty {
+                        // Nothing to do, just bookkeeping.
+                    } else if matches!(predictor, Predictor::Zero)
                         && buffers[*buf_in].buffer_grid[out_grid].data_status == DataStatus::Zero
                     {
                         super::palette::zero_palette_step_one_group(
@@ -759,8 +765,12 @@ impl TransformStepChunk {
                             }
                         }
                     }
-                    let prev_refs: Vec<&Image<i32>> =
-                        prev_guards.iter().map(|g| g.as_ref().unwrap()).collect();
+                    // Empty tiles have no borders.
+                    let empty_border = Image::new((0, 4))?;
+                    let prev_refs: Vec<&Image<i32>> = prev_guards
+                        .iter()
+                        .map(|g| g.as_ref().unwrap_or(&empty_border))
+                        .collect();
                     let prev_aux_refs: Vec<Option<&Image<i32>>> =
                         prev_aux_guards.iter().map(|g| g.as_ref()).collect();
                     let mut guards = vec![];
-- 
2.43.0


From fe87e82b601f6222ea93a481ff8eca6ac2d46843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 17/56] fix: panic for a squeezed channel whose last grid
 position is empty

---
 jxl/src/frame/modular/transforms/step.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index ff6e959..2d38523 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -172,9 +172,11 @@ impl SqueezeInfo {
         let next_avg_grid = if let Some(pos) = pos_next {
             let grid = buf_avg.get_grid_idx(output_grid_kind, pos);
             if grid == in_grid {
-                if vertical {
+                // The next grid position might be empty in this channel.
+                let tile_size = buf_avg.buffer_grid[in_grid].size;
+                if vertical && avg_rect.end().1 < tile_size.1 {
                     avg_rect.size.1 += 1;
-                } else {
+                } else if !vertical && avg_rect.end().0 < tile_size.0 {
                     avg_rect.size.0 += 1;
                 }
                 None
-- 
2.43.0


From 13cb35ae1de65c5479610aab5712e7c4d8b47936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 18/56] fix: panic for a palette over a row of groups with
 empty tiles

---
 jxl/src/frame/modular/transforms/palette.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index 702cc9d..d4c013e 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -416,6 +416,9 @@ pub fn do_palette_step_group_row(
             for grid_x in 0..grid_xsize {
                 let prev_img = prev[out_row_idx + grid_x];
                 let w = prev_img.size().0;
+                if w == 0 {
+                    continue;
+                }
                 scratch[0][x_offset..x_offset + w].copy_from_slice(prev_img.row(3));
                 scratch[1][x_offset..x_offset + w].copy_from_slice(prev_img.row(2));
                 x_offset += w;
@@ -439,6 +442,10 @@ pub fn do_palette_step_group_row(
 
             let mut gx = 0;
             for (grid_x, index_buf) in buf_in.iter().enumerate().take(grid_xsize) {
+                if index_buf.data.size().0 == 0 {
+                    // Empty tile.
+                    continue;
+                }
                 let index_img = index_buf.data.row(y);
                 let out_idx = out_row_idx + grid_x;
                 let out_row = buf_out[out_idx].data.row_mut(y);
-- 
2.43.0


From 2326f0ed89b79d0ca8368fb768265a6e10752d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 19/56] fix: squeezed channels too small to be split in groups
 caused panics or wrong samples

---
 jxl/src/error.rs                              |  2 ++
 jxl/src/frame/modular/mod.rs                  |  2 +-
 .../frame/modular/transforms/meta_apply.rs    | 25 +++++++++++++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..5d763b5 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -217,6 +217,8 @@ pub enum Error {
     MetaSqueezeRequiresInPlace,
     #[error("Invalid transform: too many squeezes (shift > 30)")]
     TooManySqueezes,
+    #[error("Invalid transform: squeezed channel is too small to be split in groups")]
+    SqueezedChannelTooSmall,
     #[error("Invalid BlockConextMap: too big: num_lf_context: {0}, num_qf_thresholds: {1}")]
     BlockContextMapSizeTooBig(usize, usize),
     #[error("Invalid BlockConextMap: too many distinct contexts.")]
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..1fba73e 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -430,7 +430,7 @@ impl FullModularImage {
             &section_buffer_indices,
             &mut buffer_info,
             modular_color_channels,
-        );
+        )?;
 
         #[cfg(feature = "tracing")]
         for (i, bi) in buffer_info.iter().enumerate() {
diff --git a/jxl/src/frame/modular/transforms/meta_apply.rs b/jxl/src/frame/modular/transforms/meta_apply.rs
index b027d1f..b5718f0 100644
--- a/jxl/src/frame/modular/transforms/meta_apply.rs
+++ b/jxl/src/frame/modular/transforms/meta_apply.rs
@@ -306,7 +306,7 @@ pub fn make_grids(
     section_buffer_indices: &[Vec<usize>],
     buffer_info: &mut Vec<ModularBufferInfo>,
     color_channels: usize,
-) -> Vec<TransformStepChunk> {
+) -> Result<Vec<TransformStepChunk>> {
     // Initialize grid sizes, starting from coded channels.
     for i in section_buffer_indices[1].iter() {
         buffer_info[*i].grid_kind = ModularGridKind::Lf;
@@ -351,12 +351,27 @@ pub fn make_grids(
                 let mut grid_kind = buffer_info[buf_in[0]]
                     .grid_kind
                     .max(buffer_info[buf_in[1]].grid_kind);
-                if grid_kind == ModularGridKind::None
-                    && !buffer_info[*buf_out]
+                // The groups of a given kind can be so small compared to the pixels of a squeezed
+                // channel that the channel cannot be split.
+                let can_split = |kind: ModularGridKind| {
+                    let shift = buffer_info[buf_in[0]].info.shift.unwrap_or((0, 0));
+                    let (w, h) = kind.grid_dim(frame_header, shift);
+                    w > 0 && h > 0
+                };
+                if grid_kind == ModularGridKind::None {
+                    if !buffer_info[*buf_out]
                         .info
                         .is_meta_or_small(frame_header.group_dim())
+                        && can_split(ModularGridKind::Hf)
+                    {
+                        grid_kind = ModularGridKind::Hf;
+                    }
+                } else if buf_in
+                    .iter()
+                    .any(|b| buffer_info[*b].grid_kind != grid_kind)
+                    && !can_split(grid_kind)
                 {
-                    grid_kind = ModularGridKind::Hf;
+                    return Err(Error::SqueezedChannelTooSmall);
                 }
                 buffer_info[*buf_out].grid_kind = grid_kind;
             }
@@ -723,5 +738,5 @@ pub fn make_grids(
 
     trace!(?grid_transform_steps, ?buffer_info);
 
-    grid_transform_steps
+    Ok(grid_transform_steps)
 }
-- 
2.43.0


From f1db4202a7f7c2fc897b74cfe9cb962026c82ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 20/56] fix: panic for an RCT of channels that are split in
 different grids

---
 .../frame/modular/transforms/meta_apply.rs    | 30 +++++++++++--------
 jxl/src/frame/modular/transforms/step.rs      | 22 +++++++++++++-
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/meta_apply.rs b/jxl/src/frame/modular/transforms/meta_apply.rs
index b5718f0..7a8ff6a 100644
--- a/jxl/src/frame/modular/transforms/meta_apply.rs
+++ b/jxl/src/frame/modular/transforms/meta_apply.rs
@@ -319,6 +319,13 @@ pub fn make_grids(
 
     trace!(?buffer_info, "post set grid kind for coded channels");
 
+    // The groups of a given kind can be so small compared to the pixels of a squeezed channel that
+    // the channel cannot be split.
+    let can_split = |info: &ChannelInfo, kind: ModularGridKind| {
+        let (w, h) = kind.grid_dim(frame_header, info.shift.unwrap_or((0, 0)));
+        w > 0 && h > 0
+    };
+
     // Transforms can be un-applied in the opposite order they appear with in the array,
     // so we can use that information to propagate grid kinds.
 
@@ -327,12 +334,16 @@ pub fn make_grids(
             TransformStep::Rct {
                 buf_in, buf_out, ..
             } => {
-                let grid_in = buffer_info[buf_in[0]].grid_kind;
-                for i in 0..3 {
-                    assert_eq!(grid_in, buffer_info[buf_in[i]].grid_kind);
+                // Squeezing only some of the channels can result in different grids.
+                let grid_kinds = buf_in.map(|b| buffer_info[b].grid_kind);
+                let grid_kind = grid_kinds.into_iter().max().unwrap();
+                if grid_kinds.iter().any(|k| *k != grid_kind)
+                    && !can_split(&buffer_info[buf_in[0]].info, grid_kind)
+                {
+                    return Err(Error::SqueezedChannelTooSmall);
                 }
                 for i in 0..3 {
-                    buffer_info[buf_out[i]].grid_kind = grid_in;
+                    buffer_info[buf_out[i]].grid_kind = grid_kind;
                 }
             }
             TransformStep::Palette {
@@ -351,25 +362,18 @@ pub fn make_grids(
                 let mut grid_kind = buffer_info[buf_in[0]]
                     .grid_kind
                     .max(buffer_info[buf_in[1]].grid_kind);
-                // The groups of a given kind can be so small compared to the pixels of a squeezed
-                // channel that the channel cannot be split.
-                let can_split = |kind: ModularGridKind| {
-                    let shift = buffer_info[buf_in[0]].info.shift.unwrap_or((0, 0));
-                    let (w, h) = kind.grid_dim(frame_header, shift);
-                    w > 0 && h > 0
-                };
                 if grid_kind == ModularGridKind::None {
                     if !buffer_info[*buf_out]
                         .info
                         .is_meta_or_small(frame_header.group_dim())
-                        && can_split(ModularGridKind::Hf)
+                        && can_split(&buffer_info[buf_in[0]].info, ModularGridKind::Hf)
                     {
                         grid_kind = ModularGridKind::Hf;
                     }
                 } else if buf_in
                     .iter()
                     .any(|b| buffer_info[*b].grid_kind != grid_kind)
-                    && !can_split(grid_kind)
+                    && !can_split(&buffer_info[buf_in[0]].info, grid_kind)
                 {
                     return Err(Error::SqueezedChannelTooSmall);
                 }
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index 2d38523..bcb78b0 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -599,8 +599,28 @@ impl TransformStepChunk {
                 perm,
             } => {
                 for i in 0..3 {
-                    assert_eq!(out_grid_kind, buffers[buf_in[i]].grid_kind);
                     assert_eq!(out_size, buffers[buf_in[i]].info.size);
+                    if buffers[buf_in[i]].grid_kind != out_grid_kind {
+                        // The input is split in a coarser grid: copy the relevant part of it.
+                        let in_grid = buffers[buf_in[i]].get_grid_idx(out_grid_kind, self.grid_pos);
+                        let b_in = &buffers[buf_in[i]].buffer_grid[in_grid];
+                        let b_out = &buffers[buf_out[i]].buffer_grid[out_grid];
+                        let mut out = b_out.make_buffer(&buffers[buf_out[i]].info)?;
+                        if let Some(input) = b_in.data.try_read().unwrap().as_ref() {
+                            let rect = buffers[buf_in[i]].get_grid_rect(
+                                frame_header,
+                                out_grid_kind,
+                                self.grid_pos,
+                            );
+                            let src = input.data.get_rect(rect);
+                            for y in 0..rect.size.1 {
+                                out.data.row_mut(y).copy_from_slice(src.row(y));
+                            }
+                        }
+                        *b_out.data.try_write().unwrap() = Some(out);
+                        b_in.mark_used(is_final);
+                        continue;
+                    }
                     // Optimistically move the buffers to the output if possible.
                     // If not, creates buffers in the output that are a copy of the input buffers.
                     // This should be rare.
-- 
2.43.0


From c357676379f69fabbd8985f3974dd25cb9c4ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 21/56] fix: panic for a weighted delta palette over a row of
 empty groups

---
 jxl/src/frame/modular/transforms/palette.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index d4c013e..e62a8a0 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -396,6 +396,11 @@ pub fn do_palette_step_group_row(
         .map(|buf| buf.data.size().0)
         .sum();
 
+    if total_w == 0 {
+        // All the tiles in this row are empty.
+        return Ok(());
+    }
+
     scratch[0].resize(total_w, 0);
     scratch[1].resize(total_w, 0);
 
-- 
2.43.0


From 6edb0024b43e9a5d2da97d96f7506b6401b7b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 22/56] fix: the wrong operand was clamped when blending frames
 by multiplication

---
 jxl/src/features/blending.rs      | 32 ++++++++++++++++++++++++++-----
 jxl/src/features/patches.rs       |  7 ++++++-
 jxl/src/render/stages/blending.rs |  2 +-
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index 5d432e9..81d31d8 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -154,7 +154,8 @@ simd_function!(
 simd_function!(
     mul,
     d: D,
-    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool) {
+    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool, order: BlendOrder) {
+        let fg_on_top = order == BlendOrder::Above;
         let lanes = D::F32Vec::LEN;
         let one = D::F32Vec::splat(d, 1.0);
         let zero = D::F32Vec::zero(d);
@@ -163,8 +164,9 @@ simd_function!(
         let maybe_clamp_vec = |v: D::F32Vec| if clamp { v.max(zero).min(one) } else { v };
         for k in 0..xsize.div_ceil(lanes) {
             let x = k * lanes;
-            let s = maybe_clamp_vec(load_vec(d, src, x));
-            store_vec(d, load_vec(d, dst, x) * s, dst, x);
+            let (bg, fg) = (load_vec(d, dst, x), load_vec(d, src, x));
+            let (top, bottom) = if fg_on_top { (fg, bg) } else { (bg, fg) };
+            store_vec(d, bottom * maybe_clamp_vec(top), dst, x);
         }
     }
 );
@@ -356,7 +358,10 @@ pub fn perform_blending(
                 }
             }
             PatchBlendMode::Mul => {
-                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp);
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Above);
+            }
+            PatchBlendMode::MulBelow => {
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Below);
             }
             PatchBlendMode::Replace => {
                 ec_out.copy_from_slice(&fg[3 + i][..xsize]);
@@ -458,7 +463,24 @@ pub fn perform_blending(
         }
         PatchBlendMode::Mul => {
             for c in 0..3 {
-                mul(bg_color[c], &fg[c][..xsize], xsize, clamp);
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Above,
+                );
+            }
+        }
+        PatchBlendMode::MulBelow => {
+            for c in 0..3 {
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Below,
+                );
             }
         }
         PatchBlendMode::Replace => {
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 411ffff..146f2f3 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -71,6 +71,9 @@ pub enum PatchBlendMode {
     // For other channels: sample = old + alpha * new
     AlphaWeightedAddAbove = 6,
     AlphaWeightedAddBelow = 7,
+    // As kMul, but the meaning of new and old is inverted. This only matters for clamping; it is
+    // used for blending frames, and cannot appear in a patch dictionary.
+    MulBelow = 8,
 }
 
 impl PatchBlendMode {
@@ -566,7 +569,9 @@ impl PatchesDictionary {
                         br,
                         PatchContext::PatchBlendMode as usize,
                     ) as u8;
-                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode) {
+                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode)
+                        .filter(|_| maybe_blend_mode < PatchBlendMode::NUM_BLEND_MODES)
+                    {
                         None => {
                             return Err(Error::PatchesInvalidBlendMode(
                                 maybe_blend_mode,
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..517a2a0 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -43,7 +43,7 @@ impl From<&BlendingInfo> for PatchBlending {
         let mode = match info.mode {
             BlendingMode::Replace => PatchBlendMode::None,
             BlendingMode::Add => PatchBlendMode::Add,
-            BlendingMode::Mul => PatchBlendMode::Mul,
+            BlendingMode::Mul => PatchBlendMode::MulBelow,
             BlendingMode::Blend => PatchBlendMode::BlendBelow,
             BlendingMode::AlphaWeightedAdd => PatchBlendMode::AlphaWeightedAddBelow,
         };
-- 
2.43.0


From d1c3c6cbb5d800d104dbee5d8fc1dd2fd18e6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 23/56] fix: panic for a local RCT of channels without samples

---
 jxl/src/frame/modular/transforms/apply_local.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/apply_local.rs b/jxl/src/frame/modular/transforms/apply_local.rs
index 563d5f8..64dbdc7 100644
--- a/jxl/src/frame/modular/transforms/apply_local.rs
+++ b/jxl/src/frame/modular/transforms/apply_local.rs
@@ -238,10 +238,18 @@ impl TransformStep {
                 op,
                 perm,
             } => {
+                // Images without samples have no size.
+                let normalized_info = |buf: &LocalTransformBuffer| {
+                    let mut info = buf.channel_info();
+                    if info.size.0 == 0 || info.size.1 == 0 {
+                        info.size = (0, 0);
+                    }
+                    info
+                };
                 for i in 0..3 {
                     assert_eq!(
-                        buffers[buf_in[i]].channel_info(),
-                        buffers[buf_out[i]].channel_info()
+                        normalized_info(&buffers[buf_in[i]]),
+                        normalized_info(&buffers[buf_out[i]])
                     );
                 }
                 let [mut a, mut b, mut c] = [
-- 
2.43.0


From f6e5329ed4a0940a0d751f916ca4807b30e4bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 24/56] fix: panic when blending on top of a reference frame
 that is smaller than the image

---
 jxl/src/error.rs        |  2 ++
 jxl/src/frame/render.rs | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index 5d763b5..8f86157 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -114,6 +114,8 @@ pub enum Error {
     PassesLastPassTooLarge,
     #[error("Non-patch reference frame with a crop")]
     NonPatchReferenceWithCrop,
+    #[error("Blending background of size {0}x{1} is smaller than the image ({2}x{3})")]
+    BlendingBackgroundTooSmall(usize, usize, usize, usize),
     #[error("Non-444 chroma subsampling is not allowed for bigger than 8x8 transforms")]
     InvalidBlockSizeForChromaSubsampling,
     #[error("Out of memory: {0}")]
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..a69db38 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -763,6 +763,23 @@ impl Frame {
         }
 
         if frame_header.needs_blending() {
+            let image_size = &decoder_state.file_header.size;
+            let image_size = (image_size.xsize() as usize, image_size.ysize() as usize);
+            for info in std::iter::once(&frame_header.blending_info)
+                .chain(frame_header.ec_blending_info.iter())
+            {
+                if let Some(bg) = &decoder_state.reference_frames[info.source as usize] {
+                    let bg_size = bg.frame[0].size();
+                    if bg_size.0 < image_size.0 || bg_size.1 < image_size.1 {
+                        return Err(Error::BlendingBackgroundTooSmall(
+                            bg_size.0,
+                            bg_size.1,
+                            image_size.0,
+                            image_size.1,
+                        ));
+                    }
+                }
+            }
             pipeline = pipeline.add_inplace_stage(BlendingStage::new(
                 frame_header,
                 &decoder_state.file_header,
-- 
2.43.0


From f53af80879b4d408406171ae7211ccf63a7dc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 25/56] fix: channels without samples that are not split in
 groups were not counted in channel numbering

---
 jxl/src/frame/modular/buffers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/modular/buffers.rs b/jxl/src/frame/modular/buffers.rs
index b703a13..3ba6b4b 100644
--- a/jxl/src/frame/modular/buffers.rs
+++ b/jxl/src/frame/modular/buffers.rs
@@ -3,7 +3,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-use super::ModularBufferInfo;
+use super::{ModularBufferInfo, ModularGridKind};
 use crate::error::Result;
 use crate::frame::DataStatus;
 use crate::frame::modular::ChannelInfo;
@@ -265,7 +265,8 @@ pub fn with_buffers<T>(
         // numbering (but carry no entropy-coded pixels), so we only skip when both dimensions are 0.
         // TODO(veluca): figure out if this is the best approach or we should instead pass through
         // empty buffers.
-        if b.size.0 == 0 && b.size.1 == 0 {
+        // Channels that are not split in groups always participate in channel numbering.
+        if buf.grid_kind != ModularGridKind::None && b.size.0 == 0 && b.size.1 == 0 {
             continue;
         }
 
-- 
2.43.0


From 0ab44ee26b2cdd1fc2f50487e168ead7bcb92523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 26/56] fix: subnormal half floats in headers were read as half
 their value

---
 jxl/src/util/float16.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 711c37c..6f53123 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -54,7 +54,7 @@ impl f16 {
                     e += 1;
                 }
                 m &= 0x3FF; // Remove the implicit leading 1
-                let new_exp = 127 - 15 - e; // Rebias: f16 bias=15, f32 bias=127
+                let new_exp = 127 - 14 - e; // Rebias: f16 bias=15, f32 bias=127
                 (sign << 31) | (new_exp << 23) | (m << 13)
             }
         } else if exp == 31 {
@@ -98,13 +98,22 @@ impl f16 {
         } else {
             let unbiased = exp - 127;
 
-            if unbiased < -24 {
+            if unbiased < -25 {
                 // Too small, underflow to zero
                 sign << 15
             } else if unbiased < -14 {
                 // Denormal f16
-                let shift = (-14 - unbiased) as u32;
-                let m = ((mant | 0x0080_0000) >> (shift + 14)) as u16;
+                let shift = (-14 - unbiased + 13) as u32;
+                let full = mant | 0x0080_0000;
+                let m = (full >> shift) as u16;
+                // Round to nearest, ties to even
+                let round_bit = (full >> (shift - 1)) & 1;
+                let sticky = full & ((1 << (shift - 1)) - 1);
+                let m = if round_bit == 1 && (sticky != 0 || (m & 1) == 1) {
+                    m + 1
+                } else {
+                    m
+                };
                 (sign << 15) | m
             } else if unbiased > 15 {
                 // Overflow to infinity
-- 
2.43.0


From 8073d467fa26b780b7f28772913793e79f1a06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 27/56] fix: rows of vertically upsampled channels were
 overwritten or read before filters used them

---
 jxl/src/render/low_memory_pipeline/render_group.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 4f28744..bfb0558 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -368,7 +368,12 @@ impl LowMemoryRenderPipeline {
                 let (dx, dy) = self.downsampling_for_stage[i];
                 // The logic below uses *virtual* y coordinates, so we need to convert the border
                 // amount appropriately.
-                let scaled_y_border = self.stage_output_border_pixels[i].1 << dy;
+                // Output borders are in units of *output* rows, so the shift of the stage (if
+                // any) does not apply to them. Scaling them by more than this would run the stage
+                // before its last input row is available, and overwrite rows of its output
+                // buffer that the following stages still need.
+                let scaled_y_border = self.stage_output_border_pixels[i].1
+                    << (dy - stage.shift().1 as usize);
                 // I knew the reason behind this formula at some point, but now I don't.
                 let stage_vy = vy as isize - num_extra_rows as isize + scaled_y_border as isize;
                 if stage_vy % (1 << dy) != 0 {
-- 
2.43.0


From a0b787fbb13ff33cf9159e1f324409627d884f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 28/56] fix: rows outside of an upsampled frame were mirrored
 at the bottom edge of the frame

---
 jxl/src/render/low_memory_pipeline/render_group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index bfb0558..7205d56 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -598,7 +598,9 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                // We are outside of the frame: rows must not be mirrored at its
+                                // bottom edge.
+                                image_height: yrange.end,
                             },
                             &input_data,
                             &mut outb[0][..],
-- 
2.43.0


From f0cf8d2eb817c144add7566a1c2ca61d831dddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 29/56] fix: PQ approximation for dark samples was selected by
 the unscaled value

---
 jxl/src/color/tf.rs                                | 6 +++---
 jxl/src/render/low_memory_pipeline/render_group.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jxl/src/color/tf.rs b/jxl/src/color/tf.rs
index 94b9638..106d822 100644
--- a/jxl/src/color/tf.rs
+++ b/jxl/src/color/tf.rs
@@ -273,7 +273,7 @@ pub fn linear_to_pq(intensity_target: f32, samples: &mut [f32]) {
         let a_scaled = a * y_mult;
         let a_1_4 = a_scaled.sqrt().sqrt();
 
-        let y = if a < 1e-4 {
+        let y = if a_scaled < 1e-4 {
             eval_rational_poly(a_1_4, PQ_INV_EOTF_P_SMALL, PQ_INV_EOTF_Q_SMALL)
         } else {
             eval_rational_poly(a_1_4, PQ_INV_EOTF_P, PQ_INV_EOTF_Q)
@@ -303,10 +303,10 @@ pub fn linear_to_pq_simd<D: SimdDescriptor>(
         let a_scaled = a * y_mult;
         let a_1_4 = a_scaled.sqrt().sqrt();
 
-        // Use small polynomial for a < 1e-4, regular polynomial otherwise
+        // Use small polynomial for a_scaled < 1e-4, regular polynomial otherwise
         let y_small = eval_rational_poly_simd(d, a_1_4, PQ_INV_EOTF_P_SMALL, PQ_INV_EOTF_Q_SMALL);
         let y_large = eval_rational_poly_simd(d, a_1_4, PQ_INV_EOTF_P, PQ_INV_EOTF_Q);
-        let y = threshold.gt(a).if_then_else_f32(y_small, y_large);
+        let y = threshold.gt(a_scaled).if_then_else_f32(y_small, y_large);
 
         y.copysign(s).store(vec);
     }
diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 7205d56..614e796 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -372,8 +372,8 @@ impl LowMemoryRenderPipeline {
                 // any) does not apply to them. Scaling them by more than this would run the stage
                 // before its last input row is available, and overwrite rows of its output
                 // buffer that the following stages still need.
-                let scaled_y_border = self.stage_output_border_pixels[i].1
-                    << (dy - stage.shift().1 as usize);
+                let scaled_y_border =
+                    self.stage_output_border_pixels[i].1 << (dy - stage.shift().1 as usize);
                 // I knew the reason behind this formula at some point, but now I don't.
                 let stage_vy = vy as isize - num_extra_rows as isize + scaled_y_border as isize;
                 if stage_vy % (1 << dy) != 0 {
-- 
2.43.0


From b7ef492d9459385394549446b92da85f2d99be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 30/56] fix: mixed upsampling with patches was checked before
 applying the dimension shift of extra channels

---
 jxl/src/headers/frame_header.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jxl/src/headers/frame_header.rs b/jxl/src/headers/frame_header.rs
index 06c1345..b0ee78d 100644
--- a/jxl/src/headers/frame_header.rs
+++ b/jxl/src/headers/frame_header.rs
@@ -701,10 +701,12 @@ impl FrameHeader {
 
         if self.has_patches()
             && self.upsampling != 1
-            && let Some(&ec_upsampling) = self
-                .ec_upsampling
+            && let Some(ec_upsampling) = nonserialized
+                .extra_channel_info
                 .iter()
-                .find(|&&ec_upsampling| ec_upsampling != self.upsampling)
+                .zip(&self.ec_upsampling)
+                .map(|(info, ec_upsampling)| ec_upsampling << info.dim_shift())
+                .find(|&ec_upsampling| ec_upsampling != self.upsampling)
         {
             return Err(Error::PatchesUnsupportedMixedUpsampling(
                 self.upsampling,
-- 
2.43.0


From b09fecc6c91b4523b4fb2c54a892464f35342e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 31/56] fix: overflow for extreme offsets between patch
 positions

---
 jxl/src/features/patches.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 146f2f3..d89439a 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -520,28 +520,20 @@ impl PatchesDictionary {
                         br,
                         PatchContext::PatchOffset as usize,
                     );
-                    if delta_x < 0 && (-delta_x as usize) > positions.last().unwrap().x {
-                        return Err(Error::PatchesInvalidDelta(
-                            "x".to_string(),
-                            positions.last().unwrap().x,
-                            delta_x,
-                        ));
-                    }
-                    pos.x = (positions.last().unwrap().x as i32 + delta_x) as usize;
+                    let last_x = positions.last().unwrap().x;
+                    pos.x = last_x
+                        .checked_add_signed(delta_x as isize)
+                        .ok_or(Error::PatchesInvalidDelta("x".to_string(), last_x, delta_x))?;
 
                     let delta_y = patches_reader.read_signed(
                         &patches_histograms,
                         br,
                         PatchContext::PatchOffset as usize,
                     );
-                    if delta_y < 0 && (-delta_y as usize) > positions.last().unwrap().y {
-                        return Err(Error::PatchesInvalidDelta(
-                            "y".to_string(),
-                            positions.last().unwrap().y,
-                            delta_y,
-                        ));
-                    }
-                    pos.y = (positions.last().unwrap().y as i32 + delta_y) as usize;
+                    let last_y = positions.last().unwrap().y;
+                    pos.y = last_y
+                        .checked_add_signed(delta_y as isize)
+                        .ok_or(Error::PatchesInvalidDelta("y".to_string(), last_y, delta_y))?;
                 }
 
                 if pos.x + ref_pos_xsize > xsize {
-- 
2.43.0


From 2b7073b72e710a32010a7fc965be66e5863ea33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 32/56] fix: number of missing bytes was overestimated for
 headers cut short

---
 jxl/src/api/inner/codestream_parser/frame_info.rs |  8 ++++----
 jxl/src/api/inner/codestream_parser/image_info.rs |  5 +----
 jxl/src/bit_reader.rs                             |  8 +++++---
 jxl/src/headers/permutation.rs                    | 12 +++---------
 4 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index ed89839..606dffe 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -165,10 +165,10 @@ impl FrameInfo {
             match toc_parser.read_step(br) {
                 Ok(()) => *bits = br.total_bits_read(),
                 Err(Error::OutOfBounds(c)) => {
-                    // Estimate >= 16 bits per remaining entry to read.
-                    return Err(Error::OutOfBounds(
-                        c + toc_parser.remaining_entries() as usize * 2,
-                    ));
+                    // Each entry after the current one takes at least 12 bits, the first of which
+                    // can be in the last of the `c` bytes.
+                    let more_bits = (toc_parser.remaining_entries() as usize - 1) * 12;
+                    return Err(Error::OutOfBounds(c + more_bits.saturating_sub(7) / 8));
                 }
                 Err(e) => return Err(e),
             }
diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index 1a18722..e22d235 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -149,10 +149,7 @@ impl ImageInfo {
             for _ in 0..icc_parser.remaining() {
                 match icc_parser.read_one(br) {
                     Ok(()) => *bits = br.total_bits_read(),
-                    Err(Error::OutOfBounds(c)) => {
-                        // Estimate >= one bit per remaining character to read.
-                        return Err(Error::OutOfBounds(c + icc_parser.remaining() / 8));
-                    }
+                    // The remaining characters can take no bits at all.
                     Err(e) => return Err(e),
                 }
             }
diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index 4c2d557..a972cbf 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -108,7 +108,9 @@ impl<'a> BitReader<'a> {
 
     pub fn check_for_error(&self) -> Result<(), Error> {
         if self.total_bits_read > self.initial_bits {
-            Err(Error::OutOfBounds(self.total_bits_read - self.initial_bits))
+            Err(Error::OutOfBounds(
+                (self.total_bits_read - self.initial_bits).div_ceil(8),
+            ))
         } else {
             Ok(())
         }
@@ -153,7 +155,7 @@ impl<'a> BitReader<'a> {
         let bits_available = self.data.len() * 8;
         if n > bits_available {
             self.total_bits_read += bits_available;
-            return Err(Error::OutOfBounds(n - bits_available));
+            return Err(Error::OutOfBounds((n - bits_available).div_ceil(8)));
         }
 
         // Skip bytes directly in `data`, then handle leftover bits
@@ -173,7 +175,7 @@ impl<'a> BitReader<'a> {
         self.bit_buf >>= to_consume;
         self.bits_in_buf -= to_consume;
         if n > 0 {
-            Err(Error::OutOfBounds(n))
+            Err(Error::OutOfBounds(n.div_ceil(8)))
         } else {
             Ok(())
         }
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b268e3f..b4da9da 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -53,15 +53,9 @@ impl Permutation {
 
         let mut prev_val = 0u32;
         for idx in skip..(skip + end) {
-            let val = match read(get_context(prev_val)) {
-                Ok(val) => val,
-                Err(Error::OutOfBounds(_)) => {
-                    // Estimate 1.5 bits for each remaining code
-                    let bits = (((skip + end) - idx) as usize).saturating_mul(3) / 2;
-                    return Err(Error::OutOfBounds(bits));
-                }
-                Err(e) => return Err(e),
-            };
+            // Codes can take no bits at all, so nothing more is known to be needed in case of an
+            // `OutOfBounds` error.
+            let val = read(get_context(prev_val))?;
             if val >= size - idx {
                 return Err(Error::InvalidPermutationLehmerCode {
                     size,
-- 
2.43.0


From 3a1a076d1b83667b378b6dd6c88db999a5dc8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 33/56] fix: panic when flushing squeezed channels that are not
 coded in section 0

---
 jxl/src/frame/modular/transforms/step.rs | 77 +++++++++++++++++-------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index bcb78b0..3ecc40d 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -6,7 +6,7 @@
 use std::fmt::Debug;
 
 use super::{RctOp, RctPermutation};
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::frame::modular::buffers::{ModularChannel, with_buffers};
 use crate::frame::modular::transforms::squeeze::{
     smooth_2d_unsqueeze, smooth_h_unsqueeze, smooth_v_unsqueeze,
@@ -204,18 +204,18 @@ impl SqueezeInfo {
         &'a self,
         buffers: &'a [ModularBufferInfo],
         vertical: bool,
-    ) -> SqueezeInputs<'a> {
+    ) -> Result<SqueezeInputs<'a>> {
         let borrow_border = if vertical {
             borrow_topbottom
         } else {
             borrow_leftright
         };
-        SqueezeInputs {
-            in_avg: borrow_channel(buffers, self.in_avg),
+        Ok(SqueezeInputs {
+            in_avg: ChannelGuard::new(buffers, self.in_avg)?,
             in_res: borrow_channel(buffers, self.in_res),
             in_next_border: self.in_next_avg.map(|x| borrow_border(buffers, x)),
             out_prev_border: self.out_prev.map(|x| borrow_border(buffers, x)),
-        }
+        })
     }
 
     fn decrement_refs(self, buffers: &[ModularBufferInfo], is_final: bool) {
@@ -227,7 +227,7 @@ impl SqueezeInfo {
         &self,
         buffers: &'a [ModularBufferInfo],
         frame_header: &FrameHeader,
-    ) -> TiledChannelView<'a> {
+    ) -> Result<TiledChannelView<'a>> {
         let (b, g) = match self.kind {
             SqueezeStepKind::Upsample1D(b, g) | SqueezeStepKind::Upsample2D(b, g) => (b, g),
             SqueezeStepKind::Regular => unreachable!(),
@@ -243,9 +243,9 @@ impl SqueezeInfo {
         };
 
         let mut tiles = [const { None }; 9];
-        tiles[4] = Some(TileGuard::Channel(borrow_channel(buffers, (b, g))));
+        tiles[4] = Some(TileGuard::Channel(ChannelGuard::new(buffers, (b, g))?));
 
-        let borrow_border = |tile_x: isize, tile_y: isize, is_tb: bool| -> Option<TileGuard<'a>> {
+        let borrow_border = |tile_x: isize, tile_y: isize, is_tb: bool| {
             if tile_x >= 0 && tile_x < xs as isize && tile_y >= 0 && tile_y < ys as isize {
                 let grid_idx = tile_y as usize * xs + tile_x as usize;
                 let guard = if is_tb {
@@ -253,31 +253,64 @@ impl SqueezeInfo {
                 } else {
                     borrow_leftright(buffers, (b, grid_idx))
                 };
-                Some(TileGuard::Border(guard))
+                if guard.is_none() {
+                    let size = buf_info.buffer_grid[grid_idx].size;
+                    let size = if is_tb { (size.0, 4) } else { (4, size.1) };
+                    return Ok(Some(TileGuard::Zero(Image::new(size)?)));
+                }
+                Ok::<_, Error>(Some(TileGuard::Border(guard)))
             } else {
-                None
+                Ok(None)
             }
         };
 
         for dx in 0..3 {
             let tx = gx as isize + dx as isize - 1;
-            tiles[dx] = borrow_border(tx, gy as isize - 1, true);
-            tiles[6 + dx] = borrow_border(tx, gy as isize + 1, true);
+            tiles[dx] = borrow_border(tx, gy as isize - 1, true)?;
+            tiles[6 + dx] = borrow_border(tx, gy as isize + 1, true)?;
         }
-        tiles[3] = borrow_border(gx as isize - 1, gy as isize, false);
-        tiles[5] = borrow_border(gx as isize + 1, gy as isize, false);
+        tiles[3] = borrow_border(gx as isize - 1, gy as isize, false)?;
+        tiles[5] = borrow_border(gx as isize + 1, gy as isize, false)?;
 
-        TiledChannelView {
+        Ok(TiledChannelView {
             size: buf_info.info.size,
             grid_dim,
             center_grid_pos: (gx, gy),
             tiles,
+        })
+    }
+}
+
+// Borrowed contents of a tile of a buffer. Tiles that were not decoded yet (which can be used by
+// progressive renders if the channel is not coded in section 0) are all-0.
+enum ChannelGuard<'a> {
+    Channel(RwLockReadGuard<'a, Option<ModularChannel>>),
+    Zero(Image<i32>),
+}
+
+impl<'a> ChannelGuard<'a> {
+    fn new(buffers: &'a [ModularBufferInfo], x: (usize, usize)) -> Result<Self> {
+        let guard = borrow_channel(buffers, x);
+        if guard.is_none() {
+            return Ok(Self::Zero(Image::new(buffers[x.0].buffer_grid[x.1].size)?));
+        }
+        Ok(Self::Channel(guard))
+    }
+}
+
+impl<'a> std::ops::Deref for ChannelGuard<'a> {
+    type Target = Image<i32>;
+
+    fn deref(&self) -> &Self::Target {
+        match self {
+            ChannelGuard::Channel(g) => &g.as_ref().unwrap().data,
+            ChannelGuard::Zero(i) => i,
         }
     }
 }
 
 struct SqueezeInputs<'a> {
-    in_avg: RwLockReadGuard<'a, Option<ModularChannel>>,
+    in_avg: ChannelGuard<'a>,
     in_res: RwLockReadGuard<'a, Option<ModularChannel>>,
     in_next_border: Option<RwLockReadGuard<'a, Option<Image<i32>>>>,
     out_prev_border: Option<RwLockReadGuard<'a, Option<Image<i32>>>>,
@@ -285,7 +318,7 @@ struct SqueezeInputs<'a> {
 
 impl<'a> SqueezeInputs<'a> {
     fn in_avg_rect(&self, rect: Rect) -> ImageRect<'_, i32> {
-        self.in_avg.as_ref().unwrap().data.get_rect(rect)
+        self.in_avg.get_rect(rect)
     }
 
     fn in_res_rect(&self, rect: Rect) -> ImageRect<'_, i32> {
@@ -302,8 +335,9 @@ impl<'a> SqueezeInputs<'a> {
 }
 
 enum TileGuard<'a> {
-    Channel(RwLockReadGuard<'a, Option<ModularChannel>>),
+    Channel(ChannelGuard<'a>),
     Border(RwLockReadGuard<'a, Option<Image<i32>>>),
+    Zero(Image<i32>),
 }
 
 impl<'a> std::ops::Deref for TileGuard<'a> {
@@ -311,8 +345,9 @@ impl<'a> std::ops::Deref for TileGuard<'a> {
 
     fn deref(&self) -> &Self::Target {
         match self {
-            TileGuard::Channel(g) => &g.as_ref().unwrap().data,
+            TileGuard::Channel(g) => g,
             TileGuard::Border(g) => g.as_ref().unwrap(),
+            TileGuard::Zero(i) => i,
         }
     }
 }
@@ -872,7 +907,7 @@ impl TransformStepChunk {
                     }
                     if info.kind != SqueezeStepKind::Regular {
                         assert_eq!(bufs.len(), 1);
-                        let view = info.borrow_upsample_view(buffers, frame_header);
+                        let view = info.borrow_upsample_view(buffers, frame_header)?;
                         let scratch = &mut transform_scratch_space.smooth_unsqueeze_buffer;
                         if matches!(info.kind, SqueezeStepKind::Upsample2D(..)) {
                             smooth_2d_unsqueeze(&view, info.out_rect, &mut bufs[0].data, scratch);
@@ -882,7 +917,7 @@ impl TransformStepChunk {
                             smooth_h_unsqueeze(&view, info.out_rect, &mut bufs[0].data, scratch);
                         }
                     } else {
-                        let inputs = info.borrow_inputs(buffers, vertical);
+                        let inputs = info.borrow_inputs(buffers, vertical)?;
                         if vertical {
                             super::squeeze::do_vsqueeze_step(
                                 &inputs.in_avg_rect(info.avg_rect),
-- 
2.43.0


From 9004a27566f6911bec46a05099404b18544a24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 34/56] fix: noise of frames decoded after a seek differed from
 sequential decoding

---
 jxl/src/api/decoder.rs                          | 11 +++++++++++
 .../api/inner/codestream_parser/frame_info.rs   | 11 ++++++++++-
 .../inner/codestream_parser/frame_scan_info.rs  | 17 ++++++++++++++---
 jxl/src/api/inner/codestream_parser/mod.rs      |  3 +++
 jxl/src/api/inner/mod.rs                        |  1 +
 5 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/jxl/src/api/decoder.rs b/jxl/src/api/decoder.rs
index 4484497..1e7a89a 100644
--- a/jxl/src/api/decoder.rs
+++ b/jxl/src/api/decoder.rs
@@ -72,6 +72,17 @@ pub struct VisibleFrameSeekTarget {
     /// Number of visible frames to skip after seek-start before decoding the
     /// requested target frame.
     pub visible_frames_to_skip: usize,
+    /// Indices of the frame at the seek-start among the frames of the file.
+    pub(crate) start_frame_indices: FrameIndices,
+}
+
+/// Number of frames that precede a frame, which determine the noise it contains.
+#[derive(Debug, Clone, Copy, Default)]
+pub(crate) struct FrameIndices {
+    /// Number of visible frames before the frame.
+    pub visible: usize,
+    /// Number of non-visible frames before the frame and after the last visible frame.
+    pub nonvisible: usize,
 }
 
 impl<S: JxlState> JxlDecoder<S> {
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 606dffe..beb5d09 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -6,6 +6,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::io::IoSliceMut;
 
+use crate::api::decoder::FrameIndices;
 use crate::api::inner::CodestreamParser;
 use crate::api::inner::box_parser::CodestreamInput;
 use crate::api::inner::codestream_parser::{
@@ -55,6 +56,8 @@ pub struct FrameInfo {
     frame_header: Option<FrameHeader>,
     toc_parser: Option<IncrementalTocReader>,
     frame: Option<Frame>,
+    // Indices of the first frame to be decoded.
+    pub start_frame_indices: FrameIndices,
     // Keeps track of whether pixels have been modified.
     pixels_dirty: bool,
 
@@ -83,6 +86,7 @@ impl FrameInfo {
             frame_header: None,
             toc_parser: None,
             frame: None,
+            start_frame_indices: FrameIndices::default(),
             sections: VecDeque::new(),
             section_size: 0,
             ready_section_data: 0,
@@ -210,7 +214,12 @@ impl FrameInfo {
                 .map(|x| x.finalize())
                 .transpose()?
                 .flatten()
-                .unwrap_or_else(|| DecoderState::new(file_header.clone(), decode_options));
+                .unwrap_or_else(|| {
+                    let mut state = DecoderState::new(file_header.clone(), decode_options);
+                    state.visible_frame_index = self.start_frame_indices.visible;
+                    state.nonvisible_frame_index = self.start_frame_indices.nonvisible;
+                    state
+                });
             let mut frame =
                 Frame::from_header_and_toc(self.frame_header.take().unwrap(), toc, decoder_state)?;
 
diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 15954f9..fc9bd80 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -3,6 +3,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
+use crate::api::decoder::FrameIndices;
 use crate::api::inner::CodestreamParser;
 use crate::api::{BoxParserCheckpoint, VisibleFrameInfo, VisibleFrameSeekTarget};
 use crate::frame::DecoderState;
@@ -12,7 +13,7 @@ use crate::headers::frame_header::FrameHeader;
 #[derive(Clone, Copy)]
 struct FrameStartInfo {
     box_parser_checkpoint: BoxParserCheckpoint,
-    visible_count_before: usize,
+    indices: FrameIndices,
 }
 
 pub(super) struct FrameScanInfo {
@@ -20,6 +21,8 @@ pub(super) struct FrameScanInfo {
     scanned_frames: Vec<VisibleFrameInfo>,
     /// Zero-based visible frame index counter.
     visible_frame_index: usize,
+    /// Number of non-visible frames after the last visible frame.
+    nonvisible_frame_index: usize,
     /// File offsets and visibility info for every non-preview frame (visible
     /// and non-visible), in parse order.
     frame_starts: Vec<FrameStartInfo>,
@@ -39,6 +42,7 @@ impl FrameScanInfo {
         Self {
             scanned_frames: Vec::new(),
             visible_frame_index: 0,
+            nonvisible_frame_index: 0,
             frame_starts: Vec::new(),
             reference_slot_decode_start: [None; DecoderState::MAX_STORED_FRAMES],
             lf_slot_decode_start: [None; DecoderState::NUM_LF_FRAMES],
@@ -61,7 +65,10 @@ impl FrameScanInfo {
         let is_visible = header.is_visible();
         self.frame_starts.push(FrameStartInfo {
             box_parser_checkpoint,
-            visible_count_before: self.visible_frame_index,
+            indices: FrameIndices {
+                visible: self.visible_frame_index,
+                nonvisible: self.nonvisible_frame_index,
+            },
         });
 
         let mut decode_start_frame_index = current_frame_index;
@@ -126,7 +133,8 @@ impl FrameScanInfo {
                 box_parser_checkpoint: decode_start.box_parser_checkpoint,
                 visible_frames_to_skip: self
                     .visible_frame_index
-                    .saturating_sub(decode_start.visible_count_before),
+                    .saturating_sub(decode_start.indices.visible),
+                start_frame_indices: decode_start.indices,
             };
             let is_keyframe = seek_target.visible_frames_to_skip == 0;
 
@@ -142,6 +150,9 @@ impl FrameScanInfo {
             });
 
             self.visible_frame_index += 1;
+            self.nonvisible_frame_index = 0;
+        } else {
+            self.nonvisible_frame_index += 1;
         }
 
         // Update slot dependency origins after processing this frame.
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 47b6cd7..04e95d9 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -5,6 +5,7 @@
 
 #[cfg(test)]
 use crate::api::FrameCallback;
+use crate::api::decoder::FrameIndices;
 use crate::api::inner::box_parser::CodestreamInput;
 use crate::api::inner::codestream_parser::frame_info::FrameInfo;
 use crate::api::inner::codestream_parser::frame_scan_info::FrameScanInfo;
@@ -137,8 +138,10 @@ impl CodestreamParser {
         &mut self,
         visible_frames_to_skip: usize,
         consumed_codestream: u64,
+        start_frame_indices: FrameIndices,
     ) {
         self.frame_info.clear(true);
+        self.frame_info.start_frame_indices = start_frame_indices;
         self.local_buffer = SmallBuffer::new(4096);
         self.local_buffer.mark_consumed(consumed_codestream);
         self.visible_frames_to_skip = visible_frames_to_skip;
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index db61cd1..69cbcc8 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -111,6 +111,7 @@ impl JxlDecoderInner {
         self.codestream_parser.start_new_frame(
             seek_target.visible_frames_to_skip,
             seek_target.box_parser_checkpoint.consumed_codestream,
+            seek_target.start_frame_indices,
         );
     }
 
-- 
2.43.0


From 58aef0640f3d23c9cdd271e3a6946b9ed1652f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 35/56] fix: overflow for extreme spline coefficients

---
 jxl/src/features/spline.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jxl/src/features/spline.rs b/jxl/src/features/spline.rs
index 6729bca..c9bb492 100644
--- a/jxl/src/features/spline.rs
+++ b/jxl/src/features/spline.rs
@@ -189,7 +189,7 @@ impl QuantizedSpline {
     ) -> Result<QuantizedSpline> {
         let num_control_points =
             splines_reader.read_unsigned(splines_histograms, br, NUM_CONTROL_POINTS_CONTEXT);
-        *total_num_control_points += num_control_points;
+        *total_num_control_points = total_num_control_points.saturating_add(num_control_points);
         if *total_num_control_points > max_control_points {
             return Err(Error::SplinesTooManyControlPoints(
                 *total_num_control_points,
@@ -305,15 +305,17 @@ impl QuantizedSpline {
 
         for (c, color_val) in color.iter_mut().enumerate() {
             for i in 0..32 {
-                *color_val += (inv_quant * self.color_dct[c][i].abs() as f32).ceil() as u64;
+                *color_val = color_val.saturating_add(
+                    (inv_quant * self.color_dct[c][i].unsigned_abs() as f32).ceil() as u64,
+                );
             }
         }
 
-        color[0] += y_to_x.abs().ceil() as u64 * color[1];
-        color[2] += y_to_b.abs().ceil() as u64 * color[1];
+        color[0] = color[0].saturating_add((y_to_x.abs().ceil() as u64).saturating_mul(color[1]));
+        color[2] = color[2].saturating_add((y_to_b.abs().ceil() as u64).saturating_mul(color[1]));
 
         let max_color = color[0].max(color[1]).max(color[2]);
-        let logcolor = 1u64.max((1u64 + max_color).ceil_log2());
+        let logcolor = 1u64.max(max_color.saturating_add(1).ceil_log2());
 
         let weight_limit =
             (((area_limit as f32 / logcolor as f32) / manhattan_distance.max(1) as f32).sqrt())
@@ -324,7 +326,7 @@ impl QuantizedSpline {
             result.sigma_dct.0[i] =
                 self.sigma_dct[i] as f32 * inv_dct_factor * CHANNEL_WEIGHT[3] * inv_quant;
 
-            let weight_f = (inv_quant * self.sigma_dct[i].abs() as f32).ceil();
+            let weight_f = (inv_quant * self.sigma_dct[i].unsigned_abs() as f32).ceil();
             let weight = weight_limit.min(weight_f.max(1.0)) as u64;
             width_estimate += weight * weight * logcolor;
         }
-- 
2.43.0


From 273e1f0ab3bd049f96f0de8b850046c2df55616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 36/56] fix: overflow when the passes of a coefficient add up
 to more than 32 bits

---
 jxl/src/frame/group.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/group.rs b/jxl/src/frame/group.rs
index dd3daed..81cfcad 100644
--- a/jxl/src/frame/group.rs
+++ b/jxl/src/frame/group.rs
@@ -569,7 +569,8 @@ pub fn decode_vardct_group(
                         prev = if coeff != 0 { 1 } else { 0 };
                         nonzeros -= prev;
                         let coeff_index = permutation[k] as usize;
-                        current_coeffs[coeff_index] += coeff;
+                        current_coeffs[coeff_index] =
+                            current_coeffs[coeff_index].wrapping_add(coeff);
                     }
                     if nonzeros != 0 {
                         return Err(Error::EndOfBlockResidualNonZeros(nonzeros));
-- 
2.43.0


From b40bbcb876f8d0f90ce45e7232dfe929819bb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 37/56] fix: panic on frames that use an LF frame which is
 smaller than their LF image

---
 jxl/src/error.rs        |  2 ++
 jxl/src/frame/decode.rs | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index 8f86157..e9f01f9 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -275,6 +275,8 @@ pub enum Error {
     TooManyExtraChannels(usize),
     #[error("No LF frame for level {0}")]
     NoLfFrame(u32),
+    #[error("LF frame of size {0}x{1} is used for a frame with {2}x{3} blocks")]
+    LfFrameTooSmall(usize, usize, usize, usize),
 }
 
 pub type Result<T, E = Error> = std::result::Result<T, E>;
diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index e585bbf..05dacef 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -171,11 +171,20 @@ impl Frame {
         let size_blocks = frame_header.size_blocks();
         let lf_image = if frame_header.encoding == Encoding::VarDCT {
             if frame_header.has_lf_frame() {
-                if decoder_state.lf_frames[frame_header.lf_level as usize].is_none() {
+                let Some(lf_frame) = &decoder_state.lf_frames[frame_header.lf_level as usize]
+                else {
                     return Err(Error::NoLfFrame(frame_header.lf_level));
-                } else {
-                    None
+                };
+                let lf_size = lf_frame[0].size();
+                if lf_size.0 < size_blocks.0 || lf_size.1 < size_blocks.1 {
+                    return Err(Error::LfFrameTooSmall(
+                        lf_size.0,
+                        lf_size.1,
+                        size_blocks.0,
+                        size_blocks.1,
+                    ));
                 }
+                None
             } else {
                 Some([
                     Image::new(size_blocks)?,
-- 
2.43.0


From 11f9bd41540cd951db43d8985f1f244c0295e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 38/56] fix: panic on VarDCT blocks that overlap earlier blocks

---
 jxl/src/frame/modular/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 1fba73e..7e8ebb4 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -1066,6 +1066,12 @@ pub fn decode_hf_metadata(
 
             for iy in 0..cy {
                 let trans_row = hf_meta.transform_map.typed_row_mut::<u8>(y + iy);
+                if trans_row[x..x + cx]
+                    .iter()
+                    .any(|t| *t != HfTransformType::INVALID_TRANSFORM)
+                {
+                    return Err(Error::InvalidVarDCTTransformMap);
+                }
                 let rq_row = hf_meta.raw_quant_map.typed_row_mut::<i32>(y + iy);
                 for ix in 0..cx {
                     let is_first_block = iy == 0 && ix == 0;
-- 
2.43.0


From 7a57bfd607b6e04e8f82c559a327f35fdd25d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 39/56] fix: memory of the borders between groups depended on
 the group size only

---
 jxl/src/render/low_memory_pipeline/group_scheduler.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index cb11fc3..acfd881 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -187,6 +187,8 @@ impl LowMemoryRenderPipeline {
                 downsample: (dx, dy),
             } = self.shared.channel_info[0][c];
             let ty = ty.unwrap();
+            // Not larger than the image, which can be much smaller than a group.
+            let (gx, gy) = self.shared.group_size_for_channel(c, ty);
             let bx = bx >> dx;
             let by = by >> dy;
             let mut topbottom = if let Some(b) = buf.topbottom[c].try_write().unwrap().take() {
@@ -195,7 +197,7 @@ impl LowMemoryRenderPipeline {
                 b
             } else {
                 let height = 4 * by;
-                let width = (1 << self.shared.log_group_size) * ty.size();
+                let width = gx * ty.size();
                 OwnedRawImage::new((width, height))?
             };
             let mut leftright = if let Some(b) = buf.leftright[c].try_write().unwrap().take() {
@@ -203,7 +205,7 @@ impl LowMemoryRenderPipeline {
             } else if let Some(b) = self.maybe_get_scratch_buffer(c, 2) {
                 b
             } else {
-                let height = 1 << self.shared.log_group_size;
+                let height = gy;
                 let width = 4 * bx * ty.size();
                 OwnedRawImage::new((width, height))?
             };
-- 
2.43.0


From a28d5dfc34ff036b3776318a8342e2bc504254c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 40/56] fix: pixels next to a narrow last group were filtered
 without padding when it is decoded before its neighbour

---
 .../render/low_memory_pipeline/group_scheduler.rs    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index acfd881..722d40b 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -80,6 +80,13 @@ fn ready_image_area(
     yrange: Range<u8>,
 ) -> Option<Rect> {
     let (gx, gy) = group_position;
+    // The area around the left border of the last group of a row extends to the end of the row if
+    // the group is too narrow for the pixels in that area not to depend on what is past the end of
+    // the row, as padding is only applied to areas that do reach that end.
+    let narrow = |width: usize| width < 2 * border_size.0;
+    let is_narrow_last = gx > 0 && gx + 1 == group_count.0 && narrow(group_rect.size.0);
+    let next_is_narrow_last =
+        gx + 2 == group_count.0 && narrow(input_size.0.saturating_sub(group_rect.end().0));
     let y0 = match (gy == 0, yrange.start) {
         (true, 0) => group_rect.origin.1,
         (false, 0) => group_rect.origin.1 - border_size.1,
@@ -90,6 +97,7 @@ fn ready_image_area(
     let x0 = match (gx == 0, xrange.start) {
         (true, 0) => group_rect.origin.0,
         (false, 0) => group_rect.origin.0 - border_size.0,
+        (_, 1) if is_narrow_last => group_rect.end().0,
         (_, 1) => group_rect.origin.0 + border_size.0,
         // (_, 2)
         _ => group_rect.end().0.saturating_sub(border_size.0),
@@ -106,14 +114,16 @@ fn ready_image_area(
 
     let x1 = match (gx + 1 == group_count.0, xrange.end) {
         (true, 3) => group_rect.end().0,
+        (false, 3) if next_is_narrow_last => input_size.0,
         (false, 3) => group_rect.end().0 + border_size.0,
         (_, 2) => group_rect.end().0.saturating_sub(border_size.0),
         // (_, 1)
+        _ if is_narrow_last => group_rect.end().0,
         _ => group_rect.origin.0 + border_size.0,
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then(|| Rect {
+    (x1 > x0 && y1 > y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From 24ba2b7ec45409030a577ec782741bb9098ec33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 41/56] fix: rows were too short for areas that extend past
 both borders of a group

---
 jxl/src/render/low_memory_pipeline/mod.rs | 49 +++++++++++++----------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..3633f39 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -43,6 +43,12 @@ impl Debug for LowMemoryRenderPipelinePerThread {
     }
 }
 
+// The areas that are rendered at once extend past the borders of a group, by up to three times the
+// border size if the next group is a narrow one (see `ready_image_area`).
+fn max_area_width<B>(shared: &RenderPipelineShared<B>, border_size: (usize, usize)) -> usize {
+    shared.chunk_size + 4 * border_size.0
+}
+
 impl LowMemoryRenderPipelinePerThread {
     fn ensure_populated(&mut self, p: &LowMemoryRenderPipeline) -> Result<()> {
         if !self.row_buffers.is_empty() {
@@ -50,13 +56,14 @@ impl LowMemoryRenderPipelinePerThread {
         }
         let nc = p.shared.num_channels();
         let mut initial_buffers = vec![];
+        let chunk_size = max_area_width(&p.shared, p.border_size);
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
                 p.shared.channel_info[0][chan].ty.unwrap_or(DataTypeTag::U8),
                 p.next_border_and_cur_downsample[0][chan].0 as usize,
                 0,
                 0,
-                p.shared.chunk_size >> p.shared.channel_info[0][chan].downsample.0,
+                chunk_size.shrc(p.shared.channel_info[0][chan].downsample.0),
             )?);
         }
         self.row_buffers = vec![initial_buffers];
@@ -70,7 +77,7 @@ impl LowMemoryRenderPipelinePerThread {
                     *next_y_border as usize,
                     stage.shift().1 as usize,
                     stage.shift().0 as usize,
-                    p.shared.chunk_size >> *dsx,
+                    chunk_size.shrc(*dsx),
                 )?);
             }
             self.row_buffers.push(stage_buffers);
@@ -223,25 +230,6 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
-        // Create opaque alpha buffers for save stages that need fill_opaque_alpha
-        let mut opaque_alpha_buffers = vec![];
-        for (i, stage) in shared.stages.iter().enumerate() {
-            if let Stage::Save(s) = stage {
-                if s.fill_opaque_alpha {
-                    let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = shared.chunk_size >> dx;
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
-                    let buf =
-                        RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
-                    opaque_alpha_buffers.push(Some(buf));
-                } else {
-                    opaque_alpha_buffers.push(None);
-                }
-            } else {
-                opaque_alpha_buffers.push(None);
-            }
-        }
-
         let default_channels: Vec<usize> = (0..nc).collect();
         for (s, ibi) in stage_input_buffer_index.iter_mut().enumerate() {
             let mut filtered = vec![];
@@ -289,6 +277,25 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
         }
 
+        // Create opaque alpha buffers for save stages that need fill_opaque_alpha
+        let mut opaque_alpha_buffers = vec![];
+        for (i, stage) in shared.stages.iter().enumerate() {
+            if let Stage::Save(s) = stage {
+                if s.fill_opaque_alpha {
+                    let (dx, _dy) = downsampling_for_stage[i];
+                    let row_len = max_area_width(&shared, border_size).shrc(dx);
+                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    let buf =
+                        RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
+                    opaque_alpha_buffers.push(Some(buf));
+                } else {
+                    opaque_alpha_buffers.push(None);
+                }
+            } else {
+                opaque_alpha_buffers.push(None);
+            }
+        }
+
         Ok(Self {
             input_buffers: InputBuffers::new(nc, shared.group_count)?,
             stage_input_buffer_index,
-- 
2.43.0


From 2cc39576ee2c0f0e08a1e51eca881aa747f67c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 42/56] fix: areas of a group could start or end inside a pixel
 of an upsampled extra channel

---
 jxl/src/render/low_memory_pipeline/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 3633f39..5ad08d8 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -276,6 +276,20 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 .1
                 .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
         }
+        // Areas must start at a pixel of subsampled channels, and the borders that are kept must
+        // contain whole pixels of them.
+        let mut max_downsample = (0, 0);
+        for c in 0..nc {
+            let d = shared.channel_info[0][c].downsample;
+            max_downsample.0 = max_downsample.0.max(d.0 as usize);
+            max_downsample.1 = max_downsample.1.max(d.1 as usize);
+        }
+        for d in downsampling_for_stage.iter() {
+            max_downsample.0 = max_downsample.0.max(d.0);
+            max_downsample.1 = max_downsample.1.max(d.1);
+        }
+        border_size.0 = border_size.0.next_multiple_of(1 << max_downsample.0);
+        border_size.1 = border_size.1.next_multiple_of(1 << max_downsample.1);
 
         // Create opaque alpha buffers for save stages that need fill_opaque_alpha
         let mut opaque_alpha_buffers = vec![];
-- 
2.43.0


From e542043dfff845de67cb78a799856bf6a2820a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 43/56] fix: names were read as Latin-1 instead of UTF-8

---
 jxl/src/headers/encodings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index b06c4dd..01f8389 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -153,11 +153,11 @@ impl UnconditionalCoder<()> for String {
             br,
             nonserialized,
         )?;
-        let mut ret = String::new();
-        ret.reserve(len as usize);
+        // Strings are coded as UTF-8.
+        let mut ret = Vec::with_capacity(len as usize);
         for _ in 0..len {
             match br.read_noinline(8) {
-                Ok(c) => ret.push(c as u8 as char),
+                Ok(c) => ret.push(c as u8),
                 Err(Error::OutOfBounds(n)) => {
                     // Use saturating arithmetic to prevent underflow on malformed input
                     // ret.len()+1 cannot overflow since ret.len() <= isize::MAX
@@ -169,7 +169,7 @@ impl UnconditionalCoder<()> for String {
                 Err(e) => return Err(e),
             }
         }
-        Ok(ret)
+        Ok(String::from_utf8_lossy(&ret).into_owned())
     }
 }
 
-- 
2.43.0


From 3a1f91884e500afea2c5c909ac92f476b38ab9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 44/56] fix: context maps and permutations cut off by the end
 of the data available so far were taken as invalid

---
 jxl/src/entropy_coding/context_map.rs | 1 +
 jxl/src/entropy_coding/decode.rs      | 2 +-
 jxl/src/headers/permutation.rs        | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index ec1b9ac..dac4935 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -59,6 +59,7 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
         let mut ctx_map: Vec<u8> = (0..num_contexts)
             .map(|_| {
                 let mv = reader.read_unsigned(&histograms, br, 0usize);
+                br.check_for_error()?;
                 if mv > u8::MAX as u32 {
                     Err(Error::InvalidContextMap(mv))
                 } else {
diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 593dde7..4931afd 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -398,8 +398,8 @@ impl SymbolReader {
     }
 
     pub fn check_final_state(self, histograms: &Histograms, br: &mut BitReader) -> Result<()> {
-        self.errors.check_for_error()?;
         br.check_for_error()?;
+        self.errors.check_for_error()?;
         match &histograms.codes {
             Codes::Huffman(_) => Ok(()),
             Codes::Ans(_) => self.ans_reader.check_final_state(),
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b4da9da..c86a0fd 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -32,6 +32,7 @@ impl Permutation {
         entropy_reader: &mut SymbolReader,
     ) -> Result<Self> {
         let end = entropy_reader.read_unsigned(histograms, br, get_context(size));
+        br.check_for_error()?;
         Self::decode_inner(size, skip, end, |ctx| -> Result<u32> {
             let r = entropy_reader.read_unsigned(histograms, br, ctx);
             br.check_for_error()?;
-- 
2.43.0


From c5b37278498de60aed4c67a8ee0b5b864142776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 45/56] fix: a symbol cut off at the start of a stream with
 LZ77 could make the decoder panic

---
 jxl/src/entropy_coding/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 4931afd..d386df7 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -463,7 +463,7 @@ impl SymbolReader {
 
                 let start = (num_decoded & Lz77State::WINDOW_MASK) as usize;
                 let end = ((num_decoded + num_rewind) & Lz77State::WINDOW_MASK) as usize;
-                if start < end {
+                if start <= end {
                     lz77_state.window[start..end].copy_from_slice(rewind_window);
                 } else {
                     let window_first = &mut lz77_state.window[start..];
-- 
2.43.0


From 082d2566de77ee88284f46d134acdff39beb512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 46/56] fix: previews from an LF frame used a wrong size and
 wrong columns at the right border

An LF frame larger than what the frame needs made the decoder panic when
flushed, and the columns beyond the right border came from the wrong place.
---
 jxl/src/frame/decode.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 05dacef..4e2b171 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -60,6 +60,7 @@ fn upsample_lf_group(
     let (width_groups, _) = header.size_groups();
     let gx = group % width_groups;
     let gy = group / width_groups;
+    let size_blocks = header.size_blocks();
 
     let upsample = Upsample8x::new(factors, 0);
     let mut state = upsample.init_local_state()?.unwrap();
@@ -85,8 +86,9 @@ fn upsample_lf_group(
         let lf_x0 = gx * lf_group_dim_x;
         let lf_y0 = gy * lf_group_dim_y;
 
-        let lf_width = lf_img.size().0.shrc(hs);
-        let lf_height = lf_img.size().1.shrc(hs);
+        // An LF frame may be larger than what this frame needs.
+        let lf_width = size_blocks.0.shrc(hs);
+        let lf_height = size_blocks.1.shrc(vs);
 
         let start_x = lf_x0.saturating_sub(2);
         let lf_x1 = (lf_x0 + lf_group_dim_x).min(lf_width);
@@ -111,10 +113,9 @@ fn upsample_lf_group(
                     storage[0] = storage[2 + mirror(-2, copy_width)];
                     storage[1] = storage[2 + mirror(-1, copy_width)];
                 }
-                if end_x == lf_x1 {
-                    storage[save_end] = storage[save_start + mirror(save_end as isize, save_end)];
-                    storage[save_end + 1] =
-                        storage[save_start + mirror(save_end as isize + 1, save_end)];
+                for i in 0..2 - (end_x - lf_x1) {
+                    storage[save_end + i] =
+                        storage[save_start + mirror((copy_width + i) as isize, copy_width)];
                 }
             }
 
-- 
2.43.0


From 8b57421f15fc608c1719f7dc60d7933bd81e4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 47/56] fix: noise was provided for Modular groups that a flush
 did not render, and again later

---
 jxl/src/frame/decode.rs |  7 ++++++-
 jxl/src/frame/mod.rs    | 17 +++++++++++++++++
 jxl/src/frame/render.rs |  4 ++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 4e2b171..c941a7f 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -725,7 +725,12 @@ impl Frame {
             return Ok(());
         }
 
-        if self.header.has_noise() && render_vardct {
+        // The noise of a Modular group whose colour is not complete is only needed if the
+        // group is rendered; it would otherwise be provided again later.
+        let need_noise = complete
+            || self.header.encoding == Encoding::VarDCT
+            || self.group_status.modular_group_is_rendered(group);
+        if self.header.has_noise() && render_vardct && need_noise {
             self.render_noise_for_group(group, complete, buffer_splitter)?;
         }
 
diff --git a/jxl/src/frame/mod.rs b/jxl/src/frame/mod.rs
index 67a59a2..e236a0e 100644
--- a/jxl/src/frame/mod.rs
+++ b/jxl/src/frame/mod.rs
@@ -243,6 +243,9 @@ struct GroupStatus {
     need_modular_flush: BTreeSet<usize>,
     channel_status: Vec<Vec<DataStatus>>,
     final_vardct_render_done: HashSet<usize>,
+    // Pairs of (group, channel) of modular data that will be rendered from
+    // incomplete data by the current call to decode_and_render_hf_groups.
+    partial_modular_renders: HashSet<(usize, usize)>,
     incomplete_groups: usize,
 }
 
@@ -257,6 +260,7 @@ impl GroupStatus {
             need_modular_flush: BTreeSet::new(),
             channel_status: vec![vec![DataStatus::Zero; 3 + ecs]; count],
             final_vardct_render_done: HashSet::new(),
+            partial_modular_renders: HashSet::new(),
             incomplete_groups: count,
         }
     }
@@ -270,6 +274,19 @@ impl GroupStatus {
         }
     }
 
+    // Whether all the channels of the given Modular group that are not complete yet are
+    // rendered again, i.e. whether the group itself is.
+    fn modular_group_is_rendered(&self, group: usize) -> bool {
+        self.channel_status[group]
+            .iter()
+            .enumerate()
+            .all(|(c, status)| match status {
+                DataStatus::Zero => false,
+                DataStatus::Partial => self.partial_modular_renders.contains(&(group, c)),
+                DataStatus::Final => true,
+            })
+    }
+
     fn colour_complete(&self, group: usize) -> bool {
         self.channel_status[group][..3]
             .iter()
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index a69db38..eb81566 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -346,7 +346,11 @@ impl Frame {
 
         // STEP 3: Make sure modular_global is ready to run, and prepare the list of
         // all the decoding/rendering steps that we want to run.
+        self.group_status.partial_modular_renders.clear();
         modular_global.prepare_render(&self.header, |g, c, is_final| {
+            if !is_final {
+                self.group_status.partial_modular_renders.insert((g, c));
+            }
             let sz = self.header.group_rect(g).size;
             let area = sz.0 * sz.1;
             if area >= largest_group_area {
-- 
2.43.0


From 0af07f0bd162cd2cd64e59b6f771df60204a32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 48/56] fix: flush_pixels returned false for the pixels it drew
 of SkipProgressive frames

---
 jxl/src/frame/render.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index eb81566..2f9e939 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -499,7 +499,11 @@ impl Frame {
             .validate_state_after_transforms();
 
         let regions = buffer_splitter.into_changed_regions();
-        let rendered = !regions.is_empty() && self.header.frame_type == FrameType::RegularFrame;
+        let rendered = !regions.is_empty()
+            && matches!(
+                self.header.frame_type,
+                FrameType::RegularFrame | FrameType::SkipProgressive
+            );
 
         self.reference_frame_data = reference_frame_data;
         self.lf_frame_data = lf_frame_data;
-- 
2.43.0


From a6144970eb77b398d98d8bafd26904ded938a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 49/56] fix: ICC profiles with PQ or HLG curves had invalid
 curve tags

The table of a generated gray or custom white point profile with a PQ or
HLG curve was written as a parametric curve with 64 parameters (and PQ
values were divided by the peak luminance twice).
---
 jxl/src/api/color.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/jxl/src/api/color.rs b/jxl/src/api/color.rs
index e1ab2be..3778853 100644
--- a/jxl/src/api/color.rs
+++ b/jxl/src/api/color.rs
@@ -995,8 +995,8 @@ impl JxlColorEncoding {
                             create_icc_curv_para_tag(&mut tags_data, &PARAMS, 3)?
                         }
                         JxlTransferFunction::HLG | JxlTransferFunction::PQ => {
-                            let params = create_table_curve(64, transfer_function, false)?;
-                            create_icc_curv_para_tag(&mut tags_data, params.as_slice(), 3)?
+                            let table = create_table_curve(64, transfer_function, false)?;
+                            create_icc_curv_table_tag(&mut tags_data, &table)
                         }
                     };
                     pad_to_4_byte_boundary(&mut tags_data);
@@ -1547,6 +1547,22 @@ fn create_icc_curv_para_tag(
     Ok((tags_data.len() - start_offset) as u32)
 }
 
+/// Creates the data for an ICC `curv` (curveType) tag with a table of values.
+/// It writes `12 + 2 * table.len()` bytes.
+fn create_icc_curv_table_tag(tags_data: &mut Vec<u8>, table: &[u16]) -> u32 {
+    let start_offset = tags_data.len();
+    // Tag type 'curv' (4 bytes)
+    tags_data.extend_from_slice(b"curv");
+    // Reserved, must be 0 (4 bytes)
+    tags_data.extend_from_slice(&0u32.to_be_bytes());
+    // Number of entries (u32, 4 bytes)
+    tags_data.extend_from_slice(&(table.len() as u32).to_be_bytes());
+    for value in table {
+        tags_data.extend_from_slice(&value.to_be_bytes());
+    }
+    (tags_data.len() - start_offset) as u32
+}
+
 fn display_from_encoded_pq(display_intensity_target: f32, mut e: f64) -> f64 {
     const M1: f64 = 2610.0 / 16384.0;
     const M2: f64 = (2523.0 / 4096.0) * 128.0;
@@ -1685,12 +1701,12 @@ impl TF_HLG {
 /// * `tone_map` - A boolean to enable tone mapping for PQ curves. Currently a stub.
 ///
 /// ### Returns
-/// A `Result` containing the `Vec<f32>` lookup table or an `Error`.
+/// A `Result` containing the `Vec<u16>` lookup table or an `Error`.
 fn create_table_curve(
     n: usize,
     tf: &JxlTransferFunction,
     tone_map: bool,
-) -> Result<Vec<f32>, Error> {
+) -> Result<Vec<u16>, Error> {
     // ICC Specification (v4.4, section 10.6) for `curveType` with `curv`
     // processing elements states the table can have at most 4096 entries.
     if n > 4096 {
@@ -1716,9 +1732,8 @@ fn create_table_curve(
         let y = match tf {
             JxlTransferFunction::HLG => TF_HLG::display_from_encoded(x),
             JxlTransferFunction::PQ => {
-                // For PQ, the output of the EOTF is absolute luminance, so we
-                // normalize it back to [0, 1] relative to the peak luminance.
-                display_from_encoded_pq(PQ_INTENSITY_TARGET as f32, x) / PQ_INTENSITY_TARGET
+                // The output is relative to the peak luminance, i.e. in [0, 1].
+                display_from_encoded_pq(PQ_INTENSITY_TARGET as f32, x)
             }
             _ => unreachable!(), // Already checked above.
         };
@@ -1738,8 +1753,7 @@ fn create_table_curve(
         // particularly important for HLG, which can exceed 1.0.
         let y_clamped = y.clamp(0.0, 1.0);
 
-        // table.push((y_clamped * 65535.0).round() as u16);
-        table.push(y_clamped as f32);
+        table.push((y_clamped * 65535.0).round() as u16);
     }
 
     Ok(table)
-- 
2.43.0


From 805f21ce9a2d8ea7ed2199f9a264da0f84cfb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 50/56] fix: opaque alpha of big-endian formats had its bytes
 swapped twice

The constant alpha row was stored in the endianness of the output format
and then converted again when saved.
---
 jxl/src/api/data_types.rs                 | 12 ++++++++++++
 jxl/src/render/low_memory_pipeline/mod.rs |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 01c88f7..86f764a 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -110,6 +110,18 @@ impl JxlDataFormat {
         }
     }
 
+    /// The same format, in native endianness.
+    pub(crate) fn with_native_endianness(&self) -> Self {
+        let mut format = *self;
+        match &mut format {
+            Self::U8 { .. } => {}
+            Self::U16 { endianness, .. } | Self::F16 { endianness } | Self::F32 { endianness } => {
+                *endianness = Endianness::native()
+            }
+        }
+        format
+    }
+
     /// Returns the byte representation of opaque alpha (1.0) for this format.
     pub(crate) fn opaque_alpha_bytes(&self) -> Vec<u8> {
         match self {
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 5ad08d8..bb0002f 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -298,7 +298,8 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
                     let row_len = max_area_width(&shared, border_size).shrc(dx);
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    // Row buffers are in native endianness; saving them converts it.
+                    let fill_pattern = s.data_format.with_native_endianness().opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
                     opaque_alpha_buffers.push(Some(buf));
-- 
2.43.0


From 8515c6af93eff6f3163bbebe63c0f8e338d5b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 51/56] fix: premultiply all colour channels of grayscale
 images output as RGBA

---
 jxl/src/frame/render.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 2f9e939..e7ed20c 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -883,9 +883,10 @@ impl Frame {
             if let Some(df) = &pixel_format.color_data_format {
                 // Add premultiply stage if needed (before conversion to output format)
                 if should_premultiply && let Some(alpha_channel) = alpha_in_color {
+                    // Alpha comes last; grayscale images may be saved as three channels.
                     pipeline = pipeline.add_inplace_stage(PremultiplyAlphaStage::new(
                         0,
-                        num_color_channels,
+                        color_source_channels.len() - 1,
                         alpha_channel,
                     ));
                 }
-- 
2.43.0


From 0df5a105b4b86766b76336f5924338bc07ecd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 52/56] fix: animated PNG files were invalid

The stream writers of the png crate wrote every frame as IDAT chunks and
left gaps in the sequence numbers; each frame is now written whole.
---
 jxl_cli/src/enc/png.rs | 63 +++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/jxl_cli/src/enc/png.rs b/jxl_cli/src/enc/png.rs
index 36ad9e1..ebf27b1 100644
--- a/jxl_cli/src/enc/png.rs
+++ b/jxl_cli/src/enc/png.rs
@@ -167,51 +167,34 @@ pub fn to_png<Writer: Write>(
     }
     let mut writer = encoder.write_header()?;
 
-    if eight_bits {
-        for frame in &image_data.frames {
-            if animated {
-                let (delay_num, delay_den) = calculate_apng_delay(frame.duration)?;
-                writer.set_frame_delay(delay_num, delay_den)?;
-            }
-            let mut ww = writer.stream_writer()?;
-            let chan = if let Some(p) = partial_render {
-                &frame.partial_renders[p][0]
-            } else {
-                &frame.channels[0]
-            };
-            for y in 0..height {
-                ww.write_all(chan.row(y))?;
-            }
+    // Frames are written whole: a stream writer does not number the chunks of animations correctly.
+    let row_bytes = width * num_channels * if eight_bits { 1 } else { 2 };
+    let mut buffer: Vec<u8> = Vec::with_capacity(row_bytes * height);
+    for frame in &image_data.frames {
+        if animated {
+            let (delay_num, delay_den) = calculate_apng_delay(frame.duration)?;
+            writer.set_frame_delay(delay_num, delay_den)?;
         }
-    } else {
-        // 16-bit
-        let mut buffer: Vec<u8> = vec![0; 2 * width * num_channels];
-        for frame in &image_data.frames {
-            if animated {
-                let (delay_num, delay_den) = calculate_apng_delay(frame.duration)?;
-                writer.set_frame_delay(delay_num, delay_den)?;
-            }
-            let mut ww = writer.stream_writer()?;
-            let chan = if let Some(p) = partial_render {
-                &frame.partial_renders[p][0]
+        let chan = if let Some(p) = partial_render {
+            &frame.partial_renders[p][0]
+        } else {
+            &frame.channels[0]
+        };
+        buffer.clear();
+        for y in 0..height {
+            let row = chan.row(y);
+            if eight_bits || cfg!(target_endian = "big") {
+                buffer.extend_from_slice(row);
             } else {
-                &frame.channels[0]
-            };
-            for y in 0..height {
-                let row = chan.row(y);
-                if cfg!(target_endian = "big") {
-                    ww.write_all(row)?;
-                } else {
-                    for x in 0..width * num_channels {
-                        buffer[x * 2..][..2].copy_from_slice(
-                            &u16::from_ne_bytes(row[x * 2..][..2].try_into().unwrap())
-                                .to_be_bytes(),
-                        );
-                    }
-                    ww.write_all(&buffer)?;
+                for sample in row.chunks_exact(2) {
+                    buffer.extend_from_slice(
+                        &u16::from_ne_bytes(sample.try_into().unwrap()).to_be_bytes(),
+                    );
                 }
             }
         }
+        writer.write_image_data(&buffer)?;
     }
+    writer.finish()?;
     Ok(())
 }
-- 
2.43.0


From 5c998c867c69e51d73fed60a5f9a6541075f405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 53/56] fix: jxl_cli --preview failed unless the preview had
 the size of the image

---
 jxl_cli/src/dec/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/jxl_cli/src/dec/mod.rs b/jxl_cli/src/dec/mod.rs
index 3d36604..0c92f8d 100644
--- a/jxl_cli/src/dec/mod.rs
+++ b/jxl_cli/src/dec/mod.rs
@@ -164,10 +164,13 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
 ) -> Result<(DecodeOutput, Duration)> {
     let start = Instant::now();
 
+    let skip_preview = decoder_options.skip_preview;
     let mut decoder_with_image_info = decode_header(input, render_interval, decoder_options)?;
 
     // Get info and clone what we need before mutating the decoder
     let info = decoder_with_image_info.basic_info().clone();
+    // The preview, if it is not skipped, is the first frame and has its own size
+    let mut preview_size = info.preview_size.filter(|_| !skip_preview);
     let embedded_profile = decoder_with_image_info.embedded_color_profile().clone();
 
     let output_type = if let Some(ot) = requested_output_type
@@ -230,7 +233,7 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
         let (_out_chans, mut transformers) = cms
             .initialize_transforms(
                 1,
-                info.size.0,
+                info.size.0.max(preview_size.map_or(0, |s| s.0)),
                 output_profile.clone(),
                 target_profile.clone(),
                 255.0,
@@ -262,7 +265,7 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
     };
 
     'frame: loop {
-        let image_size = info.size;
+        let image_size = preview_size.take().unwrap_or(info.size);
         let byte_size = (
             image_size.0 * output_type.bits_per_sample() / 8,
             image_size.1,
@@ -405,8 +408,6 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
                 color_channels,
                 output_type,
                 transformer.as_mut(),
-                info.size.0,
-                info.size.1,
             )?;
             for partial in &mut frame.partial_renders {
                 apply_cms(
@@ -415,8 +416,6 @@ pub fn decode_frames<In: JxlBitstreamInputExt>(
                     color_channels,
                     output_type,
                     transformer.as_mut(),
-                    info.size.0,
-                    info.size.1,
                 )?;
             }
         }
@@ -431,9 +430,9 @@ fn apply_cms(
     color_channels: usize,
     output_type: OutputDataType,
     transformer: &mut dyn jxl_cms::JxlCmsTransformer,
-    width: usize,
-    height: usize,
 ) -> Result<()> {
+    let (byte_width, height) = image.byte_size();
+    let width = byte_width * 8 / (output_type.bits_per_sample() * samples_per_pixel);
     let mut row_color_buffer = vec![0.0f32; width * color_channels];
     let mut row_output_buffer = vec![0.0f32; width * color_channels];
     for y in 0..height {
-- 
2.43.0


From 4cb228d11cfe637e7ab1776b14033ea3684f53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 54/56] fix: jxl_cli reported success when writing the end of
 the output failed

---
 jxl_cli/src/enc/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl_cli/src/enc/mod.rs b/jxl_cli/src/enc/mod.rs
index d15e0ff..4c56a88 100644
--- a/jxl_cli/src/enc/mod.rs
+++ b/jxl_cli/src/enc/mod.rs
@@ -4,7 +4,7 @@
 // license that can be found in the LICENSE file.
 
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 use color_eyre::eyre::{Result, eyre};
@@ -88,7 +88,8 @@ impl OutputFormat {
                         image_data,
                         &mut writer,
                         if i < num_partials { Some(i) } else { None },
-                    )?
+                    )?;
+                    writer.flush()?;
                 }
             }
         }
@@ -101,6 +102,7 @@ impl OutputFormat {
             #[cfg(feature = "exr")]
             Self::Exr => exr::to_exr(image_data, &mut writer)?,
         };
+        writer.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From a4612bcdcf2c8c23563f08e6e5b079ee93074447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 55/56] fix: unused import in the header parser

---
 jxl/src/api/inner/codestream_parser/image_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index e22d235..7f0e23b 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -10,7 +10,7 @@ use crate::api::{
     JxlDataFormat, JxlDecoderOptions, JxlExtraChannel, JxlPixelFormat, ToneMapping,
 };
 use crate::bit_reader::BitReader;
-use crate::error::{Error, Result};
+use crate::error::Result;
 use crate::headers::color_encoding::ColorSpace;
 use crate::headers::{FileHeader, JxlHeader};
 use crate::icc::IncrementalIccReader;
-- 
2.43.0


From aa1f3d8aae115e3061a92ee1199419b0aefe07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 56/56] fix: render groups with noise when another group
 completes their colour

---
 jxl/src/frame/render.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index e7ed20c..5e96119 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -380,6 +380,20 @@ impl Frame {
                     gr.remove(g);
                 }
                 gr
+            } else if self.header.encoding == Encoding::Modular && self.header.has_noise() {
+                // The colour of a Modular group can be completed by the data of another group, in
+                // which case only its noise is still missing.
+                let status = &self.group_status;
+                status
+                    .need_vardct_flush
+                    .iter()
+                    .copied()
+                    .filter(|g| {
+                        status.colour_complete(*g)
+                            && !status.final_vardct_render_done.contains(g)
+                            && !groups.iter().any(|(x, _)| x == g)
+                    })
+                    .collect()
             } else {
                 BTreeSet::new()
             };
-- 
2.43.0

