From e7483dd281b2b521c5b4170021f6cb96f2d65d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 01/32] hook: expose private collections and math to
 verification harnesses under cfg(adhoc_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9625ce4..ad58918 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,5 +88,13 @@ pub mod codec;
 mod collections;
 mod math;
 
+/// access to internals for external verification harnesses, never part of a normal build
+#[cfg(adhoc_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::collections::*;
+    pub use crate::math::*;
+}
+
 pub use codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
 pub use std::io::SeekFrom;
-- 
2.43.0


From c95f9e4962cec3af17781a8548f486bf757093a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 02/32] fix: bits left over in the next chunk leaked into
 values written across a chunk boundary

---
 src/collections/bitstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..c26833b 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,8 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
+            //clear, everything from here on is "free space"
+            self.binary[nxt_chunk_idx] = 0;
             //write
             self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
         }
-- 
2.43.0


From d99492a1f9632d21140e7de03b92c90e99db6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 03/32] fix: rice coding of values near the ends of the i16
 range overflowed

---
 src/collections/bitstream.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index c26833b..e789438 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -282,8 +282,10 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        //i16::MIN has no i16 magnitude
+        let magnitude = entropy.unsigned_abs() as u32;
+        let mut quotient = magnitude >> exponent;
+        let remainder = magnitude & ((1 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -314,17 +316,17 @@ impl BitStream {
         //zero bit denotes end of unary value
         self.write_bit(0);
         //write remainder
-        self.write_bits(remainder as u32, remainder_size_in_bits)
+        self.write_bits(remainder, remainder_size_in_bits)
     }
 
     pub fn read_compressed(&mut self, exponent: i16) -> i16 {
         //write sign bit
         let sign_bit = self.read_bit() as i16;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
+        let divisor = 1u16 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0u16;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -334,7 +336,7 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -345,12 +347,16 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient = quotient.wrapping_add(zero_bit_pos as u16);
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as u16;
+        let magnitude = divisor.wrapping_mul(quotient).wrapping_add(remainder) as i16;
+        if sign_bit == 1 {
+            magnitude.wrapping_neg()
+        } else {
+            magnitude
+        }
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From 37ba3b08c08048548ba4d79fca6847f6be780f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 04/32] fix: nibble list mixed pushed values with stale or
 neighbouring nibbles

---
 src/collections/nibble_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..8b21bed 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -35,7 +35,9 @@ impl NibbleList {
         if block_idx >= self.data.len() {
             self.data.push(0);
         }
-        self.data[block_idx] |= val << 4 * (nibble_idx);
+        //the slot may hold a nibble from before a clear()
+        self.data[block_idx] &= !(0x0f << 4 * (nibble_idx));
+        self.data[block_idx] |= (val & 0x0f) << 4 * (nibble_idx);
         self.nibble_count += 1;
     }
 
@@ -55,7 +57,7 @@ impl NibbleList {
             return;
         }
         self.data[block_idx] &= (0x0f * nibble_idx) | (0xf0 * (1 - nibble_idx));
-        self.data[block_idx] |= val << 4 * (nibble_idx);
+        self.data[block_idx] |= (val & 0x0f) << 4 * (nibble_idx);
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 0cb28eeb7314ffd858a037bdda315aa2653a3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 05/32] fix: frames of an earlier, longer recording survived
 re-encoding into the same codec

---
 src/codec/adhoc/frame.rs       | 25 +++++++++++++------------
 src/collections/bitvec.rs      |  9 +++++++++
 src/collections/nibble_list.rs |  9 +++++++++
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..00cbde4 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -95,20 +95,21 @@ impl FrameHeaders {
         let header_cursor = self.header_cursor as usize;
         let is_init = is_init as u64;
 
-        if header_cursor >= self.divisor_exp_list.len() {
-            self.divisor_exp_list.push(exponent);
-            self.frame_size_list.push(num_samples);
-            self.bit_cursor_list.push(bit_cursor as u64);
-            self.is_init_frame_list.push(is_init);
-            self.stack_history_list.push(stack_history);
-        } else {
-            self.divisor_exp_list.set(header_cursor, exponent);
-            self.is_init_frame_list.set(header_cursor, is_init);
-            self.frame_size_list[header_cursor] = num_samples;
-            self.bit_cursor_list[header_cursor] = bit_cursor as u64;
-            self.stack_history_list[header_cursor] = stack_history;
+        //frames past the cursor describe a stream that is being overwritten
+        if header_cursor < self.divisor_exp_list.len() {
+            self.divisor_exp_list.truncate(header_cursor);
+            self.is_init_frame_list.truncate(header_cursor);
+            self.frame_size_list.truncate(header_cursor);
+            self.bit_cursor_list.truncate(header_cursor);
+            self.stack_history_list.truncate(header_cursor);
         }
 
+        self.divisor_exp_list.push(exponent);
+        self.frame_size_list.push(num_samples);
+        self.bit_cursor_list.push(bit_cursor as u64);
+        self.is_init_frame_list.push(is_init);
+        self.stack_history_list.push(stack_history);
+
         self.header_cursor += 1;
     }
 
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..b37aa44 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,15 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    /// # Description
+    /// drops every bit from `len` onwards
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.bit_cursor = len as u128;
+            self.binary.truncate((len + 63) / 64);
+        }
+    }
+
     /// # Description
     /// return number of bits written to vector
     pub fn len(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 8b21bed..61fb04d 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -64,6 +64,15 @@ impl NibbleList {
         self.nibble_count = 0;
     }
 
+    /// # Description
+    /// drops every nibble from `len` onwards
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.nibble_count = len as u32;
+            self.data.truncate((len + 1) / 2);
+        }
+    }
+
     pub fn iter<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
         (0..self.len()).map(move |idx| self.get(idx))
     }
-- 
2.43.0


From 5d59f5211f3aed45a22c1736211f12488884fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 06/32] fix: residuals beyond the i16 range were clamped,
 leaving the decoder out of step for the rest of the stream

---
 src/codec/adhoc/frame.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 00cbde4..f55753b 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -241,9 +241,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around instead of clamping, so that the decoder can always undo it
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -278,9 +277,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around instead of clamping, so that the decoder can always undo it
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -327,10 +325,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrap around of the encoder
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -354,10 +350,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrap around of the encoder
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -387,7 +381,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
-- 
2.43.0


From e88d4691bc891f1d74689f4d1184a6c58af3a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 07/32] fix: a first frame of fewer than 3 samples per channel
 panicked, and empty input wrote empty frames

---
 src/codec/adhoc.rs       |  5 +++++
 src/codec/adhoc/frame.rs | 19 +++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..0cbfa09 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -218,6 +218,11 @@ impl AdhocCodec {
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
+        //a frame without samples carries nothing
+        if num_chunks == 0 {
+            return;
+        }
+
         //controls the 'strength'/'influence' of dithering
         const DITHER_AMPLITUDE: f32 = 0.001;
 
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index f55753b..a814ab2 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -208,14 +208,17 @@ impl FrameCodec {
 
                 // write first three samples into the stream
                 // and also record then in the history queue
-                for k in 0..3 {
+                // (a shorter frame is stored raw, and the next one starts over)
+                let num_raw = pcm.len().min(3);
+                for k in 0..num_raw {
                     let samp = pcm[k];
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let divisor_exp =
+                    Self::compute_optimal_divisor_exponent(sample_history, &pcm[num_raw..]);
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -230,7 +233,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm[num_raw..].iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -249,7 +252,9 @@ impl FrameCodec {
                     sample_history.push(current);
                 }
                 // println!("MAX ENTROPY={}", max_entropy);
-                self.state = CodecState::Encoding;
+                if num_raw == 3 {
+                    self.state = CodecState::Encoding;
+                }
             }
             CodecState::Encoding => {
                 let divisor_exp = Self::compute_optimal_divisor_exponent(&sample_history, &pcm[..]);
@@ -302,7 +307,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
@@ -334,7 +339,9 @@ impl FrameCodec {
                         samples_read += 1;
                     }
 
-                    self.state = CodecState::Decoding;
+                    if num_samples_pre_read == 3 {
+                        self.state = CodecState::Decoding;
+                    }
                     samples_read
                 }
                 CodecState::Decoding => {
-- 
2.43.0


From 86b0f9310d0e8d274d369255e8b3f5d3bac87413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 08/32] fix: samples of an earlier recording leaked into the
 prediction after init() and seek()

---
 src/codec/adhoc.rs       | 11 +++++++----
 src/codec/adhoc/frame.rs |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0cbfa09..a9e9ff1 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -401,10 +401,13 @@ impl Streamable for AdhocCodec {
 
                     //make sure stack history from the header is transferred to state
                     // 0..3 because sample history is supposed to have 3 samples
-                    for k in 0..3 {
-                        channel_state_list[offset]
-                            .sample_history_mut()
-                            .push(header.stack_history[k]);
+                    // (an init frame carries its own)
+                    if !header.is_init {
+                        for k in 0..3 {
+                            channel_state_list[offset]
+                                .sample_history_mut()
+                                .push(header.stack_history[k]);
+                        }
                     }
 
                     //make sure buffers are clear
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index a814ab2..09169db 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -187,6 +187,7 @@ impl FrameCodec {
 
     pub fn init(&mut self) {
         self.state = CodecState::Init;
+        self.sample_history = CircularStack::new();
         self.buffered_channel.clear();
     }
 
-- 
2.43.0


From 4013ccb7a52a18eb86734105e415cb7dd34c36bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 09/32] fix: encode() calls of more than 65535 samples per
 channel wrapped the 16 bit frame size

---
 src/codec/adhoc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index a9e9ff1..bf3e49b 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -223,6 +223,14 @@ impl AdhocCodec {
             return;
         }
 
+        //a frame header counts its samples with 16 bits
+        if num_chunks > u16::MAX as usize {
+            interleaved_pcm
+                .chunks(u16::MAX as usize * num_channels)
+                .for_each(|pcm| self.encode(pcm));
+            return;
+        }
+
         //controls the 'strength'/'influence' of dithering
         const DITHER_AMPLITUDE: f32 = 0.001;
 
-- 
2.43.0


From 720a37d8b02995b52a513feb356846891ea59eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 10/32] fix: encode() reported a partial chunk it does not
 encode

---
 src/codec/adhoc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index bf3e49b..4416b6e 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -334,7 +334,9 @@ impl Streamable for AdhocCodec {
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
         self.encode(samples);
 
-        Some(samples.len())
+        //a partial chunk at the end isn't encoded
+        let num_channels = self.info().channels();
+        Some((samples.len() / num_channels) * num_channels)
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From 9b66fda957c9552d8d50372524ca3ccdd29ad4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 11/32] fix: decode() scaled the part of the buffer it had not
 filled

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4416b6e..bb88cab 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -313,7 +313,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From 41be65f9ab1af5469d400bcc50bb70bc6f0eb900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 12/32] fix: filesize_upperbound() left out lengths that
 save_to() writes

---
 src/codec/adhoc.rs       | 8 +++++---
 src/codec/adhoc/frame.rs | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index bb88cab..c5a73fa 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -104,12 +104,14 @@ impl AdhocCodec {
                 compression_level_bits 
         */
         let audio_stream_header =         
-            //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            //number of bits AudioStream need to store info, and whether it has any
+            mem::size_of::<StreamInfo>() as u64 * 8 + 8;
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
           //streams internal cursor + capacity 
-          128*2 ;
+          128*2 +
+          //length of the stream
+          64;
 
 
         let audio_stream_bits = audio_stream_header + bitstream;
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 09169db..95cf970 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -44,8 +44,8 @@ impl FrameHeaders {
         let len = self.len() as u64;
 
         //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //written out, with its default options that is an u64
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From af301e7085e990e1c55b4e52e05049d9ac9be693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 13/32] fix: seeking past the end of the stream panicked

---
 src/codec/adhoc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index c5a73fa..c38a9d4 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -368,7 +368,7 @@ impl Streamable for AdhocCodec {
         match dt {
             SeekFrom::Start(dt) => {
                 let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
@@ -392,6 +392,12 @@ impl Streamable for AdhocCodec {
                     header_block_index += 1;
                 }
 
+                //nothing to decode past the end
+                if header_block_index >= header_block_len {
+                    frame_header_list.set_cursor(frame_header_list.len() as u32);
+                    return;
+                }
+
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
                 let start_header = frame_header_list
-- 
2.43.0


From 75ac5d9ed0d73b26657f8ab2d794b6b683c95bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 14/32] fix: load() accepted files that make it or decode()
 panic

---
 src/codec/adhoc.rs       |  8 +++++++-
 src/codec/adhoc/frame.rs | 10 ++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index c38a9d4..f17ad89 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -196,8 +196,14 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                let is_valid = slim.compression_level <= 10
+                    && (1..=u16::MAX as u32).contains(&info.channels)
+                    && slim.frame_header_list.is_consistent();
+                if !is_valid {
+                    return None;
+                }
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 95cf970..851a6f7 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -138,6 +138,16 @@ impl FrameHeaders {
         self.divisor_exp_list.len()
     }
 
+    /// # Description
+    /// every frame has to have an entry in every list
+    pub(crate) fn is_consistent(&self) -> bool {
+        let len = self.len();
+        self.is_init_frame_list.len() == len
+            && self.frame_size_list.len() == len
+            && self.bit_cursor_list.len() == len
+            && self.stack_history_list.len() == len
+    }
+
     pub fn reset(&mut self) {
         self.header_cursor = 0;
     }
-- 
2.43.0


From 3ca4e69b854a47cb644b5f42c373af855ef499e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 15/32] fix: a short write cut the wav header without an error

---
 src/codec/wav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..1ea14d2 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -124,7 +124,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")
-- 
2.43.0


From eb67f90cdbf4a89b741baf64f75f9ee6a7e20172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 16/32] fix: wav files smaller than 256 bytes were rejected,
 and a late data tag panicked

---
 src/codec/wav.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 1ea14d2..3e50419 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -135,12 +135,19 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
+        let mut header_binary = Vec::new();
 
+        //the whole file may be smaller than that
         wav_res
-            .read_exact(&mut header_binary)
+            .by_ref()
+            .take(256)
+            .read_to_end(&mut header_binary)
             .map_err(|_| "failed to read header bytes")?;
 
+        if header_binary.len() < mem::size_of::<RawWavHeader>() {
+            return Err("failed to read header bytes");
+        }
+
         let mut header_slice = &header_binary[..];
         let mut header = RawWavHeader::default();
 
@@ -153,6 +160,7 @@ impl WavCodec {
                 let number = [b'd', b'a', b't', b'a'];
                 window == &number
             })
+            .filter(|(data_start, _)| data_start + 8 <= header_binary.len())
             .ok_or("data region not found")?;
 
         header_slice
-- 
2.43.0


From a80b88b1e1e2a173c3a0771ac2f168e8dcb8333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 17/32] fix: chunks following the data chunk were decoded as
 audio

---
 src/codec/wav.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 3e50419..b1e766a 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -200,6 +200,7 @@ impl WavCodec {
 
         let mut pcm = Vec::<u8>::new();
         wav_res
+            .take(header.file_size_data as u64)
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
-- 
2.43.0


From 6fdf7933060495c542fb4e89c9c9b7658d5bec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 18/32] fix: wav files without channels or with a partial last
 block broke decode()

---
 src/codec/wav.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index b1e766a..e597c8f 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -191,6 +191,10 @@ impl WavCodec {
             return Err("formats other than PCM liner isn't supported");
         }
 
+        if header.num_channels < 1 {
+            return Err("invalid number of channels");
+        }
+
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
 
@@ -218,6 +222,10 @@ impl WavCodec {
             }
         }
 
+        //drop a partial block at the end
+        let block_len = header.num_channels as usize * 2;
+        pcm.truncate((pcm.len() / block_len) * block_len);
+
         // println!("header:\n{}\n", header);
 
         Ok(Self {
-- 
2.43.0


From 5ac3fcd7ba8d475ec7eafbfa871fe6d6062e8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 19/32] fix: decode() made an i16 slice of unaligned bytes,
 which panics in debug builds for an empty stream

---
 src/codec/wav.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index e597c8f..b9d956e 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -242,10 +242,6 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
     #[allow(dead_code)]
     fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
         unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
@@ -296,13 +292,14 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
+        let pcm = &self.pcm;
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let byte_index = (*cursor as usize) << 1;
+            let sample_i16 = i16::from_le_bytes([pcm[byte_index], pcm[byte_index + 1]]);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From 1c541e6605041dc0a0e18388bfc0ed6a0fe48b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 20/32] fix: wav seek() from the end started at 0, and past the
 end it stopped inside the last block or panicked

---
 src/codec/wav.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index b9d956e..2678881 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -316,24 +316,19 @@ impl Streamable for WavCodec {
 
         let sample_rate_in_milliseconds = sample_rate / 1000.0;
 
-        match dt {
+        let (block_index, dt) = match dt {
             SeekFrom::Current(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
                 let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                (block_index, dt as f32)
             }
-            SeekFrom::Start(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::End(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-        }
+            SeekFrom::Start(dt) => (0, dt as f32),
+            SeekFrom::End(dt) => (num_samples, dt as f32),
+        };
+
+        let sample_offset = (sample_rate_in_milliseconds * dt) as i64;
+        self.short_cursor = block_index
+            .saturating_add(sample_offset.saturating_mul(num_channels))
+            .clamp(0, num_samples) as u64;
     }
 }
 
-- 
2.43.0


From 73cedb00e472c963caf74a29805b281b425424e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 21/32] fix: truncation moved 16-bit samples by one step on
 every trip through f32

---
 src/codec.rs             | 5 +++++
 src/codec/adhoc/frame.rs | 8 ++++----
 src/codec/wav.rs         | 4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index fcf0ae4..37d1af0 100755
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -26,6 +26,11 @@ fn truncate_sample(samp: f32) -> i16 {
     (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)) as i16
 }
 
+/// nearest 16-bit value of an input sample, so that 16-bit audio survives the trip through f32
+fn quantize_sample(samp: f32) -> i16 {
+    (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)).round() as i16
+}
+
 #[derive(Copy, Clone, Default, Serialize, Deserialize)]
 /// A POD that contains basic information about an audio signal
 /// ## Comments
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 851a6f7..2e81368 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -223,7 +223,7 @@ impl FrameCodec {
                 let num_raw = pcm.len().min(3);
                 for k in 0..num_raw {
                     let samp = pcm[k];
-                    let truncated = truncate_sample(samp);
+                    let truncated = quantize_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
@@ -245,7 +245,7 @@ impl FrameCodec {
 
                 //entropy encode
                 for &sample in pcm[num_raw..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -283,7 +283,7 @@ impl FrameCodec {
                 });
 
                 for &sample in pcm[..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -391,7 +391,7 @@ impl FrameCodec {
         let mut parabola = FixedParabola::new();
         let mut sample_history = sample_history_ref.clone();
         for &sample in remaining_samples.iter() {
-            let current = truncate_sample(sample);
+            let current = quantize_sample(sample);
             parabola.f = [
                 normalize_sample(sample_history.prev(3)),
                 normalize_sample(sample_history.prev(2)),
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 2678881..82cdd22 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -5,7 +5,7 @@ use std::{
     slice, str,
 };
 
-use super::{normalize_sample, truncate_sample, StreamInfo, Streamable};
+use super::{normalize_sample, quantize_sample, StreamInfo, Streamable};
 
 #[derive(Debug)]
 #[repr(C, align(1))]
@@ -281,7 +281,7 @@ impl Streamable for WavCodec {
         let num_channels = self.info.channels();
         let valid_len = (samples.len() / num_channels) * num_channels;
         for &samp in &samples[0..valid_len] {
-            let sample_i16 = truncate_sample(samp);
+            let sample_i16 = quantize_sample(samp);
             self.write_sample(sample_i16);
         }
         Some(valid_len)
-- 
2.43.0


From edf9381438123eee59a8adbcf0407245281b1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 22/32] fix: wav load() took the first 'data' in the header for
 the data chunk, even inside another chunk or field

---
 src/codec/wav.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 82cdd22..38fa5a3 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -153,14 +153,14 @@ impl WavCodec {
 
         // println!("buffer size ={}", wav_binary.len());
 
-        let (data_start, _) = header_binary
-            .windows(4)
-            .enumerate()
-            .find(|(_, window)| {
-                let number = [b'd', b'a', b't', b'a'];
-                window == &number
+        //other chunks may hold the same four letters, so go from chunk to chunk first
+        let data_start = Self::find_data_chunk(&header_binary)
+            .or_else(|| {
+                header_binary
+                    .windows(4)
+                    .position(|window| window == &[b'd', b'a', b't', b'a'])
             })
-            .filter(|(data_start, _)| data_start + 8 <= header_binary.len())
+            .filter(|data_start| data_start + 8 <= header_binary.len())
             .ok_or("data region not found")?;
 
         header_slice
@@ -238,6 +238,21 @@ impl WavCodec {
         })
     }
 
+    /// position of the data chunk, in a file where every chunk has the size it says
+    fn find_data_chunk(header_binary: &[u8]) -> Option<usize> {
+        //the first chunk comes after "RIFF", the file size and "WAVE"
+        let mut start = 12usize;
+        while let Some(chunk) = header_binary.get(start..start.checked_add(8)?) {
+            if &chunk[0..4] == b"data" {
+                return Some(start);
+            }
+            let size = u32::from_le_bytes([chunk[4], chunk[5], chunk[6], chunk[7]]) as usize;
+            //chunks are padded to an even size
+            start = start.checked_add(8)?.checked_add(size)?.checked_add(size & 1)?;
+        }
+        None
+    }
+
     fn num_samples(&self) -> usize {
         self.pcm.len() / 2
     }
-- 
2.43.0


From 5c766789fa74f2adb4d3a4728cf2864df101e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 23/32] fix: reading past the end of the stream could panic,
 and grew the stream

---
 src/collections/bitstream.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index e789438..5731a4d 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -151,18 +151,13 @@ impl BitStream {
         let nxt_chunk_idx = cur_chunk_idx + 1;
         let chunk_bit_idx = self.chunk_bit_index();
 
-        self.allocate_if_needed(cur_chunk_idx);
-        self.allocate_if_needed(nxt_chunk_idx);
-
-        // return 0 if oob
-        if cur_chunk_idx >= self.binary.len() {
-            return 0;
-        }
+        // bits that are oob read as 0
+        let chunk_at = |idx: usize| self.binary.get(idx).copied().unwrap_or(0);
 
-        bits |= self.binary[cur_chunk_idx] >> chunk_bit_idx;
+        bits |= chunk_at(cur_chunk_idx) >> chunk_bit_idx;
         let remaining_bits = 128 - chunk_bit_idx;
         if remaining_bits < bits_to_be_read {
-            bits |= self.binary[nxt_chunk_idx] << remaining_bits
+            bits |= chunk_at(nxt_chunk_idx) << remaining_bits
         }
 
         bits & mask
-- 
2.43.0


From b4eb094387f247db3a6a7108498597275e0acc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 24/32] fix: is_empty() of a sample history was true for a full
 one, false for an empty one

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From 311746a2a0c7561acc45afec31f132060756a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 25/32] fix: seek() of compressed streams rounded the position
 to f32, off by a sample or more

---
 src/codec/adhoc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index f17ad89..81d41c4 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -355,7 +355,7 @@ impl Streamable for AdhocCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let info = self.stream.info().expect("info not initalized");
         let channels = info.channels as u64;
-        let frequency_in_millis = info.sample_rate as f32 / 1000.0;
+        let sample_rate = info.sample_rate as u64;
 
         self.init();
 
@@ -373,7 +373,10 @@ impl Streamable for AdhocCodec {
 
         match dt {
             SeekFrom::Start(dt) => {
-                let offset = (frequency_in_millis * (dt as f32)) as u64;
+                // whole seconds and the rest apart, f32 is not exact enough for long streams
+                let offset = (dt / 1000)
+                    .saturating_mul(sample_rate)
+                    .saturating_add(dt % 1000 * sample_rate / 1000);
                 let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
-- 
2.43.0


From 0b889e897e59b531df0223a5df3f6b201e062d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 26/32] fix: wav seek() rounded the position to f32, off by a
 block or more

---
 src/codec/wav.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 38fa5a3..4f4a524 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -325,22 +325,23 @@ impl Streamable for WavCodec {
     }
 
     fn seek(&mut self, dt: SeekFrom) {
-        let sample_rate = self.info.sample_rate as f32;
+        let sample_rate = self.info.sample_rate as i64;
         let num_channels = self.info.channels() as i64;
         let num_samples = self.num_samples() as i64;
 
-        let sample_rate_in_milliseconds = sample_rate / 1000.0;
-
         let (block_index, dt) = match dt {
             SeekFrom::Current(dt) => {
                 let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                (block_index, dt as f32)
+                (block_index, dt)
             }
-            SeekFrom::Start(dt) => (0, dt as f32),
-            SeekFrom::End(dt) => (num_samples, dt as f32),
+            SeekFrom::Start(dt) => (0, dt.min(i64::MAX as u64) as i64),
+            SeekFrom::End(dt) => (num_samples, dt),
         };
 
-        let sample_offset = (sample_rate_in_milliseconds * dt) as i64;
+        // whole seconds and the rest apart, f32 is not exact enough for long streams
+        let sample_offset = (dt / 1000)
+            .saturating_mul(sample_rate)
+            .saturating_add(dt % 1000 * sample_rate / 1000);
         self.short_cursor = block_index
             .saturating_add(sample_offset.saturating_mul(num_channels))
             .clamp(0, num_samples) as u64;
-- 
2.43.0


From 1744a52bec3040f1859c8c8bdd3ffea2269a561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 27/32] fix: files of more than 1024 channels were converted to
 empty ones

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..d6eb5ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -112,7 +112,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    //room for one sample of every channel at least
+    let mut buffer = vec![0.0; parsed_wav.info().channels().max(1024)];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -138,7 +139,8 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    //room for one sample of every channel at least
+    let mut buffer = vec![0.0; src_adhoc.info().channels().max(1024)];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From d398a023aba6efd1b773a4c56d13403b0ec19bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 28/32] fix: converting 'a.b.wav' wrote 'a.adhoc', over the
 result of 'a.c.wav'

---
 src/main.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d6eb5ec..8c352c1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,6 +9,7 @@ use rayon::prelude::*;
 
 #[cfg(feature = "cli")]
 use std::{
+    ffi::{OsStr, OsString},
     fs::File,
     path::{Path, PathBuf},
 };
@@ -121,11 +122,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     let mut file_dest = PathBuf::from(output_dir);
     // println!("dest = {:?}",file_dest);
 
-    file_dest.push(file_name);
+    file_dest.push(with_extension(file_name, "adhoc"));
 
-    // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
-    
     // println!("final dest = {:?}",file_dest);
 
     compressed_wav.save_to(File::create(file_dest).ok()?);
@@ -147,10 +145,17 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     }
 
     let mut file_dest = PathBuf::from(output_dir);
-    file_dest.push(file_name);
-    file_dest.set_extension("wav");
+    file_dest.push(with_extension(file_name, "wav"));
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
     Some(())
 }
+
+/// adds the extension, whatever dots are in the name already
+fn with_extension(file_name: &OsStr, extension: &str) -> OsString {
+    let mut name = file_name.to_os_string();
+    name.push(".");
+    name.push(extension);
+    name
+}
-- 
2.43.0


From e514329bc8e7e501b125e62243566661bcfadb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 29/32] fix: a compressed file that could not be written
 counted as converted

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8c352c1..b2ae7a6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -126,7 +126,7 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
 
     // println!("final dest = {:?}",file_dest);
 
-    compressed_wav.save_to(File::create(file_dest).ok()?);
+    compressed_wav.save_to(File::create(file_dest).ok()?)?;
 
     Some(())
 }
-- 
2.43.0


From d32a578b757fcc1f9e42a2b3d05ea3f09aa07491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 30/32] fix: byte rate and block size of wav headers overflowed
 for many channels and high rates

---
 src/codec/wav.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 4f4a524..805cf47 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -119,8 +119,8 @@ impl WavCodec {
         header.audio_format = 1;
         header.num_channels = self.info.channels as i16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        header.bytes_per_sec = header.frequncy.wrapping_mul(header.num_channels as i32 * 2);
+        header.block_align = header.num_channels.wrapping_mul(2);
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-- 
2.43.0


From 21671570de9b7c10d9eb248cc3107c0c9b73f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 31/32] fix: wav files whose audio starts after the first 256
 bytes were refused

---
 src/codec/wav.rs | 56 ++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 805cf47..c937b30 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -148,19 +148,19 @@ impl WavCodec {
             return Err("failed to read header bytes");
         }
 
-        let mut header_slice = &header_binary[..];
+        let header_slice = &header_binary[..];
         let mut header = RawWavHeader::default();
 
         // println!("buffer size ={}", wav_binary.len());
 
         //other chunks may hold the same four letters, so go from chunk to chunk first
-        let data_start = Self::find_data_chunk(&header_binary)
+        let (data_start, data_len) = Self::find_chunk(&mut wav_res, b"data")
             .or_else(|| {
                 header_binary
-                    .windows(4)
-                    .position(|window| window == &[b'd', b'a', b't', b'a'])
+                    .windows(8)
+                    .position(|window| &window[0..4] == &[b'd', b'a', b't', b'a'])
+                    .map(|start| (start as u64 + 8, Self::chunk_size(&header_binary[start..])))
             })
-            .filter(|data_start| data_start + 8 <= header_binary.len())
             .ok_or("data region not found")?;
 
         header_slice
@@ -168,21 +168,8 @@ impl WavCodec {
             .read(header.as_bytes_mut())
             .map_err(|_| "header failed to read")?;
 
-        header
-            .data_header
-            .iter_mut()
-            .zip(header_slice[data_start..data_start + 4].iter())
-            .for_each(|(data_header_byte, &b)| {
-                *data_header_byte = b;
-            });
-
-        header_slice = &header_slice[data_start + 4..];
-        header.file_size_data = u32::from_le_bytes([
-            header_slice[0],
-            header_slice[1],
-            header_slice[2],
-            header_slice[3],
-        ]);
+        header.data_header = *b"data";
+        header.file_size_data = data_len;
 
         if header.bits_per_sample != 16 && header.bits_per_sample != 8 {
             return Err("invalid bits per sample, either 16 or 8 bits per sample is supported ");
@@ -199,7 +186,7 @@ impl WavCodec {
         // println!("pcm data = {} byles", wav_binary.len());
 
         wav_res
-            .seek(SeekFrom::Start(data_start as u64 + 8))
+            .seek(SeekFrom::Start(data_start))
             .map_err(|_| "failed to seek to pcm data")?;
 
         let mut pcm = Vec::<u8>::new();
@@ -238,19 +225,28 @@ impl WavCodec {
         })
     }
 
-    /// position of the data chunk, in a file where every chunk has the size it says
-    fn find_data_chunk(header_binary: &[u8]) -> Option<usize> {
+    /// position and size of what is in a chunk, in a file where every chunk has the size it says
+    fn find_chunk<Resource>(wav_res: &mut Resource, id: &[u8; 4]) -> Option<(u64, u32)>
+    where
+        Resource: Read + Seek,
+    {
         //the first chunk comes after "RIFF", the file size and "WAVE"
-        let mut start = 12usize;
-        while let Some(chunk) = header_binary.get(start..start.checked_add(8)?) {
-            if &chunk[0..4] == b"data" {
-                return Some(start);
+        let mut start = 12u64;
+        loop {
+            let mut chunk = [0u8; 8];
+            wav_res.seek(SeekFrom::Start(start)).ok()?;
+            wav_res.read_exact(&mut chunk).ok()?;
+            let size = Self::chunk_size(&chunk);
+            if &chunk[0..4] == id {
+                return Some((start + 8, size));
             }
-            let size = u32::from_le_bytes([chunk[4], chunk[5], chunk[6], chunk[7]]) as usize;
             //chunks are padded to an even size
-            start = start.checked_add(8)?.checked_add(size)?.checked_add(size & 1)?;
+            start += 8 + size as u64 + (size & 1) as u64;
         }
-        None
+    }
+
+    fn chunk_size(chunk: &[u8]) -> u32 {
+        u32::from_le_bytes([chunk[4], chunk[5], chunk[6], chunk[7]])
     }
 
     fn num_samples(&self) -> usize {
-- 
2.43.0


From 826ef53fac66ceff1fe4af8386c0914b490491e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 32/32] fix: wav files whose format is not the first chunk were
 refused or misread

---
 src/codec/wav.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index c937b30..4a07aff 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -168,6 +168,14 @@ impl WavCodec {
             .read(header.as_bytes_mut())
             .map_err(|_| "header failed to read")?;
 
+        //the format isn't always the first chunk
+        if let Some((start, _)) = Self::find_chunk(&mut wav_res, b"fmt ") {
+            wav_res
+                .seek(SeekFrom::Start(start))
+                .and_then(|_| wav_res.read_exact(&mut header.as_bytes_mut()[20..36]))
+                .map_err(|_| "failed to read format")?;
+        }
+
         header.data_header = *b"data";
         header.file_size_data = data_len;
 
-- 
2.43.0

