From 2fd4505f2c2f3ce230364044694beda369627967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 01/23] fix: write 32-bit fields correctly at a word boundary

---
 src/bits/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bits/mod.rs b/src/bits/mod.rs
index d30fbdd..11d9166 100644
--- a/src/bits/mod.rs
+++ b/src/bits/mod.rs
@@ -41,9 +41,14 @@ impl<W: WriteBytesExt> BitsWriter for BitsIOWriter<'_, W> {
         } else {
             new_bits -= 32;
 
-            self.write_stream.write_u32::<LittleEndian>(
-                (self.write_cache << (bits - new_bits)) | (x >> new_bits),
-            )?;
+            // an empty cache has nothing to contribute (and can't be shifted by 32 bits)
+            let cached = if self.index_bits == 0 {
+                0
+            } else {
+                self.write_cache << (bits - new_bits)
+            };
+            self.write_stream
+                .write_u32::<LittleEndian>(cached | (x >> new_bits))?;
 
             self.write_cache = x;
         }
-- 
2.43.0


From 447a42c589216355f4e4da75b2be6617e152764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 02/23] fix: split entropy codes that are longer than a word

---
 src/encode/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..c6159e1 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -18,7 +18,14 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
     } else {
         // encode x / 2^pot in unary followed by x % 2^pot in binary
-        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
+        let binary = (1 << (pot)) | (x & !(!0u32 << (pot)));
+        if y + 1 + pot <= 32 {
+            stream.put_bits(binary, y + 1 + pot)?;
+        } else {
+            // the code is longer than the word
+            stream.put_bits(0, y)?;
+            stream.put_bits(binary, 1 + pot)?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 39416c724cd0db92740d707e1634db47f4c0db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 03/23] fix: let lifting wrap around instead of overflowing on
 extreme samples

---
 src/lifting/cubic.rs  | 10 ++++++----
 src/lifting/linear.rs | 19 +++++++++++--------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/lifting/cubic.rs b/src/lifting/cubic.rs
index f6fc72b..3436cf8 100644
--- a/src/lifting/cubic.rs
+++ b/src/lifting/cubic.rs
@@ -45,7 +45,8 @@ unsafe fn horizontal_lifting_base(
     if column.len() > 3 * step {
         while x < column.len() - 3 * step {
             let c3 = *column.get_unchecked(3 * step + x);
-            *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c3) / divider) as i16;
+            let value = column.get_unchecked_mut(x);
+            *value = value.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
             c0 = c1;
             c1 = c2;
             c2 = c3;
@@ -53,7 +54,8 @@ unsafe fn horizontal_lifting_base(
         }
     }
     while x < column.len() {
-        *column.get_unchecked_mut(x) += (cubic(c0, c1, c2, c2) / divider) as i16;
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add((cubic(c0, c1, c2, c2) / divider) as i16);
         c0 = c1;
         c1 = c2;
         x += step * 2;
@@ -85,8 +87,8 @@ unsafe fn vertical_lifting_base(
             c2
         };
 
-        *chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x) +=
-            (cubic(c0, c1, c2, c3) / divider) as i16;
+        let value = chunks.middle.get_unchecked_mut(0).get_unchecked_mut(x);
+        *value = value.wrapping_add((cubic(c0, c1, c2, c3) / divider) as i16);
         x += step;
     }
 }
diff --git a/src/lifting/linear.rs b/src/lifting/linear.rs
index da486ed..b0ded63 100644
--- a/src/lifting/linear.rs
+++ b/src/lifting/linear.rs
@@ -27,19 +27,21 @@ unsafe fn horizontal_lifting_base(
     column: &mut [i16],
     step: usize,
     step_multiplier: usize,
-    divider: i16,
+    divider: i32,
 ) {
     let mut x = step * step_multiplier;
     while x < column.len() - step {
-        let a = *column.get_unchecked_mut(x - step);
-        let b = *column.get_unchecked_mut(x + step);
-        *column.get_unchecked_mut(x) += (a + b) / (divider * 2);
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let b = i32::from(*column.get_unchecked_mut(x + step));
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add(((a + b) / (divider * 2)) as i16);
         x += step * 2;
     }
 
     if x < column.len() {
-        *column.get_unchecked_mut(x) +=
-            (i32::from(*column.get_unchecked_mut(x - step)) / i32::from(divider)) as i16;
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let value = column.get_unchecked_mut(x);
+        *value = value.wrapping_add((a / divider) as i16);
     }
 }
 
@@ -61,7 +63,7 @@ unsafe fn vertical_lifting_base(
     middle: &mut [&mut [i16]],
     right: &[&mut [i16]],
     step: usize,
-    divider: i16,
+    divider: i32,
 ) {
     let middle_value = middle.get_unchecked_mut(0);
 
@@ -74,7 +76,8 @@ unsafe fn vertical_lifting_base(
             c1
         };
 
-        *middle_value.get_unchecked_mut(x) += (c1 + c2) / divider;
+        let value = middle_value.get_unchecked_mut(x);
+        *value = value.wrapping_add(((i32::from(c1) + i32::from(c2)) / divider) as i16);
 
         x += step;
     }
-- 
2.43.0


From ee731dc2c0a8c45cdb36a967574294a8f1288cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 04/23] fix: keep extreme coefficients and codes from
 overflowing the entropy coder

---
 src/encode/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index c6159e1..db824b0 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -54,14 +54,14 @@ pub fn interleaved_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) ->
 pub fn interleaved_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result<i32> {
     let x = unsigned_decode(stream, pot)? as i32;
     if (x & 1) != 0 {
-        Ok((x + 1) / 2)
+        Ok(x.wrapping_add(1) / 2)
     } else {
-        Ok(-x / 2)
+        Ok(x.wrapping_neg() / 2)
     }
 }
 
 pub fn signed_code(x: i32, stream: &mut impl bits::BitsWriter, pot: u32) -> io::Result<()> {
-    unsigned_code(x.abs() as u32, stream, pot)?;
+    unsigned_code(x.wrapping_abs() as u32, stream, pot)?;
     if x != 0 {
         stream.put_bits(if x > 0 { 1 } else { 0 }, 1)?;
     }
@@ -77,7 +77,7 @@ pub fn signed_decode(stream: &mut impl bits::BitsReader, pot: u32) -> io::Result
     } else if stream.get_bits(1)? != 0 {
         Ok(x)
     } else {
-        Ok(-x)
+        Ok(x.wrapping_neg())
     }
 }
 
@@ -86,7 +86,7 @@ pub fn square<T: num_traits::ops::wrapping::WrappingMul + Copy>(t: T) -> T::Outp
 }
 
 pub fn add_context(x: i16, w: i32, sum: &mut u32, sum2: &mut u32, count: &mut u32) {
-    let x = x.abs() as u32;
+    let x = i32::from(x).abs() as u32;
     *sum += x * w as u32;
     *sum2 += square(x.min(4096)) * w as u32;
     *count += w as u32;
@@ -199,7 +199,7 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        sum2.wrapping_mul(16).wrapping_add(count / 2) / count,
     )
 }
 
@@ -395,9 +395,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
@@ -456,9 +456,9 @@ pub fn decode(
                     s = get_s(&mut *stream, sum_sq, context, is_chroma)?;
 
                     if scheme == Encoder::Fast {
-                        let t = s.abs() as u32;
+                        let t = s.wrapping_abs() as u32;
                         context = (
-                            ((context.0 * 15 + 7) >> 4) + t,
+                            (context.0.wrapping_mul(15).wrapping_add(7) >> 4).wrapping_add(t),
                             ((context.1 * 15 + 7) >> 4) + square(t.min(4096)),
                         );
                         run_coder = get_run_coder_fast(context, s, run_coder);
@@ -467,7 +467,7 @@ pub fn decode(
                     }
                 }
                 if run == 0 && s <= 0 {
-                    s -= 1; // s can't be zero, so shift negatives by 1
+                    s = s.wrapping_sub(1); // s can't be zero, so shift negatives by 1
                 }
                 run = -1;
             } else {
-- 
2.43.0


From b79a9a2399436bdd077d6cdfec4f7293eb0b21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 05/23] fix: let colour transforms wrap around instead of
 overflowing on large factors

---
 src/color_transform/mod.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..70d09f0 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -316,15 +316,17 @@ impl ColorTransformProgram {
             for channel_factor in &channel_transform.channel_factors {
                 if is_channel_transformed[channel_factor.src_channel] {
                     for i in 0..channel_size {
-                        aux[dest_base + i] += aux[channel_factor.src_channel * channel_size + i]
-                            * channel_factor.factor as i16;
+                        let src = aux[channel_factor.src_channel * channel_size + i];
+                        aux[dest_base + i] = aux[dest_base + i]
+                            .wrapping_add(src.wrapping_mul(channel_factor.factor as i16));
                     }
                 } else {
-                    let boosted_factor = channel_factor.factor as i16 * boost;
+                    let boosted_factor = (channel_factor.factor as i16).wrapping_mul(boost);
                     let layer = channel_layer(channel_factor.src_channel, channels, channel_size);
                     for i in 0..channel_size {
-                        aux[dest_base + i] +=
-                            image[layer + i * channels_in_index].into() * boosted_factor;
+                        let src = image[layer + i * channels_in_index].into();
+                        aux[dest_base + i] =
+                            aux[dest_base + i].wrapping_add(src.wrapping_mul(boosted_factor));
                     }
                 }
             }
@@ -332,7 +334,9 @@ impl ColorTransformProgram {
             let layer = channel_layer(channel_transform.dest_channel, channels, channel_size);
             for i in 0..channel_size {
                 aux[dest_base + i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] += image[layer + i * channels_in_index].into() * boost;
+                aux[dest_base + i] = aux[dest_base + i].wrapping_add(
+                    image[layer + i * channels_in_index].into().wrapping_mul(boost),
+                );
             }
 
             is_channel_transformed[channel_transform.dest_channel] = true;
@@ -343,7 +347,8 @@ impl ColorTransformProgram {
                 let dest_base = channel * channel_size;
                 let layer = channel_layer(channel, channels, channel_size);
                 for i in 0..channel_size {
-                    aux[dest_base + i] = image[layer + i * channels_in_index].into() * boost;
+                    aux[dest_base + i] =
+                        image[layer + i * channels_in_index].into().wrapping_mul(boost);
                 }
             }
         }
@@ -399,14 +404,15 @@ impl ColorTransformProgram {
 
             for channel_factor in &channel_transform.channel_factors {
                 for i in 0..channel_size {
-                    transform_temp[i] += aux[channel_factor.src_channel * channel_size + i]
-                        * channel_factor.factor as i16;
+                    let src = aux[channel_factor.src_channel * channel_size + i];
+                    transform_temp[i] = transform_temp[i]
+                        .wrapping_add(src.wrapping_mul(channel_factor.factor as i16));
                 }
             }
 
             for i in 0..channel_size {
                 transform_temp[i] /= channel_transform.denominator as i16;
-                aux[dest_base + i] -= transform_temp[i];
+                aux[dest_base + i] = aux[dest_base + i].wrapping_sub(transform_temp[i]);
             }
         }
 
-- 
2.43.0


From ff4aa0c2461f685a8e83787e73d2cec972d36ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 06/23] fix: decode streams truncated inside of blocks of any
 level

Data that ended inside of blocks of a level other than the last one was
refused with Underflow, though decoder is meant to decode complete blocks
and report next point of interest.
---
 src/compress/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..22e1a09 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -17,6 +17,9 @@ use crate::quant;
 #[cfg(test)]
 mod test;
 
+/// Upper bound for bytes taken by codes of one coefficient together with the run before it
+const MAX_CODED_COEFFICIENT_SIZE: usize = 32;
+
 pub fn compress_aux_data(
     mut aux_data: &mut [i16],
     header: &header::Header,
@@ -295,8 +298,9 @@ pub fn decompress_image_data(
 
         let block_sizes_storage_size = block_count * std::mem::size_of::<u32>();
 
+        // data ends inside of blocks of the previous level
         if decompressed_size > buffer.len() {
-            return Err(DecompressError::Underflow);
+            break;
         }
         let (_, buffer_remainder) = buffer.split_at(decompressed_size);
 
@@ -317,6 +321,18 @@ pub fn decompress_image_data(
             *block_size = chunk_size_buffer.read_u32::<LittleEndian>().unwrap() as usize * 4;
         }
 
+        // blocks of truncated data may end after the end of buffer,
+        // but they can't be larger than any encoder is able to produce
+        let block_width = (bs.min(width) + step - 1) / step;
+        let block_height = (bs.min(height) + step - 1) / step;
+        let max_block_size = block_width
+            .saturating_mul(block_height)
+            .saturating_add(1)
+            .saturating_mul(MAX_CODED_COEFFICIENT_SIZE);
+        if blocks_sizes.iter().any(|&size| size > max_block_size) {
+            return Err(DecompressError::Underflow);
+        }
+
         let blocks_size_sum: usize = blocks_sizes.iter().sum();
 
         next_point_of_interest = decompressed_size
-- 
2.43.0


From 57f2ccfd9bec72c63eefcb8675e868082761e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 07/23] fix: read Turbo streams right when downsampling

Turbo encoder codes runs of zeros depending on quality multiplied by step.
Decoder used the downsampled step instead, so levels with quality * step
of 2048 and more were misread.
---
 src/compress/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 22e1a09..347b166 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -264,6 +264,13 @@ pub fn decompress_image_data(
 ) -> Result<usize, DecompressError> {
     let chroma_quality = header.get_chroma_quality();
 
+    // Turbo encoder chooses codes by quality multiplied by step, and the latter is downsampled
+    let quality_shift = if header.encoder == header::Encoder::Turbo {
+        downsampling
+    } else {
+        0
+    };
+
     let width = header.width as usize;
     let height = header.height as usize;
     let layers = usize::from(header.layers);
@@ -380,6 +387,10 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    // codes do not change any more above of 2 * QUALITY_MAX
+                    let quality = quality
+                        .saturating_mul(1 << quality_shift.min(30))
+                        .min(2 * i32::from(header::QUALITY_MAX));
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From 8109f6cd6abe2b1173b5876341c8c3cb86d779de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 08/23] fix: leave the output buffer alone in test mode

---
 src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..da1bfae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,12 +61,14 @@ pub fn decompress_simple(
     let next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
 
-    color_transform.detransform_and_to_interleaved(
-        &mut aux_data,
-        &header,
-        header.get_downsampled_channel_size(downsampling),
-        &mut buffer,
-    );
+    if !test {
+        color_transform.detransform_and_to_interleaved(
+            &mut aux_data,
+            &header,
+            header.get_downsampled_channel_size(downsampling),
+            &mut buffer,
+        );
+    }
 
     Ok(next_point_of_interest)
 }
-- 
2.43.0


From 110fa64b88338b1cd4a8afdf80d6d8cd4ec2f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 09/23] fix: report a next point of interest beyond the
 supplied data

---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 347b166..33f85ba 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -312,6 +312,9 @@ pub fn decompress_image_data(
         let (_, buffer_remainder) = buffer.split_at(decompressed_size);
 
         if buffer_remainder.len() <= block_sizes_storage_size {
+            // block sizes alone are not enough to proceed
+            next_point_of_interest = next_point_of_interest
+                .max(decompressed_size + block_sizes_storage_size + mem::size_of::<u32>());
             break;
         }
 
-- 
2.43.0


From 95570587e0f8625c67544eb92ea92c1333fd0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 10/23] fix: count the color transform program in the next
 point of interest

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index da1bfae..09fbd46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,9 @@ pub fn decompress_simple(
     mut buffer: &mut [u8],
 ) -> Result<usize, DecompressError> {
     let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
+    let original_len = data.len();
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
+    let service_len = original_len - data.len();
 
     let mut aux_data = vec![0i16; header.get_downsampled_image_size(downsampling)];
     let next_point_of_interest =
@@ -70,5 +72,10 @@ pub fn decompress_simple(
         );
     }
 
-    Ok(next_point_of_interest)
+    // point of interest is counted from the start of data, which includes the program
+    Ok(if next_point_of_interest == 0 {
+        0
+    } else {
+        service_len + next_point_of_interest
+    })
 }
-- 
2.43.0


From 81ce90087bcb0764e562bc207e6e87590fc21c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 11/23] fix: reject layers, channels, chroma scale and block
 size that can't be encoded

---
 src/header/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..b1869b9 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,6 +19,9 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        check_range(u32::from(self.layers), 0, 1 << 16, "Layers")?;
+        check_range(u32::from(self.channels), 0, 1 << 16, "Channels")?;
+        check_range(u32::from(self.chroma_scale), 0, 1 << 8, "Chroma scale")?;
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
@@ -44,7 +47,7 @@ impl HeaderBuilder {
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
             chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From 9eb4e8a451d46d6b5196491411bae2a66e2efa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 12/23] fix: reject a metadata size that isn't a whole number
 of words

---
 src/header/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index b1869b9..b8ec7ba 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -22,6 +22,12 @@ impl HeaderBuilder {
         check_range(u32::from(self.layers), 0, 1 << 16, "Layers")?;
         check_range(u32::from(self.channels), 0, 1 << 16, "Channels")?;
         check_range(u32::from(self.chroma_scale), 0, 1 << 8, "Chroma scale")?;
+        if self.metadata_size % 4 != 0 {
+            // it is stored in words
+            return Err(HeaderErr::WrongValue(String::from(
+                "Metadata size must be a multiple of 4",
+            )));
+        }
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
-- 
2.43.0


From b2317d9402b8d6ec86e0fb896066742002b296ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 13/23] fix: ignore previous content of the buffer for
 transformed channels

---
 src/color_transform/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 70d09f0..d9375db 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -313,6 +313,13 @@ impl ColorTransformProgram {
         for channel_transform in &self.channel_transforms {
             let dest_base = channel_transform.dest_channel * channel_size;
 
+            if !is_channel_transformed[channel_transform.dest_channel] {
+                // terms are accumulated in aux, don't rely on its previous content
+                for value in aux[dest_base..dest_base + channel_size].iter_mut() {
+                    *value = 0;
+                }
+            }
+
             for channel_factor in &channel_transform.channel_factors {
                 if is_channel_transformed[channel_factor.src_channel] {
                     for i in 0..channel_size {
-- 
2.43.0


From f4e9720db81440d0003cc69e1cf1b841553e0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 14/23] fix: read the same chroma flags as were written for
 repeated channels

---
 src/color_transform/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index d9375db..96daaa8 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -237,8 +237,9 @@ impl ColorTransformProgram {
 
             if channel_is_chroma != 0 {
                 channel_transform_builder.set_chroma();
-                is_chroma[dest_channel] = true;
             }
+            // the last transform of a channel wins, same as in encode
+            is_chroma[dest_channel] = channel_is_chroma != 0;
 
             color_transform_program.add_channel_transform(channel_transform_builder.build());
         }
-- 
2.43.0


From b4cbaf35b9013fca47f6824c77db764faddba9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 15/23] fix: check the denominator that is set, and the one
 that is read

---
 src/color_transform/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 96daaa8..7ecfa89 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -56,7 +56,7 @@ impl ChannelTransformBuilder {
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
         assert!(
-            self.denominator > 0,
+            denominator > 0,
             "Denominator should be positive integer"
         );
         self.denominator = denominator;
@@ -228,7 +228,7 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            if denominator <= 0 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From 6b1c38b2e3a5a9300cd27f24b9dcead6f4f2f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 16/23] fix: divide by denominators that don't fit 16 bits

---
 src/color_transform/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 7ecfa89..0b9a0c5 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -341,7 +341,8 @@ impl ColorTransformProgram {
 
             let layer = channel_layer(channel_transform.dest_channel, channels, channel_size);
             for i in 0..channel_size {
-                aux[dest_base + i] /= channel_transform.denominator as i16;
+                aux[dest_base + i] =
+                    (aux[dest_base + i] as isize / channel_transform.denominator) as i16;
                 aux[dest_base + i] = aux[dest_base + i].wrapping_add(
                     image[layer + i * channels_in_index].into().wrapping_mul(boost),
                 );
@@ -419,7 +420,8 @@ impl ColorTransformProgram {
             }
 
             for i in 0..channel_size {
-                transform_temp[i] /= channel_transform.denominator as i16;
+                transform_temp[i] =
+                    (transform_temp[i] as isize / channel_transform.denominator) as i16;
                 aux[dest_base + i] = aux[dest_base + i].wrapping_sub(transform_temp[i]);
             }
         }
-- 
2.43.0


From 762879470003720593498e6558f5798f6da88cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 17/23] fix: report an overflow when there's no room for blocks

---
 src/compress/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 33f85ba..eb85e84 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -177,6 +177,10 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            // some block of every level takes at least a word
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From a70f06238b70110388bd6da86d20b7b605b613b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 18/23] fix: ignore previous content of the buffer for missing
 blocks

---
 src/compress/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index eb85e84..ae28893 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -38,6 +38,14 @@ pub fn decompress_aux_data(
     test: bool,
     mut aux_data: &mut [i16],
 ) -> Result<usize, DecompressError> {
+    if !test {
+        // coefficients that are missing from data are zeros, whatever the buffer contains
+        let image_size = header.get_downsampled_image_size(downsampling);
+        for value in aux_data.iter_mut().take(image_size) {
+            *value = 0;
+        }
+    }
+
     let payload_next_point_of_interest =
         decompress_image_data(&mut aux_data, &header, data, downsampling, test, &is_chroma)?;
 
-- 
2.43.0


From f51fa48663952b570e59cafe3314e40597ae46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 19/23] fix: reject samples and chroma flags that don't match
 the header

---
 src/compress/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index ae28893..ccb89bb 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -26,6 +26,10 @@ pub fn compress_aux_data(
     is_chroma: &[bool],
     mut buffer: &mut [u8],
 ) -> Result<usize, CompressError> {
+    if !is_matching_header(aux_data, header, is_chroma, 0) {
+        return Err(CompressError::Malformed);
+    }
+
     lift_and_quantize(&mut aux_data, &header, &is_chroma);
     compress_image_data(&mut aux_data, &header, &mut buffer, &is_chroma)
 }
@@ -38,6 +42,10 @@ pub fn decompress_aux_data(
     test: bool,
     mut aux_data: &mut [i16],
 ) -> Result<usize, DecompressError> {
+    if !is_matching_header(aux_data, header, is_chroma, downsampling) {
+        return Err(DecompressError::Malformed);
+    }
+
     if !test {
         // coefficients that are missing from data are zeros, whatever the buffer contains
         let image_size = header.get_downsampled_image_size(downsampling);
@@ -56,6 +64,16 @@ pub fn decompress_aux_data(
     Ok(payload_next_point_of_interest)
 }
 
+fn is_matching_header(
+    aux_data: &[i16],
+    header: &header::Header,
+    is_chroma: &[bool],
+    downsampling: usize,
+) -> bool {
+    aux_data.len() >= header.get_downsampled_image_size(downsampling)
+        && is_chroma.len() >= usize::from(header.layers) * usize::from(header.channels)
+}
+
 fn aux_data_to_2d_channel<'a>(
     aux_data: &'a mut [i16],
     header: &'a header::Header,
-- 
2.43.0


From b2bda77be3f3e9852ea2f6756f0861f412c8cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 20/23] fix: reject image data shorter than the image

---
 src/processing/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/processing/image.rs b/src/processing/image.rs
index 94c2cf4..861e172 100644
--- a/src/processing/image.rs
+++ b/src/processing/image.rs
@@ -12,6 +12,13 @@ pub struct Image<'a, T> {
 
 impl<'a, T> Image<'a, T> {
     pub fn from_slice(data: &'a mut [T], size: (usize, usize), channels: usize) -> Image<'a, T> {
+        let area = size.0.checked_mul(size.1);
+        let required = area.and_then(|area| area.checked_mul(channels));
+        assert!(
+            required.map_or(false, |required| required <= data.len()),
+            "The data is too short for the image"
+        );
+
         Image {
             data,
             size,
-- 
2.43.0


From 46e93651bd16dea5c4d47171c1ebe5c3c021acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 21/23] fix: reject images with rows of different lengths

---
 src/lifting/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lifting/mod.rs b/src/lifting/mod.rs
index afa35db..58f8466 100644
--- a/src/lifting/mod.rs
+++ b/src/lifting/mod.rs
@@ -15,6 +15,8 @@ fn lift(
     horizontal_lift: unsafe fn(&mut [i16], usize),
     vertical_lift: unsafe fn(&mut [&mut [i16]], usize),
 ) {
+    assert_rows_are_equally_long(image);
+
     let mut step = 1;
     let hint_do_parallel = get_hint_do_parallel(&image, config_factor);
 
@@ -41,6 +43,8 @@ fn unlift(
     horizontal_unlift: unsafe fn(&mut [i16], usize),
     vertical_unlift: unsafe fn(&mut [&mut [i16]], usize),
 ) {
+    assert_rows_are_equally_long(image);
+
     let hint_do_parallel = get_hint_do_parallel(&image, config_factor);
 
     let mut step = 1;
@@ -65,6 +69,13 @@ fn unlift(
     }
 }
 
+fn assert_rows_are_equally_long(image: &[&mut [i16]]) {
+    assert!(
+        image.iter().all(|row| row.len() == image[0].len()),
+        "The rows of an image must be equally long"
+    );
+}
+
 fn get_hint_do_parallel(image: &[&mut [i16]], config_factor: usize) -> bool {
     image.len() * image[0].len() > config_factor
 }
-- 
2.43.0


From 386b470e6a96e9404197df2c4a8c613fa1e70836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 22/23] fix: leave samples beyond the image alone when the
 chroma list is too long

---
 src/compress/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index ccb89bb..464af4c 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -84,6 +84,7 @@ fn aux_data_to_2d_channel<'a>(
 
     aux_data
         .chunks_mut(channel_size)
+        .take(usize::from(header.layers) * usize::from(header.channels))
         .map(move |chunk| {
             chunk
                 .chunks_mut(header.get_downsampled_width(downsampling))
-- 
2.43.0


From cf01524e68494d691c69b616478c81c00d9b49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 23/23] fix: refuse to write a colour program with numbers over
 32 bits

---
 src/color_transform/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 0b9a0c5..a343127 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -1,6 +1,6 @@
 use std::{cmp, io, u8};
 
-use num_traits::cast::NumCast;
+use num_traits::cast::{NumCast, ToPrimitive};
 
 use crate::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
 use crate::encode::{signed_code, signed_decode};
@@ -272,15 +272,15 @@ impl ColorTransformProgram {
         let mut is_chroma = vec![false; channels];
 
         for channel_transform in &self.channel_transforms {
-            signed_code(channel_transform.dest_channel as i32, &mut stream, 2)?;
+            signed_code(to_coded(channel_transform.dest_channel)?, &mut stream, 2)?;
 
             for channel_factor in &channel_transform.channel_factors {
-                signed_code(channel_factor.src_channel as i32, &mut stream, 2)?;
-                signed_code(channel_factor.factor as i32, &mut stream, 2)?;
+                signed_code(to_coded(channel_factor.src_channel)?, &mut stream, 2)?;
+                signed_code(to_coded(channel_factor.factor)?, &mut stream, 2)?;
             }
             signed_code(-1, &mut stream, 2)?;
 
-            signed_code(channel_transform.denominator as i32, &mut stream, 2)?;
+            signed_code(to_coded(channel_transform.denominator)?, &mut stream, 2)?;
             signed_code(channel_transform.is_chroma as i32, &mut stream, 2)?;
 
             is_chroma[channel_transform.dest_channel] = channel_transform.is_chroma;
@@ -484,6 +484,16 @@ impl ColorTransformProgram {
     }
 }
 
+/// The stream carries numbers of 32 bits
+fn to_coded<T: ToPrimitive>(value: T) -> io::Result<i32> {
+    value.to_i32().ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Color transform program contains a number that doesn't fit 32 bits",
+        )
+    })
+}
+
 fn convert_between_interleaved_and_planar<F, T>(
     len: usize,
     channels: usize,
-- 
2.43.0

