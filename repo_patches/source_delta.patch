From 78c546d36bc75a751956714afefc08461bab04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 01/19] fix: saturate Delay::from_saturating_duration instead
 of overflowing

Durations of more than u32::MAX ms whose sub-millisecond part rounds up
overflowed the numerator and panicked.
---
 src/animation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index f6dac64..2d76b9b 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -171,7 +171,12 @@ impl Delay {
         const MILLIS_BOUND: u128 = u32::MAX as u128;
 
         let millis = duration.as_millis().min(MILLIS_BOUND);
-        let submillis = (duration.as_nanos() % 1_000_000) as u32;
+        // Beyond the largest representable delay there is no fraction left to approximate.
+        let submillis = if millis < MILLIS_BOUND {
+            (duration.as_nanos() % 1_000_000) as u32
+        } else {
+            0
+        };
 
         let max_b = if millis > 0 {
             ((MILLIS_BOUND + 1) / (millis + 1)) as u32
-- 
2.43.0


From 0da54503cc08efd91b29f3968e220702383c8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 02/19] fix: bound the row in ImageBuffer::get_pixel_checked

With a container longer than the image needs, rows below the image were
returned as if they were part of it.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8ad6930..3346afa 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -780,7 +780,7 @@ where
     /// Gets a reference to the pixel at location `(x, y)` or returns `None` if
     /// the index is out of the bounds `(width, height)`.
     pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
@@ -958,7 +958,7 @@ where
     /// Gets a reference to the mutable pixel at location `(x, y)` or returns
     /// `None` if the index is out of the bounds `(width, height)`.
     pub fn get_pixel_mut_checked(&mut self, x: u32, y: u32) -> Option<&mut P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
-- 
2.43.0


From 9f2326784eb73f52b61e19247e3e8f7c7bf6044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 03/19] fix: Pixels of a zero-width view yields nothing

The iterator asked for pixel (0, 1) of a view without columns.
---
 src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index a38fee9..63083be 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -852,10 +852,10 @@ impl<I: GenericImageView> Iterator for Pixels<'_, I> {
     fn next(&mut self) -> Option<(u32, u32, I::Pixel)> {
         if self.x >= self.width {
             self.x = 0;
-            self.y += 1;
+            self.y = self.y.saturating_add(1);
         }
 
-        if self.y >= self.height {
+        if self.x >= self.width || self.y >= self.height {
             None
         } else {
             let pixel = self.image.get_pixel(self.x, self.y);
-- 
2.43.0


From b56d4e343d738a03849cdacf7bc022e0ba26241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 04/19] fix: copy_from does not overflow on large offsets

The bounds check wrapped around (or panicked) instead of reporting
DimensionMismatch.
---
 src/image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index 63083be..26397b6 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1029,7 +1029,9 @@ pub trait GenericImage: GenericImageView {
     {
         // Do bounds checking here so we can use the non-bounds-checking
         // functions to copy pixels.
-        if self.width() < other.width() + x || self.height() < other.height() + y {
+        if u64::from(self.width()) < u64::from(other.width()) + u64::from(x)
+            || u64::from(self.height()) < u64::from(other.height()) + u64::from(y)
+        {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
-- 
2.43.0


From abdaa18b29320364df93340bc5b5f32ef99e289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/19] fix: brighten saturates for extreme amounts

Amounts near the ends of i32 overflowed before they were clamped.
---
 src/imageops/colorops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 7289c09..26b98a8 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -168,7 +168,7 @@ where
         let e = pixel.map_with_alpha(
             |b| {
                 let c: i32 = NumCast::from(b).unwrap();
-                let d = clamp(c + value, 0, max);
+                let d = clamp(c.saturating_add(value), 0, max);
 
                 NumCast::from(d).unwrap()
             },
@@ -200,7 +200,7 @@ where
             let e = image.get_pixel(x, y).map_with_alpha(
                 |b| {
                     let c: i32 = NumCast::from(b).unwrap();
-                    let d = clamp(c + value, 0, max);
+                    let d = clamp(c.saturating_add(value), 0, max);
 
                     NumCast::from(d).unwrap()
                 },
-- 
2.43.0


From 67cab4453d53aff4ace389fcf5f445c599915cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 06/19] fix: blending opaque or transparent LumaA is exact

The general formula rounds: an opaque foreground did not replace the
background and a transparent one changed it. Rgba already handles both.
---
 src/color.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/color.rs b/src/color.rs
index a83ca8c..6cde10c 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -752,6 +752,14 @@ pub(crate) trait Blend {
 
 impl<T: Primitive> Blend for LumaA<T> {
     fn blend(&mut self, other: &LumaA<T>) {
+        if other.0[1].is_zero() {
+            return;
+        }
+        if other.0[1] == T::DEFAULT_MAX_VALUE {
+            *self = *other;
+            return;
+        }
+
         let max_t = T::DEFAULT_MAX_VALUE;
         let max_t = max_t.to_f32().unwrap();
         let (bg_luma, bg_a) = (self.0[0], self.0[1]);
-- 
2.43.0


From 7750e52761e31de80a2cda3e6b6e0a33740bb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 07/19] fix: has_aliased_samples detects repeated samples of
 zero-stride dimensions

---
 src/flat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flat.rs b/src/flat.rs
index 24dcd5e..38c7671 100644
--- a/src/flat.rs
+++ b/src/flat.rs
@@ -312,6 +312,11 @@ impl SampleLayout {
         let grouped = self.increasing_stride_dims();
         let (min_dim, mid_dim, max_dim) = (grouped[0], grouped[1], grouped[2]);
 
+        // Without a stride, all samples along a dimension are the same one.
+        if grouped.iter().any(|dim| dim.0 == 0 && dim.1 > 1) {
+            return true;
+        }
+
         let min_size = match min_dim.checked_len() {
             None => return true,
             Some(size) => size,
-- 
2.43.0


From a55f5a57932a449bfa35b6616fc240e18bf52b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 08/19] fix: ImageBuffer::copy_within accepts rectangles of
 zero width

The last column of an empty rectangle at x = 0 underflowed.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 3346afa..6389db7 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1236,7 +1236,7 @@ where
                 let sy = sy + y;
                 let dy = dy + y;
                 let Range { start, .. } = self.pixel_indices_unchecked(sx, sy);
-                let Range { end, .. } = self.pixel_indices_unchecked(sx + width - 1, sy);
+                let end = self.pixel_indices_unchecked(sx + width, sy).start;
                 let dst = self.pixel_indices_unchecked(dx, dy).start;
                 self.data.copy_within(start..end, dst);
             }
@@ -1245,7 +1245,7 @@ where
                 let sy = sy + y;
                 let dy = dy + y;
                 let Range { start, .. } = self.pixel_indices_unchecked(sx, sy);
-                let Range { end, .. } = self.pixel_indices_unchecked(sx + width - 1, sy);
+                let end = self.pixel_indices_unchecked(sx + width, sy).start;
                 let dst = self.pixel_indices_unchecked(dx, dy).start;
                 self.data.copy_within(start..end, dst);
             }
-- 
2.43.0


From 94bdd9e0187560593106101840036cd4713f46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 09/19] fix: enumerate_rows of the tallest image ends without
 overflow

---
 src/buffer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6389db7..6166a1f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -412,7 +412,8 @@ where
     #[inline(always)]
     fn next(&mut self) -> Option<(u32, EnumeratePixels<'a, P>)> {
         let y = self.y;
-        self.y += 1;
+        // One past the last row may not be representable, but is never yielded.
+        self.y = y.wrapping_add(1);
         self.rows.next().map(|r| {
             (
                 y,
@@ -541,7 +542,8 @@ where
     #[inline(always)]
     fn next(&mut self) -> Option<(u32, EnumeratePixelsMut<'a, P>)> {
         let y = self.y;
-        self.y += 1;
+        // One past the last row may not be representable, but is never yielded.
+        self.y = y.wrapping_add(1);
         self.rows.next().map(|r| {
             (
                 y,
-- 
2.43.0


From facadfe9ff8289b29e6b8361de777aea8225a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 10/19] fix: boxed decoders report the orientation of the
 decoder they box

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index 26397b6..2b2fe84 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -749,6 +749,9 @@ impl<T: ?Sized + ImageDecoder> ImageDecoder for Box<T> {
     fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> {
         (**self).exif_metadata()
     }
+    fn orientation(&mut self) -> ImageResult<Orientation> {
+        (**self).orientation()
+    }
     fn total_bytes(&self) -> u64 {
         (**self).total_bytes()
     }
-- 
2.43.0


From 2ae41f6ec6bd6572afbd19e37b559efe1fe45c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 11/19] fix: TGA run packet cut short by the end of the file is
 an error

---
 src/codecs/tga/decoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ad28e7..3ec8516 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -239,10 +239,8 @@ impl<R: Read> TgaDecoder<R> {
             if (run_packet & 0x80) != 0 {
                 // high bit set, so we will repeat the data
                 let repeat_count = ((run_packet & !0x80) + 1) as usize;
-                self.r
-                    .by_ref()
-                    .take(self.bytes_per_pixel as u64)
-                    .read_to_end(&mut repeat_buf)?;
+                repeat_buf.resize(self.bytes_per_pixel, 0);
+                self.r.read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
                 let data = repeat_buf
-- 
2.43.0


From 9e7dff70d4a03f5e37bc03d89a04b07cb508cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 12/19] fix: BMP encoder computes row and image sizes without
 overflow

---
 src/codecs/bmp/encoder.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 457e5d9..1eca2f8 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -74,11 +74,11 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
 
         let (dib_header_size, written_pixel_size, palette_color_count) =
             get_pixel_info(c, palette)?;
-        let row_pad_size = (4 - (width * written_pixel_size) % 4) % 4; // each row must be padded to a multiple of 4 bytes
-        let image_size = width
-            .checked_mul(height)
-            .and_then(|v| v.checked_mul(written_pixel_size))
-            .and_then(|v| v.checked_add(height * row_pad_size))
+        let row_size = u64::from(width) * u64::from(written_pixel_size);
+        let row_pad_size = ((4 - row_size % 4) % 4) as u32; // each row must be padded to a multiple of 4 bytes
+        let image_size = (row_size + u64::from(row_pad_size))
+            .checked_mul(u64::from(height))
+            .and_then(|v| u32::try_from(v).ok())
             .ok_or_else(|| {
                 ImageError::Parameter(ParameterError::from_kind(
                     ParameterErrorKind::DimensionMismatch,
@@ -238,7 +238,9 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
         }
 
         // write image data
-        let x_stride = bytes_per_pixel;
+        let width = width as usize;
+        let height = height as usize;
+        let x_stride = bytes_per_pixel as usize;
         let y_stride = width * x_stride;
         for row in (0..height).rev() {
             // from the bottom up
@@ -247,11 +249,10 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             // color value is equal to the palette index
             if x_stride == 1 {
                 // improve performance by writing the whole row at once
-                self.writer
-                    .write_all(&image[row_start as usize..][..y_stride as usize])?;
+                self.writer.write_all(&image[row_start..][..y_stride])?;
             } else {
                 for col in 0..width {
-                    let pixel_start = (row_start + (col * x_stride)) as usize;
+                    let pixel_start = row_start + col * x_stride;
                     self.writer.write_u8(image[pixel_start])?;
                     // alpha is never written as it's not widely supported
                 }
-- 
2.43.0


From 6140bb5935c351e5d43e8810394e460d5579abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 13/19] fix: HDR old-style run markers do not overflow the run
 length

---
 src/codecs/hdr/decoder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 08f8483..7d6d956 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -426,15 +426,17 @@ fn decode_old_rle<R: Read>(r: &mut R, fb: Rgbe8Pixel, buf: &mut [Rgbe8Pixel]) ->
         x_off += {
             if let Some(rl) = rl_marker(pix) {
                 // rl_mult takes care of consecutive RL markers
-                let rl = rl * rl_mult;
-                rl_mult *= 256;
-                if x_off + rl <= width {
+                let rl = rl.saturating_mul(rl_mult);
+                rl_mult = rl_mult.saturating_mul(256);
+                if rl <= width - x_off {
                     // do run
                     for b in &mut buf[x_off..x_off + rl] {
                         *b = prev_pixel;
                     }
                 } else {
-                    return Err(DecoderError::WrongScanlineLength(x_off + rl, width).into());
+                    return Err(
+                        DecoderError::WrongScanlineLength(x_off.saturating_add(rl), width).into(),
+                    );
                 };
                 rl // value to increase x_off by
             } else {
-- 
2.43.0


From 2459dcaf55fbd0a405f60f969df50cc9a3a955e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 14/19] fix: expand_palette also expands the first pixel

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index f64834e..ddb2c47 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ where
             (0..8/bit_depth).map(|i| i*bit_depth).zip(repeat(idx)))
         .skip(extra);
     let buf_len = buf.len();
-    let j_inv = (channels..buf_len).step_by(channels);
+    let j_inv = (channels..=buf_len).step_by(channels);
     for ((shift, i), j_inv) in i.zip(j_inv) {
         let j = buf_len - j_inv;
         let pixel = (buf[i] & (mask << shift)) >> shift;
-- 
2.43.0


From 1c16467068ea465411f4f4f39f132aa7e4370c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 15/19] fix: HDR encoder does not run-length code scanlines of
 32768 pixels

---
 src/codecs/hdr/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9358cda..5edcb7b 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -70,7 +70,7 @@ impl<W: Write> HdrEncoder<W> {
         w.write_all(b"FORMAT=32-bit_rle_rgbe\n\n")?;
         w.write_all(format!("-Y {height} +X {width}\n").as_bytes())?;
 
-        if !(8..=32_768).contains(&width) {
+        if !(8..=32_767).contains(&width) {
             for pixel in flattened_rgbe_pixels {
                 write_rgbe8(w, pixel)?;
             }
-- 
2.43.0


From ba0db3ebccfc06c8eaede4c66fadbcada7043677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 16/19] fix: HDR exponents of maxima just below a power of two
 stay normalised

---
 src/codecs/hdr/encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 5edcb7b..5207981 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -282,7 +282,11 @@ pub(crate) fn to_rgbe8(pix: Rgb<f32>) -> Rgbe8Pixel {
         Rgbe8Pixel { c: [0, 0, 0], e: 0 }
     } else {
         // let (frac, exp) = mx.frexp(); // unstable yet
-        let exp = mx.log2().floor() as i32 + 1;
+        let mut exp = mx.log2().floor() as i32 + 1;
+        if mx < f32::powi(2.0, exp - 1) {
+            // log2 was rounded up to the next integer
+            exp -= 1;
+        }
         let mul = f32::powi(2.0, exp);
         let mut conv = [0u8; 3];
         for (cv, &sv) in conv.iter_mut().zip(pix.iter()) {
-- 
2.43.0


From a48e4fb6fe5a1d561320909f891f843bde3cecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 17/19] fix: PNM encoder accepts exactly the samples its header
 allows, plain bitmaps write black as 1

---
 src/codecs/pnm/encoder.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b6cc18..22cab55 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -70,6 +70,9 @@ enum TupleEncoding<'a> {
         samples: FlatSamples<'a>,
         width: u32,
     },
+    PbmAscii {
+        samples: FlatSamples<'a>,
+    },
     Ascii {
         samples: FlatSamples<'a>,
     },
@@ -448,7 +451,8 @@ impl<'a> CheckedDimensions<'a> {
 impl<'a> CheckedHeaderColor<'a> {
     fn check_sample_values(self, image: FlatSamples<'a>) -> ImageResult<CheckedHeader<'a>> {
         let header_maxval = match self.dimensions.unchecked.header.decoded {
-            HeaderRecord::Bitmap(_) => 1,
+            // Bitmaps only distinguish zero (black) from non-zero (white).
+            HeaderRecord::Bitmap(_) => 0xffff,
             HeaderRecord::Graymap(GraymapHeader { maxwhite, .. }) => maxwhite,
             HeaderRecord::Pixmap(PixmapHeader { maxval, .. }) => maxval,
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => maxval,
@@ -577,8 +581,8 @@ impl<'a> FlatSamples<'a> {
 
     fn all_smaller(&self, max_val: u32) -> bool {
         match *self {
-            FlatSamples::U8(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
-            FlatSamples::U16(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
+            FlatSamples::U8(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
+            FlatSamples::U16(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
         }
     }
 
@@ -596,7 +600,7 @@ impl<'a> FlatSamples<'a> {
             HeaderRecord::Bitmap(BitmapHeader {
                 encoding: SampleEncoding::Ascii,
                 ..
-            }) => TupleEncoding::Ascii { samples: *self },
+            }) => TupleEncoding::PbmAscii { samples: *self },
 
             HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
 
@@ -649,6 +653,18 @@ impl TupleEncoding<'_> {
                 .write_pbm_bits(samples, width)
                 .map_err(ImageError::IoError),
 
+            // Black pixels are encoded as 1s
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U8(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U16(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
             } => writer.write_all(samples).map_err(ImageError::IoError),
-- 
2.43.0


From c9f416c8f3195fa8d7e54cad49418989d2b78141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:23 +0000
Subject: [PATCH 18/19] fix: JpegEncoder: leave no padding bits behind for the
 next image

The bits left in the writer after padding the last byte of a scan were put in
front of the coded data of the next image written by the same encoder.
---
 src/codecs/jpeg/encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d61951a..cd34b7c 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -214,7 +214,13 @@ impl<W: Write> BitWriter<W> {
     }
 
     fn pad_byte(&mut self) -> io::Result<()> {
-        self.write_bits(0x7F, 7)
+        self.write_bits(0x7F, 7)?;
+
+        // What is left of the padding is not part of what is written next.
+        self.accumulator = 0;
+        self.nbits = 0;
+
+        Ok(())
     }
 
     fn huffman_encode(&mut self, val: u8, table: &[(u8, u16); 256]) -> io::Result<()> {
-- 
2.43.0


From 1e80a3be419c6663c8a1711435e1b4202c897b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:23 +0000
Subject: [PATCH 19/19] fix: JpegEncoder: choose the coding of the scan as the
 header does

An image of three or four channels whose samples are not bytes got a header of
three components and the scan of a gray image.
---
 src/codecs/jpeg/encoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index cd34b7c..e7438cc 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -495,7 +495,6 @@ impl<W: Write> JpegEncoder<W> {
         I::Pixel: PixelWithColorType,
     {
         let n = I::Pixel::CHANNEL_COUNT;
-        let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
         self.writer.write_marker(SOI)?;
@@ -576,7 +575,7 @@ impl<W: Write> JpegEncoder<W> {
         build_scan_header(&mut buf, &self.components[..num_components]);
         self.writer.write_segment(SOS, &buf)?;
 
-        if ExtendedColorType::Rgb8 == color_type || ExtendedColorType::Rgba8 == color_type {
+        if num_components == 3 {
             self.encode_rgb(image)
         } else {
             self.encode_gray(image)
-- 
2.43.0

