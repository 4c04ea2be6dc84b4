//! C05 sub-views, crops, copies
use crate::img::*;
use crate::nd::*;
use image::math::Rect;
use image::*;
type L = ImageBuffer<Luma<u16>, Vec<u16>>;

/// arguments around the edges and beyond
fn arg<N: Nd>(n: &mut N, max: u32) -> u32 { let k = n.r32(0, max + 4); if k <= max + 2 { k } else if k == max + 3 { u32::MAX } else { u32::MAX - 1 } }

pub fn crops<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 4), n.r32(0, 3));
    let mut s = distinct_luma16(w, h);
    let (x, y, cw, ch) = (arg(n, w), arg(n, h), arg(n, w), arg(n, h));
    let (ex, ey) = (x.min(w), y.min(h));
    let (ew, eh) = (cw.min(w - ex), ch.min(h - ey));
    let what = format!("crop({x},{y},{cw},{ch}) of {w}x{h}");
    let s0 = s.clone();
    { let c = imageops::crop_imm(&s, x, y, cw, ch);
      assert_eq!(c.dimensions(), (ew, eh), "{what}: dimensions");
      assert_eq!(c.bounds2(), (ew, eh));
      let img = c.to_image(); assert_eq!(img.dimensions(), (ew, eh));
      for j in 0..eh { for i in 0..ew { assert_eq!(c.get_pixel(i, j), *s.get_pixel(ex + i, ey + j), "{what}: ({i},{j})"); assert_eq!(img.get_pixel(i, j), s.get_pixel(ex + i, ey + j), "{what}: to_image ({i},{j})"); } } }
    { let mut c = imageops::crop(&mut s, x, y, cw, ch);
      assert_eq!(c.dimensions(), (ew, eh), "{what}: dimensions of the mutable crop");
      for j in 0..eh { for i in 0..ew { assert_eq!(c.get_pixel(i, j), *s0.get_pixel(ex + i, ey + j), "{what} (mutable)"); c.put_pixel(i, j, Luma([(i + 10 * j) as u16])); } } }
    for j in 0..h { for i in 0..w { let inside = i >= ex && i < ex + ew && j >= ey && j < ey + eh;
        let e = if inside { Luma([(i - ex + 10 * (j - ey)) as u16]) } else { *s0.get_pixel(i, j) };
        assert_eq!(*s.get_pixel(i, j), e, "{what}: parent ({i},{j}) after writing through the crop"); } }
    let k = n.range(0, 9);
    let mut d = dyn_of_kind(k, w, h, &mut |i| 17 + (i as u32) * 1103);
    let c = d.crop_imm(x, y, cw, ch);
    assert_eq!((c.width(), c.height(), c.color()), (ew, eh, d.color()), "DynamicImage {what}");
    for j in 0..eh { for i in 0..ew { assert_eq!(pix_bytes(&c, i, j), pix_bytes(&d, ex + i, ey + j), "DynamicImage {what}"); } }
    assert_eq!(d.crop(x, y, cw, ch), c);
}
trait B2 { fn bounds2(&self) -> (u32, u32); }
impl<I> B2 for SubImage<I> where I: std::ops::Deref, I::Target: GenericImageView { fn bounds2(&self) -> (u32, u32) { (self.width(), self.height()) } }

/// views of views, reading and writing; refused exactly when they do not fit
pub fn views<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 5), n.r32(0, 5));
    let mut s = distinct_luma16(w, h); let s0 = s.clone();
    let (x, y, vw, vh) = if n.range(0, 4) == 0 { (arg(n, w), arg(n, h), arg(n, w), arg(n, h)) } else { let (x, y) = (n.r32(0, w), n.r32(0, h)); (x, y, n.r32(0, w - x), n.r32(0, h - y)) };
    let fit = x as u64 + vw as u64 <= w as u64 && y as u64 + vh as u64 <= h as u64;
    let what = format!("view({x},{y},{vw},{vh}) of {w}x{h}");
    assert_eq!(catch(|| { s.view(x, y, vw, vh); }).is_some(), fit, "{what}: fits");
    assert_eq!(catch(|| { s.sub_image(x, y, vw, vh); }).is_some(), fit, "{what}: fits (mutable)");
    if !fit { n.assume(false); }
    let v = s.view(x, y, vw, vh);
    assert_eq!((v.dimensions(), v.offsets()), ((vw, vh), (x, y)), "{what}");
    for j in 0..vh { for i in 0..vw { assert_eq!(v.get_pixel(i, j), *s.get_pixel(x + i, y + j), "{what}"); } }
    // nested
    let (x2, y2, w2, h2) = if n.range(0, 4) == 0 { (arg(n, vw), arg(n, vh), arg(n, vw), arg(n, vh)) } else { let (x, y) = (n.r32(0, vw), n.r32(0, vh)); (x, y, n.r32(0, vw - x), n.r32(0, vh - y)) };
    let fit2 = x2 as u64 + w2 as u64 <= vw as u64 && y2 as u64 + h2 as u64 <= vh as u64;
    assert_eq!(catch(|| { v.view(x2, y2, w2, h2); }).is_some(), fit2, "nested view({x2},{y2},{w2},{h2}) in {what}");
    if fit2 {
        let q = v.view(x2, y2, w2, h2); assert_eq!(q.dimensions(), (w2, h2));
        assert_eq!(q.to_image().dimensions(), (w2, h2));
        for j in 0..h2 { for i in 0..w2 { assert_eq!(q.get_pixel(i, j), *s.get_pixel(x + x2 + i, y + y2 + j), "nested in {what}"); assert_eq!(*q.to_image().get_pixel(i, j), q.get_pixel(i, j)); } }
    }
    let mut m = s.sub_image(x, y, vw, vh);
    assert_eq!(catch(|| { m.sub_image(x2, y2, w2, h2); }).is_some(), fit2, "nested sub_image({x2},{y2},{w2},{h2}) in {what}");
    if fit2 {
        { let mut q = m.sub_image(x2, y2, w2, h2); for j in 0..h2 { for i in 0..w2 { let o = q.get_pixel(i, j); assert_eq!(o, *s0.get_pixel(x + x2 + i, y + y2 + j)); q.put_pixel(i, j, Luma([o.0[0] + 5000])); } } }
        for j in 0..h { for i in 0..w { let ins = i >= x + x2 && i < x + x2 + w2 && j >= y + y2 && j < y + y2 + h2;
            let o = s0.get_pixel(i, j).0[0]; assert_eq!(s.get_pixel(i, j).0[0], if ins { o + 5000 } else { o }, "write through nested sub-image: parent ({i},{j}), {what}"); } }
    }
    #[allow(deprecated)]
    { let mut s = s0.clone(); let mut want = s0.clone();
      { let mut m = s.sub_image(x, y, vw, vh);
        for j in 0..vh { for i in 0..vw { assert!(m.in_bounds(i, j)); let c = Luma([(i * 3 + j) as u16]);
            if (i + j) % 2 == 0 { m.blend_pixel(i, j, c); let q = want.get_pixel_mut(x + i, y + j); q.blend(&c); }
            else { let q = m.get_pixel_mut(i, j); assert_eq!(*q, *s0.get_pixel(x + i, y + j), "get_pixel_mut in {what}"); q.0[0] += 700; want.get_pixel_mut(x + i, y + j).0[0] += 700; } } }
        assert!(!m.in_bounds(vw, 0) && !m.in_bounds(0, vh)); }
      assert_eq!(s, want, "blending and changing pixels through {what}"); }
    let mut v = s0.view(0, 0, 0, 0); v.change_bounds(x, y, vw, vh);
    assert_eq!((v.dimensions(), v.offsets()), ((vw, vh), (x, y)));
    for j in 0..vh { for i in 0..vw { assert_eq!(v.get_pixel(i, j), *s0.get_pixel(x + i, y + j), "change_bounds {what}"); } }
}
/// copy_from at any offset
pub fn copy_from<N: Nd>(n: &mut N) {
    let (w, h, ow, oh) = (n.r32(0, 4), n.r32(0, 4), n.r32(0, 3), n.r32(0, 3));
    let mut s = distinct_luma16(w, h); let s0 = s.clone();
    let o: L = ImageBuffer::from_fn(ow, oh, |x, y| Luma([50 + (x + 7 * y) as u16]));
    let (x, y) = (arg(n, w), arg(n, h));
    let fit = x as u64 + ow as u64 <= w as u64 && y as u64 + oh as u64 <= h as u64;
    let which = n.range(0, 2);
    let what = format!("copy_from of {ow}x{oh} into {w}x{h} at ({x},{y}) variant {which}");
    let r = match which {
        0 => s.copy_from(&o, x, y).is_ok(),
        1 => { let mut d = DynamicImage::ImageRgba8(ImageBuffer::from_fn(w, h, |i, j| Rgba([i as u8, j as u8, 7, 255])));
            let od = DynamicImage::ImageRgba8(ImageBuffer::from_fn(ow, oh, |i, j| Rgba([i as u8, j as u8, 99, 255])));
            let r = d.copy_from(&od, x, y).is_ok();
            for j in 0..h { for i in 0..w { let ins = r && i >= x && j >= y && ((i - x) < ow) && ((j - y) < oh); assert_eq!(d.get_pixel(i, j), if ins { od.get_pixel(i - x, j - y) } else { Rgba([i as u8, j as u8, 7, 255]) }, "{what}: dynamic ({i},{j})"); } }
            assert_eq!(r, fit, "{what}"); return; }
        _ => { let mut v = s.sub_image(0, 0, w, h); v.copy_from(&*o.view(0, 0, ow, oh), x, y).is_ok() }
    };
    assert_eq!(r, fit, "{what}: accepted");
    for j in 0..h { for i in 0..w { let ins = fit && i >= x && j >= y && ((i - x) < ow) && ((j - y) < oh);
        assert_eq!(s.get_pixel(i, j), if ins { o.get_pixel(i - x, j - y) } else { s0.get_pixel(i, j) }, "{what}: ({i},{j})"); } }
}
/// copying inside one image, overlapping or not, by the buffer's own and by the provided method
pub fn copy_within<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 4), n.r32(1, 4));
    let (sx, sy, dx, dy) = (n.r32(0, w - 1), n.r32(0, h - 1), n.r32(0, w - 1), n.r32(0, h - 1));
    let (rw, rh) = (n.r32(0, w + 1), n.r32(0, h + 1));
    let which = n.range(0, 2);
    if which == 2 { // through a view that does not start at the origin
        let mut big = distinct_rgb8(w + 2, h + 1); let b0 = big.clone();
        let fit = sx.max(dx) + rw <= w && sy.max(dy) + rh <= h;
        let ok = big.sub_image(1, 1, w, h).copy_within(Rect { x: sx, y: sy, width: rw, height: rh }, dx, dy);
        assert_eq!(ok, fit);
        for j in 0..h + 1 { for i in 0..w + 2 { let ins = fit && i >= 1 + dx && j >= 1 + dy && i - dx - 1 < rw && j - dy - 1 < rh;
            assert_eq!(big.get_pixel(i, j), if ins { b0.get_pixel(i - dx + sx, j - dy + sy) } else { b0.get_pixel(i, j) }, "copy_within({sx},{sy},{rw},{rh}) to ({dx},{dy}) in a {w}x{h} view at (1,1): ({i},{j})"); } }
        return;
    }
    let fit = sx.max(dx) + rw <= w && sy.max(dy) + rh <= h;
    let mut s = distinct_rgb8(w, h); let s0 = s.clone();
    let what = format!("copy_within({sx},{sy},{rw},{rh}) to ({dx},{dy}) in {w}x{h} variant {which}");
    let r = Rect { x: sx, y: sy, width: rw, height: rh };
    let ok = if which == 0 { s.copy_within(r, dx, dy) } else { s.sub_image(0, 0, w, h).copy_within(r, dx, dy) };
    assert_eq!(ok, fit, "{what}: accepted");
    for j in 0..h { for i in 0..w { let ins = fit && i >= dx && j >= dy && i - dx < rw && j - dy < rh;
        assert_eq!(s.get_pixel(i, j), if ins { s0.get_pixel(i - dx + sx, j - dy + sy) } else { s0.get_pixel(i, j) }, "{what}: ({i},{j})"); } }
}
/// huge rectangles are refused without any change
pub fn copy_within_huge<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 4), n.r32(1, 4));
    let (sx, sy, dx, dy) = (n.r32(0, w - 1), n.r32(0, h - 1), n.r32(0, w - 1), n.r32(0, h - 1));
    let (rw, rh) = (n.u32(), n.u32());
    let fit = sx.max(dx) as u64 + rw as u64 <= w as u64 && sy.max(dy) as u64 + rh as u64 <= h as u64;
    let mut s = distinct_rgb8(w, h); let s0 = s.clone();
    let r = Rect { x: sx, y: sy, width: rw, height: rh };
    assert_eq!(s.copy_within(r, dx, dy), fit);
    if !fit { assert_eq!(s, s0); }
    let mut s = s0.clone();
    assert_eq!(s.sub_image(0, 0, w, h).copy_within(r, dx, dy), fit);
    if !fit { assert_eq!(s, s0); }
}
/// a parent with huge announced dimensions: the view asks it for exactly the translated pixel
struct Big(u32, u32);
impl GenericImageView for Big { type Pixel = Luma<f32>; fn dimensions(&self) -> (u32, u32) { (self.0, self.1) }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<f32> { assert!(x < self.0 && y < self.1, "get_pixel({x},{y}) of {}x{}", self.0, self.1); Luma([f32::from_bits(x ^ y.rotate_left(16))]) } }
pub fn big_views<N: Nd>(n: &mut N) {
    let b = Big(n.u32(), n.u32());
    let (x, y, w, h) = (n.u32(), n.u32(), n.u32(), n.u32());
    let fit = x as u64 + w as u64 <= b.0 as u64 && y as u64 + h as u64 <= b.1 as u64;
    assert_eq!(catch(|| { b.view(x, y, w, h); }).is_some(), fit, "view({x},{y},{w},{h}) of {}x{}", b.0, b.1);
    let c = imageops::crop_imm(&b, x, y, w, h);
    let (ex, ey) = (x.min(b.0), y.min(b.1));
    let (ew, eh) = (w.min(b.0 - ex), h.min(b.1 - ey));
    assert_eq!((c.offsets(), c.dimensions()), ((ex, ey), (ew, eh)), "crop({x},{y},{w},{h}) of {}x{}", b.0, b.1);
    if ew > 0 && eh > 0 { let (i, j) = (n.r32(0, ew - 1), n.r32(0, eh - 1)); assert_eq!(c.get_pixel(i, j).0[0].to_bits(), b.get_pixel(ex + i, ey + j).0[0].to_bits());
        let (x2, y2, w2, h2) = (n.u32(), n.u32(), n.u32(), n.u32());
        let fit2 = x2 as u64 + w2 as u64 <= ew as u64 && y2 as u64 + h2 as u64 <= eh as u64;
        assert_eq!(catch(|| { c.view(x2, y2, w2, h2); }).is_some(), fit2, "nested view({x2},{y2},{w2},{h2}) in {ew}x{eh}");
        if fit2 && w2 > 0 && h2 > 0 { let q = c.view(x2, y2, w2, h2); let (i, j) = (n.r32(0, w2 - 1), n.r32(0, h2 - 1)); assert_eq!(q.get_pixel(i, j).0[0].to_bits(), b.get_pixel(ex + x2 + i, ey + y2 + j).0[0].to_bits()); } }
}
entries! {"C05";
    crops Enum "crop, crop_imm, DynamicImage::crop*: images up to 4x3, all rectangles incl. out of bounds and near 2^32",
    views Fuzz "view, sub_image, nested and change_bounds, all ways of writing through them: images up to 5x5",
    copy_from EnumFull "copy_from: up to 4x4, all offsets incl. near 2^32",
    copy_within EnumFull "copy_within (ImageBuffer and provided method): up to 4x4, all rectangles and destinations",
    copy_within_huge Fuzz "copy_within with rectangles of any size",
    big_views Fuzz "views and crops of images of any announced size",
}
