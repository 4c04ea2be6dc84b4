//! C04 compositing
use crate::img::*;
use crate::nd::*;
use image::*;

fn off<N: Nd>(n: &mut N) -> i64 {
    if n.raw(0, 1) == 0 { n.ri(-6, 6) } else { n.i64() }
}
type A = ImageBuffer<LumaA<u8>, Vec<u8>>;
fn check(w: u32, h: u32, tw: u32, th: u32, x: i64, y: i64, alpha: bool) {
    let bot: RgbaImage = ImageBuffer::from_fn(w, h, |i, j| Rgba([i as u8, j as u8, 10, 255]));
    let top: RgbaImage = ImageBuffer::from_fn(tw, th, |i, j| Rgba([100 + i as u8, 100 + j as u8, 20, if alpha { 100 } else { 255 }]));
    for over in [true, false] {
        let mut b = bot.clone();
        if over { imageops::overlay(&mut b, &top, x, y) } else { imageops::replace(&mut b, &top, x, y) }
        for j in 0..h { for i in 0..w {
            let (tx, ty) = (i as i128 - x as i128, j as i128 - y as i128);
            let mut e = *bot.get_pixel(i, j);
            if tx >= 0 && ty >= 0 && tx < tw as i128 && ty < th as i128 {
                let t = *top.get_pixel(tx as u32, ty as u32);
                if over { e.blend(&t) } else { e = t }
            }
            assert_eq!(*b.get_pixel(i, j), e, "{} of {tw}x{th} onto {w}x{h} at ({x},{y}): pixel ({i},{j})", if over { "overlay" } else { "replace" });
        } }
    }
}
pub fn small<N: Nd>(n: &mut N) {
    let (w, h, tw, th) = (n.r32(0, 3), n.r32(0, 3), n.r32(0, 3), n.r32(0, 3));
    let (x, y) = (n.ri(-4, 4), n.ri(-4, 4));
    check(w, h, tw, th, x, y, true);
}
pub fn extreme<N: Nd>(n: &mut N) {
    let (w, h, tw, th) = (n.r32(0, 5), n.r32(0, 5), n.r32(0, 5), n.r32(0, 5));
    let (x, y) = (off(n), off(n));
    check(w, h, tw, th, x, y, n.bool());
}
/// huge views: offsets around 2^31, 2^32 with synthetic images
struct Huge(u32, u32);
impl GenericImageView for Huge {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.0, self.1) }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> { assert!(x < self.0 && y < self.1, "read outside of the top image"); Luma([(x ^ (x >> 8) ^ (x >> 16) ^ (x >> 24) ^ y.wrapping_mul(7)) as u8]) }
}
pub fn huge_top<N: Nd>(n: &mut N) {
    let (tw, th) = (n.u32(), n.u32());
    let (w, h) = (n.r32(0, 4), n.r32(0, 4));
    let t = Huge(tw, th);
    let x = if n.bool() { n.ri(-4, 4) } else { n.ri(-4, 4) - tw as i64 };
    let y = if n.bool() { n.ri(-4, 4) } else { n.ri(-4, 4) - th as i64 };
    let mut b: GrayImage = ImageBuffer::from_pixel(w, h, Luma([9]));
    if n.bool() { imageops::overlay(&mut b, &t, x, y) } else { imageops::replace(&mut b, &t, x, y) }
    for j in 0..h { for i in 0..w {
        let (tx, ty) = (i as i64 - x, j as i64 - y);
        let e = if tx >= 0 && ty >= 0 && tx < tw as i64 && ty < th as i64 { t.get_pixel(tx as u32, ty as u32) } else { Luma([9]) };
        assert_eq!(*b.get_pixel(i, j), e, "huge top {tw}x{th} at ({x},{y})");
    } }
}
pub fn bounds<N: Nd>(n: &mut N) {
    let (bw, bh, tw, th, x, y) = (n.u32(), n.u32(), n.u32(), n.u32(), n.u32(), n.u32());
    let r = imageops::overlay_bounds((bw, bh), (tw, th), x, y);
    let f = |b: u32, t: u32, x: u32| -> u32 { (b as i64).min(x as i64 + t as i64).saturating_sub(x as i64).max(0) as u32 };
    assert_eq!(r, (f(bw, tw, x), f(bh, th, y)), "overlay_bounds(({bw},{bh}),({tw},{th}),{x},{y})");
}
pub fn tiling<N: Nd>(n: &mut N) {
    let (w, h, tw, th) = (n.r32(0, 7), n.r32(0, 7), n.r32(1, 4), n.r32(1, 4));
    let t = distinct_luma16(tw, th);
    let mut b: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_pixel(w, h, Luma([5]));
    imageops::tile(&mut b, &t);
    for j in 0..h { for i in 0..w { assert_eq!(b.get_pixel(i, j), t.get_pixel(i % tw, j % th), "tile {tw}x{th} over {w}x{h}"); } }
    // each position is blended once only
    let t: A = ImageBuffer::from_pixel(tw, th, LumaA([200, 128]));
    let o = LumaA([40u8, 255]);
    let mut b: A = ImageBuffer::from_pixel(w, h, o);
    imageops::tile(&mut b, &t);
    let mut e = o; e.blend(&LumaA([200, 128]));
    for p in b.pixels() { assert_eq!(*p, e); }
}
entries! {"C04";
    small Enum "overlay, replace: all sizes up to 3x3, offsets -4..4",
    extreme Fuzz "overlay, replace: sizes up to 5x5, all i64 offsets",
    huge_top Fuzz "overlay, replace with tops up to 2^32-1 wide",
    bounds Fuzz "overlay_bounds, all arguments",
    tiling EnumFull "tile, sizes up to 7x7 with tiles up to 4x4",
}
