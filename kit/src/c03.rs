//! C03 flips and rotations
use crate::img::*;
use crate::nd::*;
use image::metadata::Orientation;
use image::*;

type L = ImageBuffer<Luma<u16>, Vec<u16>>;
fn same(a: &L, w: u32, h: u32, f: impl Fn(u32, u32) -> (u32, u32), src: &L, what: &str) {
    assert_eq!(a.dimensions(), (w, h), "{what}: dimensions");
    for y in 0..h { for x in 0..w { let (sx, sy) = f(x, y); assert_eq!(a.get_pixel(x, y), src.get_pixel(sx, sy), "{what}: pixel ({x},{y}) of {w}x{h}"); } }
}
/// copying and in-place transforms on images with distinct pixels
pub fn transforms<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 7), n.r32(0, 7));
    let s = distinct_luma16(w, h);
    same(&imageops::rotate90(&s), h, w, |x, y| (y, h - 1 - x), &s, "rotate90");
    same(&imageops::rotate180(&s), w, h, |x, y| (w - 1 - x, h - 1 - y), &s, "rotate180");
    same(&imageops::rotate270(&s), h, w, |x, y| (w - 1 - y, x), &s, "rotate270");
    same(&imageops::flip_horizontal(&s), w, h, |x, y| (w - 1 - x, y), &s, "flip_horizontal");
    same(&imageops::flip_vertical(&s), w, h, |x, y| (x, h - 1 - y), &s, "flip_vertical");
    let mut a = s.clone(); imageops::rotate180_in_place(&mut a); same(&a, w, h, |x, y| (w - 1 - x, h - 1 - y), &s, "rotate180_in_place");
    let mut a = s.clone(); imageops::flip_horizontal_in_place(&mut a); same(&a, w, h, |x, y| (w - 1 - x, y), &s, "flip_horizontal_in_place");
    let mut a = s.clone(); imageops::flip_vertical_in_place(&mut a); same(&a, w, h, |x, y| (x, h - 1 - y), &s, "flip_vertical_in_place");
}
/// mismatching destinations are refused and left alone, matching ones filled
pub fn destinations<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 3), n.r32(0, 3));
    let (w1, h1) = (n.r32(0, 3), n.r32(0, 3));
    let s = distinct_luma16(w, h);
    let d0: L = ImageBuffer::from_pixel(w1, h1, Luma([7]));
    let k = n.range(0, 4);
    let mut d = d0.clone();
    let r = match k { 0 => imageops::rotate90_in(&s, &mut d), 1 => imageops::rotate180_in(&s, &mut d), 2 => imageops::rotate270_in(&s, &mut d),
        3 => imageops::flip_horizontal_in(&s, &mut d), _ => imageops::flip_vertical_in(&s, &mut d) };
    let swap = k == 0 || k == 2;
    let ok = if swap { (w1, h1) == (h, w) } else { (w1, h1) == (w, h) };
    assert_eq!(r.is_ok(), ok, "transform {k}: {w}x{h} into {w1}x{h1}");
    if !ok { assert_eq!(d, d0, "refused transform {k} changed the destination"); }
    else { let e = match k { 0 => imageops::rotate90(&s), 1 => imageops::rotate180(&s), 2 => imageops::rotate270(&s), 3 => imageops::flip_horizontal(&s), _ => imageops::flip_vertical(&s) }; assert_eq!(d, e); }
}
/// DynamicImage methods and apply_orientation, all ten sample layouts
pub fn dynamic<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 4), n.r32(0, 4));
    let k = n.range(0, 9);
    let s = dyn_of_kind(k, w, h, &mut |i| 17 + (i as u32) * 1103);
    let o = n.range(0, 7);
    let op = n.range(0, 1);
    // destination coordinate -> source coordinate, per EXIF orientation o+1
    let f = |x: u32, y: u32| -> (u32, u32) { match o {
        0 => (x, y), 1 => (w - 1 - x, y), 2 => (w - 1 - x, h - 1 - y), 3 => (x, h - 1 - y),
        4 => (y, x), 5 => (y, h - 1 - x), 6 => (w - 1 - y, h - 1 - x), _ => (w - 1 - y, x) } };
    let d = if op == 0 {
        let mut d = s.clone();
        d.apply_orientation(match o { 0 => Orientation::NoTransforms, 1 => Orientation::FlipHorizontal, 2 => Orientation::Rotate180, 3 => Orientation::FlipVertical,
            4 => Orientation::Rotate90FlipH, 5 => Orientation::Rotate90, 6 => Orientation::Rotate270FlipH, _ => Orientation::Rotate270 });
        d
    } else {
        match o { 0 => s.clone(), 1 => s.fliph(), 2 => s.rotate180(), 3 => s.flipv(), 5 => s.rotate90(), 7 => s.rotate270(), _ => { n.assume(false); unreachable!() } }
    };
    let (dw, dh) = if o >= 4 { (h, w) } else { (w, h) };
    assert_eq!((d.width(), d.height()), (dw, dh), "orientation {o}: dimensions");
    assert_eq!(d.color(), s.color());
    for y in 0..dh { for x in 0..dw { let (a, b) = f(x, y); assert_eq!(pix_bytes(&d, x, y), pix_bytes(&s, a, b), "orientation {} op {op}: pixel ({x},{y}) of {w}x{h} kind {k}", o + 1); } }
}
entries! {"C03";
    transforms EnumFull "all transforms on all sizes up to 7x7",
    destinations EnumFull "destination size check, sizes up to 3x3",
    dynamic EnumFull "DynamicImage::{rotate*,flip*,apply_orientation} (macro dispatch, not under contract), all kinds, sizes up to 4x4",
}
