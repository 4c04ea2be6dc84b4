//! C20 resize targets
use crate::nd::*;
use image::imageops::FilterType;
use image::*;
fn check(what: &str, (w, h): (u32, u32), (nw, nh): (u32, u32), fill: bool, (rw, rh): (u32, u32)) {
    let (w, h, nw, nh, rw, rh) = (w as u128, h as u128, nw as u128, nh as u128, rw as u128, rh as u128);
    let max = u32::MAX as u128;
    assert!(rw >= 1 && rh >= 1, "{what}: empty");
    let clamped = fill && { let a = nw * h; let b = nh * w; (if a >= b { nw * h > max * w + w / 2 } else { false }) || (if b >= a { nh * w > max * h + h / 2 } else { false }) };
    if !fill { assert!(rw <= nw && rh <= nh, "{what}: outside the box"); assert!(rw == nw || rh == nh, "{what}: touches neither side of the box"); }
    else if !clamped { assert!(rw >= nw && rh >= nh, "{what}: does not fill the box"); assert!(rw == nw || rh == nh, "{what}: exceeds the box on both sides"); }
    else { assert!(rw == max || rh == max, "{what}: clamped but neither side is at the limit"); }
    // aspect ratio: each side is within half a pixel (plus rounding of doubles) of the exact scaled side of the other, or 1
    let close = |a: u128, num: u128, den: u128| a == 1 && 2 * num < 4 * den || (2 * a * den).abs_diff(2 * num) <= den + den / 1000 + 1 + num / (1 << 48);
    // rw/w == rh/h up to rounding: compare through whichever side equals the box (or the limit)
    let through_w = rw == nw || rw == max; let through_h = rh == nh || rh == max;
    assert!(through_w && close(rh, h * rw, w) || through_h && close(rw, w * rh, h), "{what}: aspect ratio");
}
#[cfg(has_math)]
pub fn sizes<N: Nd>(n: &mut N) {
    let (w, h) = (n.u32().max(1), n.u32().max(1));
    let (nw, nh) = match n.range(0, 5) { 0 => (w, n.u32().max(1)), 1 => (n.u32().max(1), h), 2 => (w / 2 + 1, h / 2 + 1), 3 => (w.saturating_mul(2), h.saturating_mul(2)), _ => (n.u32().max(1), n.u32().max(1)) };
    let fill = n.bool();
    let r = catch(|| crate::ext::math::resize_dimensions(w, h, nw, nh, fill)).unwrap_or_else(|| panic!("resize_dimensions({w},{h},{nw},{nh},{fill}): panic"));
    check(&format!("resize_dimensions({w},{h},{nw},{nh},{fill}) = {r:?}"), (w, h), (nw, nh), fill, r);
}
#[cfg(not(has_math))]
pub fn sizes<N: Nd>(n: &mut N) { n.assume(false) }
/// the public operations
pub fn operations<N: Nd>(n: &mut N) {
    let (w, h, nw, nh) = (n.r32(1, 30), n.r32(1, 30), n.r32(1, 30), n.r32(1, 30));
    let d = DynamicImage::new_luma8(w, h);
    let f = FilterType::Nearest;
    check(&format!("resize {w}x{h} to {nw}x{nh}"), (w, h), (nw, nh), false, d.resize(nw, nh, f).dimensions());
    check(&format!("thumbnail {w}x{h} to {nw}x{nh}"), (w, h), (nw, nh), false, d.thumbnail(nw, nh).dimensions());
    for (what, r) in [("resize_exact", d.resize_exact(nw, nh, f)), ("resize_to_fill", d.resize_to_fill(nw, nh, f)), ("thumbnail_exact", d.thumbnail_exact(nw, nh))] { assert_eq!(r.dimensions(), (nw, nh), "{what} {w}x{h}"); }
}
/// filling crops the middle of the image scaled to cover the box
pub fn filling<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 12), n.r32(1, 12)); let k = n.r32(1, 2);
    let (nw, nh) = if n.bool() { (w * k, n.r32(1, h * k)) } else { (n.r32(1, w * k), h * k) };
    let d = DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([(y * 100 + x) as u16])));
    let o = d.resize_to_fill(nw, nh, FilterType::Nearest).to_luma16();
    assert_eq!(o.dimensions(), (nw, nh));
    let (cw, ch) = (w * k, h * k); let (x0, y0) = ((cw - nw) / 2, (ch - nh) / 2);
    if nw == cw || nh == ch { for (x, y, p) in o.enumerate_pixels() { let want = ((y + y0) / k) * 100 + (x + x0) / k; assert_eq!(p.0[0] as u32, want, "resize_to_fill {w}x{h} to {nw}x{nh}: pixel ({x},{y})"); } }
}
entries! { "C20";
    sizes Fuzz "resize_dimensions: all sizes from 1 to 2^32-1, both modes",
    operations Fuzz "resize, thumbnail, resize_exact, resize_to_fill up to 30x30",
    filling Fuzz "crop position of resize_to_fill at integer scales",
}
