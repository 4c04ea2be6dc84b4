//! C09 blending, inversion, brightening
use crate::c08::Samp;
use crate::img::*;
use crate::nd::*;
use image::*;
fn max<T: Primitive>() -> T { T::DEFAULT_MAX_VALUE }
fn alpha<T: Samp, N: Nd>(n: &mut N) -> T { match n.range(0, 4) { 0 => T::DEFAULT_MIN_VALUE, 1 | 2 => max(), _ => T::draw(n) } }
fn blends<T: Samp, N: Nd>(n: &mut N) where Rgba<T>: Pixel<Subpixel = T>, Rgb<T>: Pixel<Subpixel = T> {
    let c: Vec<T> = (0..8).map(|_| loop { let v = T::draw(n); if v.val().is_nan() { n.assume(false); } break v; }).collect();
    let (ba, fa) = (alpha::<T, N>(n), alpha::<T, N>(n));
    n.assume(!ba.val().is_nan() && !fa.val().is_nan());
    macro_rules! go { ($P:ident, $bg:expr, $fg:expr) => {{
        let (bg, fg) = ($P($bg), $P($fg));
        let r = catch(|| { let mut p = bg; p.blend(&fg); p });
        let what = format!("blending {fg:?} over {bg:?}");
        let opaque = fa.val() == T::MAX || bg.0.len() % 2 == 1; let clear = fa.val() == 0.0 && bg.0.len() % 2 == 0;
        if !T::FLOAT { assert!(r.is_some(), "{what} panicked"); }
        if opaque { assert_eq!(r, Some(fg), "{what} (opaque)"); } else if clear { assert_eq!(r, Some(bg), "{what} (transparent)"); }
        else if !T::FLOAT {
            // source-over with straight alpha, truncated
            let k = bg.0.len() - 1; let (b, f) = (ba.val() / T::MAX, fa.val() / T::MAX); let a = b + f - b * f; let r = r.unwrap();
            let tol = 1.0 + T::MAX * 3e-6;
            assert!((r.0[k].val() - a * T::MAX).abs() <= tol, "{what}: alpha {:?}, exactly {}", r.0[k], a * T::MAX);
            for i in 0..k { let e = (fg.0[i].val() * f + bg.0[i].val() * b * (1.0 - f)) / a; assert!((r.0[i].val() - e).abs() <= tol, "{what}: channel {i} {:?}, exactly {e}", r.0[i]); }
        }
    }} }
    go!(Rgba, [c[0], c[1], c[2], ba], [c[4], c[5], c[6], fa]);
    go!(LumaA, [c[0], ba], [c[4], fa]);
    go!(Rgb, [c[0], c[1], c[2]], [c[4], c[5], c[6]]);
    go!(Luma, [c[0]], [c[4]]);
}
pub fn blending<N: Nd>(n: &mut N) { match n.range(0, 2) { 0 => blends::<u8, N>(n), 1 => blends::<u16, N>(n), _ => blends::<f32, N>(n) } }
pub fn inverting<N: Nd>(n: &mut N) {
    macro_rules! go { ($t:ty, $draw:expr, $exact:expr) => {{
        let c: Vec<$t> = (0..4).map(|_| $draw).collect(); let m = <$t as Primitive>::DEFAULT_MAX_VALUE;
        macro_rules! p { ($P:expr, $k:expr, $a:expr) => {{ let p0 = $P; let mut p = p0; p.invert(); for i in 0..$k { assert_eq!(p.0[i], if i < $a { m - p0.0[i] } else { p0.0[i] }, "inverting {p0:?}"); } if $exact { p.invert(); assert_eq!(p, p0, "inverting twice"); }
            let mut b: ImageBuffer<_, Vec<$t>> = ImageBuffer::from_pixel(3, 2, p0); b.put_pixel(1, 1, { let mut q = p0; q.invert(); q }); let o = b.clone(); imageops::invert(&mut b);
            for y in 0..2 { for x in 0..3 { let mut e = *o.get_pixel(x, y); e.invert(); assert_eq!(*b.get_pixel(x, y), e, "imageops::invert at ({x},{y})"); } } }} }
        p!(Luma([c[0]]), 1, 1); p!(LumaA([c[0], c[1]]), 2, 1); p!(Rgb([c[0], c[1], c[2]]), 3, 3); p!(Rgba([c[0], c[1], c[2], c[3]]), 4, 3);
    }} }
    match n.range(0, 3) { 0 => go!(u8, n.u8(), true), 1 => go!(u16, n.u16(), true), 2 => go!(u32, n.u32(), true), _ => go!(f32, n.u16() as f32 / 65536.0, true) }
    let k = n.range(0, 7); let s = n.u32();
    let d = dyn_of_kind(k, 2, 3, &mut |i| (i as u32).wrapping_mul(2654435761).wrapping_add(s) >> 9);
    let mut e = d.clone(); e.invert();
    for y in 0..3 { for x in 0..2 { let (a, b) = (d.get_pixel(x, y), e.get_pixel(x, y)); assert_eq!(a.0[3], b.0[3], "{:?}: alpha inverted", d.color()); if k < 4 { for i in 0..3 { assert_eq!(b.0[i], 255 - a.0[i], "{:?}: DynamicImage::invert", d.color()); } } } }
    e.invert(); assert_eq!(e, d, "inverting twice");
}
pub fn brightening<N: Nd>(n: &mut N) {
    let v = n.i32(); let v = match n.range(0, 3) { 0 => v, 1 => n.ri(-300, 300) as i32, 2 => n.ri(-70000, 70000) as i32, _ => [i32::MIN, i32::MAX, 0, 1, -1, -255, 255, 65535, -65535][n.range(0, 8)] };
    macro_rules! go { ($t:ty, $draw:expr) => {{
        let c: Vec<$t> = (0..4).map(|_| $draw).collect(); let m = <$t>::MAX as i64;
        macro_rules! p { ($P:expr, $k:expr, $a:expr) => {{ let p0 = $P; let mut b: ImageBuffer<_, Vec<$t>> = ImageBuffer::new(3, 2); for (i, q) in b.pixels_mut().enumerate() { *q = p0; if i == 3 { q.0[0] = 7; } }
            let r = catch(|| imageops::brighten(&b, v)); assert!(r.is_some(), "brighten {p0:?} by {v} panicked"); let r = r.unwrap(); assert_eq!(r.dimensions(), b.dimensions(), "size after brightening");
            for (o, q) in b.pixels().zip(r.pixels()) { for i in 0..$k { assert_eq!(q.0[i] as i64, if i < $a { (o.0[i] as i64 + v as i64).clamp(0, m) } else { o.0[i] as i64 }, "brighten {o:?} by {v}"); } }
            let mut ip = b.clone(); imageops::colorops::brighten_in_place(&mut ip, v); assert!(ip == r, "brighten_in_place {p0:?} by {v}: {:?} instead of {:?}", ip.get_pixel(0, 0), r.get_pixel(0, 0)); }} }
        p!(Luma([c[0]]), 1, 1); p!(LumaA([c[0], c[1]]), 2, 1); p!(Rgb([c[0], c[1], c[2]]), 3, 3); p!(Rgba([c[0], c[1], c[2], c[3]]), 4, 3);
    }} }
    if n.bool() { go!(u8, n.u8()) } else { go!(u16, n.u16()) }
    let k = n.range(0, 7); let s = n.u32();
    let d = dyn_of_kind(k, 2, 3, &mut |i| (i as u32).wrapping_mul(2654435761).wrapping_add(s) >> 9);
    let r = d.brighten(v); assert_eq!((r.color(), r.width(), r.height()), (d.color(), 2, 3));
    let (ch, a) = (d.color().channel_count() as usize, d.color().has_alpha() as usize);
    let f = |d: &DynamicImage| -> Vec<i64> { if k < 4 { d.as_bytes().iter().map(|&b| b as i64).collect() } else { d.as_bytes().chunks(2).map(|b| u16::from_ne_bytes([b[0], b[1]]) as i64).collect() } };
    for (i, (o, q)) in f(&d).into_iter().zip(f(&r)).enumerate() { assert_eq!(q, if i % ch < ch - a { (o + v as i64).clamp(0, if k < 4 { 255 } else { 65535 }) } else { o }, "DynamicImage::brighten of {:?} by {v}", d.color()); }
}
/// channel mapping helpers used by all of these
pub fn mapping<N: Nd>(n: &mut N) {
    let c = [n.u8(), n.u8(), n.u8(), n.u8()]; let e = [n.u8(), n.u8(), n.u8(), n.u8()];
    macro_rules! p { ($P:expr, $Q:expr, $k:expr, $a:expr) => {{ let (p, q) = ($P, $Q);
        let f = |x: u8| x.wrapping_mul(3) ^ 1; let g = |x: u8| x.wrapping_add(9);
        let w = p.map_with_alpha(f, g); let m = p.map(f); let wo = p.map_without_alpha(f); let m2 = p.map2(&q, |a, b| a.wrapping_mul(5) ^ b);
        let mut ip = p; ip.apply_with_alpha(f, g); assert_eq!(ip, w); let mut ip = p; ip.apply(f); assert_eq!(ip, m); let mut ip = p; ip.apply_without_alpha(f); assert_eq!(ip, wo); let mut ip = p; ip.apply2(&q, |a, b| a.wrapping_mul(5) ^ b); assert_eq!(ip, m2);
        for i in 0..$k { assert_eq!(w.0[i], if i < $a { f(p.0[i]) } else { g(p.0[i]) }, "map_with_alpha {p:?}"); assert_eq!(m.0[i], f(p.0[i]), "map {p:?}"); assert_eq!(wo.0[i], if i < $a { f(p.0[i]) } else { p.0[i] }, "map_without_alpha {p:?}"); assert_eq!(m2.0[i], p.0[i].wrapping_mul(5) ^ q.0[i], "map2 {p:?}"); } }} }
    p!(Luma([c[0]]), Luma([e[0]]), 1, 1); p!(LumaA([c[0], c[1]]), LumaA([e[0], e[1]]), 2, 1); p!(Rgb([c[0], c[1], c[2]]), Rgb([e[0], e[1], e[2]]), 3, 3); p!(Rgba(c), Rgba(e), 4, 3);
}
entries! {"C09";
    blending Fuzz "blend: Rgba, LumaA, Rgb, Luma of u8, u16, f32",
    inverting Fuzz "invert on pixels, images, DynamicImage",
    brightening Fuzz "brighten, brighten_in_place, DynamicImage::brighten: all amounts",
    mapping Fuzz "map, map_with_alpha, map_without_alpha, map2, apply*",
}
