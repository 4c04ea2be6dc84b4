//! C08 colour conversion
use crate::img::*;
use crate::nd::*;
use image::buffer::ConvertBuffer;
use image::*;
/// what a sample is worth, 0..=1, and the conversions the documentation promises
pub trait Samp: Primitive + PartialEq + std::fmt::Debug + 'static {
    fn draw<N: Nd>(n: &mut N) -> Self;
    const MAX: f64; const FLOAT: bool;
    fn val(self) -> f64;
}
impl Samp for u8 { fn draw<N: Nd>(n: &mut N) -> u8 { n.u8() } const MAX: f64 = 255.; const FLOAT: bool = false; fn val(self) -> f64 { self as f64 } }
impl Samp for u16 { fn draw<N: Nd>(n: &mut N) -> u16 { n.u16() } const MAX: f64 = 65535.; const FLOAT: bool = false; fn val(self) -> f64 { self as f64 } }
impl Samp for f32 { fn draw<N: Nd>(n: &mut N) -> f32 { match n.range(0, 3) { 0 => n.f32(), 1 => [0., 1., -1., 2., f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 0.5, f32::MIN_POSITIVE, -0.0][n.range(0, 11)], 2 => (n.u8() as f32 + n.range(0, 2) as f32 * 0.5) / 255.0, _ => n.u16() as f32 / 65535.0 } } const MAX: f64 = 1.; const FLOAT: bool = true; fn val(self) -> f64 { self as f64 } }
/// is `to` the correct representation of `from`?
pub fn depth_ok<S: Samp, T: Samp>(from: S, to: T) -> bool {
    let same = S::MAX == T::MAX;
    if same { return from.val() == to.val() || (S::FLOAT && from.val().is_nan() && to.val().is_nan()); }
    let x = from.val() / S::MAX;
    if x.is_nan() { return to.val() == T::MAX; } // documented: NaN becomes white
    let e = x.clamp(0.0, 1.0) * T::MAX;
    if T::FLOAT { (to.val() - e).abs() <= 6.1e-8 && (e != 0. || to.val() == 0.) && (e != 1. || to.val() == 1.) }
    else { (to.val() - e).abs() <= 0.5 + if S::FLOAT { T::MAX * 6.1e-8 } else { 0.0 } }
}
fn one<S: Samp, T: Samp>(s: S) -> T where Luma<T>: ConvFrom<Luma<S>> { Luma::<T>::of(&Luma([s])).0[0] }
/// conversion of one pixel through the public ImageBuffer::convert
pub trait ConvFrom<F>: Sized { fn of(f: &F) -> Self; }
macro_rules! conv { ($($s:ty),*; $m:tt) => { $( conv!(@ $s; $m); )* }; (@ $s:ty; [$($t:ty),*]) => { $( conv!(@@ $s, $t, Luma, Luma); conv!(@@ $s, $t, Luma, LumaA); conv!(@@ $s, $t, Luma, Rgb); conv!(@@ $s, $t, Luma, Rgba);
    conv!(@@ $s, $t, LumaA, Luma); conv!(@@ $s, $t, LumaA, LumaA); conv!(@@ $s, $t, LumaA, Rgb); conv!(@@ $s, $t, LumaA, Rgba);
    conv!(@@ $s, $t, Rgb, Luma); conv!(@@ $s, $t, Rgb, LumaA); conv!(@@ $s, $t, Rgb, Rgb); conv!(@@ $s, $t, Rgb, Rgba);
    conv!(@@ $s, $t, Rgba, Luma); conv!(@@ $s, $t, Rgba, LumaA); conv!(@@ $s, $t, Rgba, Rgb); conv!(@@ $s, $t, Rgba, Rgba); )* };
    (@@ $s:ty, $t:ty, $a:ident, $b:ident) => { impl ConvFrom<$a<$s>> for $b<$t> { fn of(f: &$a<$s>) -> Self {
        let i: ImageBuffer<$a<$s>, Vec<$s>> = ImageBuffer::from_pixel(1, 1, *f); let o: ImageBuffer<$b<$t>, Vec<$t>> = i.convert(); *o.get_pixel(0, 0) } } };
}
conv!(u8, u16, f32; [u8, u16, f32]);
/// luma of integer colour is the truncated weighted mean, of float colour the weighted mean
fn luma_of<S: Samp>(c: &[S]) -> Result<u64, f64> {
    if S::FLOAT { Err(0.2126 * c[0].val() + 0.7152 * c[1].val() + 0.0722 * c[2].val()) }
    else { Ok((2126 * c[0].val() as u64 + 7152 * c[1].val() as u64 + 722 * c[2].val() as u64) / 10000) }
}
fn luma_back<S: Samp>(v: Result<u64, f64>) -> f64 { match v { Ok(v) => v as f64, Err(e) => e } }
fn luma_ok<S: Samp, T: Samp>(c: &[S], t: T) -> bool {
    let v = luma_back::<S>(luma_of(c));
    if v.is_nan() { return if T::FLOAT { t.val().is_nan() } else { t.val() == T::MAX }; }
    let x = v / S::MAX;
    if S::FLOAT && T::FLOAT { return (t.val() - v).abs() <= 1e-6 * (1.0 + c.iter().take(3).map(|c| c.val().abs()).sum::<f64>()) || v.abs() > f32::MAX as f64 && t.val().abs() >= f32::MAX as f64; }
    let e = x.clamp(0.0, 1.0) * T::MAX;
    if S::MAX == T::MAX { return t.val() == v; }
    // float to integer: the float luma is itself rounded to f32 before conversion
    if T::FLOAT { (t.val() - e).abs() <= 1e-6 } else if S::FLOAT { let sum: f64 = c.iter().take(3).map(|c| c.val().abs()).sum(); (t.val() - e).abs() <= 0.5 + T::MAX * 3e-7 * (1.0 + sum) } else { (t.val() - e).abs() <= 0.5 }
}
fn pair<S: Samp, T: Samp, N: Nd>(n: &mut N)
where Luma<T>: ConvFrom<Luma<S>> + ConvFrom<LumaA<S>> + ConvFrom<Rgb<S>> + ConvFrom<Rgba<S>>, LumaA<T>: ConvFrom<Luma<S>> + ConvFrom<LumaA<S>> + ConvFrom<Rgb<S>> + ConvFrom<Rgba<S>>,
      Rgb<T>: ConvFrom<Luma<S>> + ConvFrom<LumaA<S>> + ConvFrom<Rgb<S>> + ConvFrom<Rgba<S>>, Rgba<T>: ConvFrom<Luma<S>> + ConvFrom<LumaA<S>> + ConvFrom<Rgb<S>> + ConvFrom<Rgba<S>> {
    let c: Vec<S> = (0..4).map(|_| S::draw(n)).collect();
    let full = |t: T| t.val() == T::MAX;
    let d = |s: S, t: T| depth_ok(s, t);
    let what = format!("{} -> {} of {c:?}", std::any::type_name::<S>(), std::any::type_name::<T>());
    { let p = Luma([c[0]]); let (a, b, e, f) = (Luma::<T>::of(&p), LumaA::<T>::of(&p), Rgb::<T>::of(&p), Rgba::<T>::of(&p));
      assert!(d(c[0], a.0[0]), "Luma->Luma {what}: {a:?}"); assert!(d(c[0], b.0[0]) && full(b.0[1]), "Luma->LumaA {what}: {b:?}"); assert!(e.0.iter().all(|&t| d(c[0], t)), "Luma->Rgb {what}: {e:?}"); assert!(f.0[..3].iter().all(|&t| d(c[0], t)) && full(f.0[3]), "Luma->Rgba {what}: {f:?}"); }
    { let p = LumaA([c[0], c[1]]); let (a, b, e, f) = (Luma::<T>::of(&p), LumaA::<T>::of(&p), Rgb::<T>::of(&p), Rgba::<T>::of(&p));
      assert!(d(c[0], a.0[0]), "LumaA->Luma {what}: {a:?}"); assert!(d(c[0], b.0[0]) && d(c[1], b.0[1]), "LumaA->LumaA {what}: {b:?}"); assert!(e.0.iter().all(|&t| d(c[0], t)), "LumaA->Rgb {what}: {e:?}"); assert!(f.0[..3].iter().all(|&t| d(c[0], t)) && d(c[1], f.0[3]), "LumaA->Rgba {what}: {f:?}"); }
    { let p = Rgb([c[0], c[1], c[2]]); let (a, b, e, f) = (Luma::<T>::of(&p), LumaA::<T>::of(&p), Rgb::<T>::of(&p), Rgba::<T>::of(&p));
      assert!(luma_ok(&c, a.0[0]), "Rgb->Luma {what}: {a:?}"); assert!(luma_ok(&c, b.0[0]) && full(b.0[1]), "Rgb->LumaA {what}: {b:?}"); assert!((0..3).all(|i| d(c[i], e.0[i])), "Rgb->Rgb {what}: {e:?}"); assert!((0..3).all(|i| d(c[i], f.0[i])) && full(f.0[3]), "Rgb->Rgba {what}: {f:?}"); }
    { let p = Rgba([c[0], c[1], c[2], c[3]]); let (a, b, e, f) = (Luma::<T>::of(&p), LumaA::<T>::of(&p), Rgb::<T>::of(&p), Rgba::<T>::of(&p));
      assert!(luma_ok(&c, a.0[0]), "Rgba->Luma {what}: {a:?}"); assert!(luma_ok(&c, b.0[0]) && d(c[3], b.0[1]), "Rgba->LumaA {what}: {b:?}"); assert!((0..3).all(|i| d(c[i], e.0[i])), "Rgba->Rgb {what}: {e:?}"); assert!((0..4).all(|i| d(c[i], f.0[i])), "Rgba->Rgba {what}: {f:?}"); }
}
pub fn models<N: Nd>(n: &mut N) {
    match n.range(0, 8) { 0 => pair::<u8, u8, N>(n), 1 => pair::<u8, u16, N>(n), 2 => pair::<u8, f32, N>(n), 3 => pair::<u16, u8, N>(n), 4 => pair::<u16, u16, N>(n), 5 => pair::<u16, f32, N>(n), 6 => pair::<f32, u8, N>(n), 7 => pair::<f32, u16, N>(n), _ => pair::<f32, f32, N>(n) }
}
/// all 8- and 16-bit values: rounding, end points, round trips
pub fn depths<N: Nd>(n: &mut N) {
    let v = n.u16();
    let w: u8 = one(v); assert_eq!(w as u32, (v as u32 * 255 * 2 + 65535) / (65535 * 2), "u16 {v} -> u8");
    let f: f32 = one(v); assert!(depth_ok(v, f), "u16 {v} -> f32 {f}"); assert_eq!(one::<f32, u16>(f), v, "u16 {v} -> f32 -> u16");
    if v < 256 { let b = v as u8; let x: u16 = one(b); assert_eq!(x as u32, b as u32 * 257, "u8 {b} -> u16"); assert_eq!(one::<u16, u8>(x), b, "u8 {b} -> u16 -> u8");
        let f: f32 = one(b); assert!(depth_ok(b, f), "u8 {b} -> f32 {f}"); assert_eq!(one::<f32, u8>(f), b, "u8 {b} -> f32 -> u8"); assert_eq!(one::<f32, u8>((b as f32 + 0.499) / 255.0), b); assert_eq!(one::<f32, u8>((b as f32 - 0.499) / 255.0), b); }
}
/// inherent conversions of pixels of one depth
pub fn to_models<N: Nd>(n: &mut N) {
    macro_rules! go { ($t:ty) => {{
        let c: Vec<$t> = (0..4).map(|_| <$t as Samp>::draw(n)).collect(); let max = <$t as Primitive>::DEFAULT_MAX_VALUE;
        let eq = |a: &[$t], b: &[$t]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x != x && y != y));
        let y = |p: &[$t]| Luma::<$t>::of(&Rgb([p[0], p[1], p[2]])).0[0];
        let (l, la, r, ra) = (Luma([c[0]]), LumaA([c[0], c[1]]), Rgb([c[0], c[1], c[2]]), Rgba([c[0], c[1], c[2], c[3]]));
        assert!(luma_ok(&c, y(&c)));
        assert!(eq(&l.to_luma().0, &[c[0]]) && eq(&l.to_luma_alpha().0, &[c[0], max]) && eq(&l.to_rgb().0, &[c[0]; 3]) && eq(&l.to_rgba().0, &[c[0], c[0], c[0], max]), "Luma {c:?}");
        assert!(eq(&la.to_luma().0, &[c[0]]) && eq(&la.to_luma_alpha().0, &[c[0], c[1]]) && eq(&la.to_rgb().0, &[c[0]; 3]) && eq(&la.to_rgba().0, &[c[0], c[0], c[0], c[1]]), "LumaA {c:?}");
        assert!(eq(&r.to_luma().0, &[y(&c)]) && eq(&r.to_luma_alpha().0, &[y(&c), max]) && eq(&r.to_rgb().0, &c[..3]) && eq(&r.to_rgba().0, &[c[0], c[1], c[2], max]), "Rgb {c:?}");
        assert!(eq(&ra.to_luma().0, &[y(&c)]) && eq(&ra.to_luma_alpha().0, &[y(&c), c[3]]) && eq(&ra.to_rgb().0, &c[..3]) && eq(&ra.to_rgba().0, &c), "Rgba {c:?}");
        let b: ImageBuffer<Rgba<$t>, Vec<$t>> = ImageBuffer::from_pixel(2, 1, ra);
        let (g, ga) = (imageops::grayscale(&b), imageops::grayscale_alpha(&b));
        for x in 0..2 { assert!(eq(&g.get_pixel(x, 0).0, &[y(&c)]) && eq(&ga.get_pixel(x, 0).0, &[y(&c), c[3]]), "grayscale of {c:?}"); }
    }} }
    match n.range(0, 2) { 0 => go!(u8), 1 => go!(u16), _ => go!(f32) }
}
/// DynamicImage::to_*, into_*, grayscale agree with the conversion of each pixel
pub fn dynamic<N: Nd>(n: &mut N) {
    let (w, h, k) = (n.r32(0, 3), n.r32(0, 3), n.range(0, 9));
    let seed = n.u32();
    let d = dyn_of_kind(k, w, h, &mut |i| (i as u32).wrapping_mul(2654435761).wrapping_add(seed) >> 9);
    macro_rules! each { ($b:expr) => {{
        macro_rules! to { ($m:ident, $P:ident, $t:ty) => {{ let o = d.$m(); assert_eq!(o.dimensions(), (w, h), "{}", stringify!($m)); for y in 0..h { for x in 0..w { assert_eq!(*o.get_pixel(x, y), $P::<$t>::of($b.get_pixel(x, y)), "{} of {:?} at ({x},{y})", stringify!($m), d.color()); } } }} }
        to!(to_rgb8, Rgb, u8); to!(to_rgb16, Rgb, u16); to!(to_rgb32f, Rgb, f32); to!(to_rgba8, Rgba, u8); to!(to_rgba16, Rgba, u16); to!(to_rgba32f, Rgba, f32);
        to!(to_luma8, Luma, u8); to!(to_luma16, Luma, u16); to!(to_luma32f, Luma, f32); to!(to_luma_alpha8, LumaA, u8); to!(to_luma_alpha16, LumaA, u16); to!(to_luma_alpha32f, LumaA, f32);
        macro_rules! into { ($m:ident, $n:ident) => { assert!(d.clone().$m() == d.$n(), "{} of {:?}", stringify!($m), d.color()); } }
        into!(into_rgb8, to_rgb8); into!(into_rgb16, to_rgb16); into!(into_rgb32f, to_rgb32f); into!(into_rgba8, to_rgba8); into!(into_rgba16, to_rgba16); into!(into_rgba32f, to_rgba32f);
        into!(into_luma8, to_luma8); into!(into_luma16, to_luma16); into!(into_luma_alpha8, to_luma_alpha8); into!(into_luma_alpha16, to_luma_alpha16);
        for y in 0..h { for x in 0..w { assert_eq!(d.get_pixel(x, y), Rgba::<u8>::of($b.get_pixel(x, y)), "get_pixel of {:?}", d.color()); } }
    }} }
    match &d { DynamicImage::ImageLuma8(b) => each!(b), DynamicImage::ImageLumaA8(b) => each!(b), DynamicImage::ImageRgb8(b) => each!(b), DynamicImage::ImageRgba8(b) => each!(b), DynamicImage::ImageLuma16(b) => each!(b), DynamicImage::ImageLumaA16(b) => each!(b), DynamicImage::ImageRgb16(b) => each!(b), DynamicImage::ImageRgba16(b) => each!(b), DynamicImage::ImageRgb32F(b) => each!(b), DynamicImage::ImageRgba32F(b) => each!(b), _ => {} }
    let z = DynamicImage::new(w, h, d.color());
    assert_eq!((z.width(), z.height(), z.color(), z.as_bytes().len()), (w, h, d.color(), (w * h) as usize * d.color().bytes_per_pixel() as usize), "DynamicImage::new"); assert!(z.as_bytes().iter().all(|&b| b == 0));
    let g = d.grayscale();
    assert_eq!((g.width(), g.height(), g.color().has_alpha()), (w, h, d.color().has_alpha()), "grayscale of {:?}", d.color());
    assert!(g.to_luma16() == d.to_luma16() || d.color().bytes_per_pixel() >= 12 || d.color().bytes_per_pixel() <= 4, "grayscale of {:?}", d.color());
    match &d { DynamicImage::ImageRgb8(_) | DynamicImage::ImageLuma8(_) | DynamicImage::ImageRgba8(_) | DynamicImage::ImageLumaA8(_) => assert!(g.to_luma_alpha8() == d.to_luma_alpha8(), "grayscale of {:?}", d.color()), _ => assert!(g.to_luma_alpha16().pixels().zip(d.to_luma_alpha16().pixels()).all(|(a, b)| a.0[1] == b.0[1] && (a.0[0] as i32 - b.0[0] as i32).abs() <= 1), "grayscale of {:?}", d.color()) }
}
entries! {"C08";
    depths EnumFull "all 65536 16-bit and 256 8-bit values through every depth conversion",
    models Fuzz "all 16 colour model pairs x 9 depth pairs, including NaN, infinities and out-of-range floats",
    to_models Fuzz "to_luma, to_luma_alpha, to_rgb, to_rgba, grayscale",
    dynamic Fuzz "DynamicImage::to_*, into_*, get_pixel, grayscale for all ten kinds",
}
