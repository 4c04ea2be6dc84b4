//@include prelude_image.vrs
// ---- pixels as vectors of samples; the contract of map_with_alpha and invert is proved for every pixel type in pixmap.vrs and blend.vrs
pub trait PixelOps: Pixel { spec fn chs(&self) -> Seq<<Self as Pixel>::Subpixel>; spec fn ncol() -> nat; spec fn top() -> int;
    fn map_with_alpha<F: Fn(Self::Subpixel) -> Self::Subpixel, G: Fn(Self::Subpixel) -> Self::Subpixel>(&self, f: F, g: G) -> (r: Self)
        requires forall|x: Self::Subpixel| #[trigger] f.requires((x,)), forall|x: Self::Subpixel| #[trigger] g.requires((x,)),
        ensures r.chs().len() == self.chs().len(), forall|i: int| 0 <= i < self.chs().len() && i < Self::ncol() ==> f.ensures((#[trigger] self.chs()[i],), r.chs()[i]),
            forall|i: int| Self::ncol() <= i < self.chs().len() ==> g.ensures((#[trigger] self.chs()[i],), r.chs()[i]);
    spec fn inverted(self) -> Self;
    fn invert(&mut self) ensures *final(self) == old(self).inverted();
}
pub trait VxCast<B>: Sized { spec fn cast_req(self) -> bool; spec fn cast_ok(self, r: B) -> bool; fn vx_cast(self) -> (r: B) requires self.cast_req() ensures self.cast_ok(r); }
// NumCast of num-traits between integers: the same number, panicking in `unwrap` when it does not fit
impl VxCast<i32> for u8 { open spec fn cast_req(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn cast_ok(self, r: i32) -> bool { r == self as int } fn vx_cast(self) -> (r: i32) { self as i32 } }
impl VxCast<i32> for u16 { open spec fn cast_req(self) -> bool { i32::MIN <= self <= i32::MAX } open spec fn cast_ok(self, r: i32) -> bool { r == self as int } fn vx_cast(self) -> (r: i32) { self as i32 } }
impl VxCast<u8> for i32 { open spec fn cast_req(self) -> bool { u8::MIN <= self <= u8::MAX } open spec fn cast_ok(self, r: u8) -> bool { r == self as int } fn vx_cast(self) -> (r: u8) { self as u8 } }
impl VxCast<u16> for i32 { open spec fn cast_req(self) -> bool { u16::MIN <= self <= u16::MAX } open spec fn cast_ok(self, r: u16) -> bool { r == self as int } fn vx_cast(self) -> (r: u16) { self as u16 } }
pub fn vx_numcast<A: VxCast<B>, B>(a: A) -> (r: B) requires a.cast_req() ensures a.cast_ok(r) { a.vx_cast() }
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32) ensures r == if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b };
pub trait VxMax: Sized { spec fn top() -> Self; fn vx_max() -> (r: Self) ensures r == Self::top(); }
impl VxMax for u8 { open spec fn top() -> u8 { 255 }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u8" as=vx_max
//@end
}
impl VxMax for u16 { open spec fn top() -> u16 { 65535 }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u16" as=vx_max
//@end
}
//@fn src/utils/mod.rs clamp ret=res
//@ sigsubst? `clamp<N>` => `clamp`
//@ sigsubst? `N` => `i32`
//@ sigsubst? `where i32: PartialOrd,` => ` `
//@ spec
    ensures res == (if $n0 < $n1 { $n1 } else if $n0 > $n2 { $n2 } else { $n0 }),
//@end
// all pixels of an image with their coordinates, row by row (proved for the iterator itself under C02)
#[verifier::external_body]
pub fn vx_pixels<I: GenericImageView>(image: &I) -> (r: Vec<(u32, u32, I::Pixel)>)
    ensures r@.len() == image.sw() * image.sh(), forall|k: int| 0 <= k < r@.len() ==> 0 <= (#[trigger] r@[k]).0 < image.sw() && r@[k].1 < image.sh() && r@[k].1 * image.sw() + r@[k].0 == k && r@[k].2 == image.px(r@[k].0 as int, r@[k].1 as int)
{ unimplemented!() }
pub open spec fn sat(c: int, v: int, max: int) -> int { if c + v < 0 { 0 } else if c + v > max { max } else { c + v } }
pub proof fn lemma_row(x: int, y: int, w: int, h: int) requires 0 <= x < w, 0 <= y < h ensures 0 <= y * w + x < w * h
{ assert(y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h; assert(y * w + x >= 0) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h; }
pub proof fn lemma_same(x: int, y: int, a: int, b: int, w: int) requires 0 <= x < w, 0 <= a < w, y * w + x == b * w + a ensures x == a, y == b
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, b, a); }
// the colour channels are the sums, saturated; alpha is as it was
pub open spec fn bright_u8<P: PixelOps<Subpixel = u8>>(p: P, v: i32, r: P) -> bool {
    r.chs().len() == p.chs().len() && forall|i: int| 0 <= i < p.chs().len() ==> (#[trigger] r.chs()[i]) as int == if i < P::ncol() { sat(p.chs()[i] as int, v as int, 255) } else { p.chs()[i] as int } }
//@fn src/imageops/colorops.rs brighten ret=res as=brighten_u8
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `<I, P, S>` => `<I, P>`
//@ sigsubst? `S: Primitive + 'static,` => ` `
//@ sigsubst? `P: Pixel<Subpixel = S>` => `P: PixelOps<Subpixel = u8>`
//@ sigsubst? `Vec<S>` => `Vec<u8>`
//@ subst? `S::DEFAULT_MAX_VALUE` => `<u8 as VxMax>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_numcast($A)`
//@ forvec 0 `$A.pixels()` => `vx_pixels($A)`
//@ closure 0 (u8) -> (cr: u8)
    ensures cr == sat($p0 as int, $n1 as int, 255)
//@ closure 1 (u8) -> (cr: u8)
    ensures cr == $p0
//@ spec
    ensures res.sw() == $n0.sw(), res.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> bright_u8($n0.px(qi, qj), $n1, #[trigger] res.px(qi, qj)),
//@ loop 0 forvec
    invariant vxk0 <= vxi0@.len(), out.sw() == $n0.sw(), out.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() && qj * $n0.sw() + qi < vxk0 ==> bright_u8($n0.px(qi, qj), $n1, #[trigger] out.px(qi, qj)),
    decreases vxi0@.len() - vxk0
//@ at loop0.start
    proof { assert forall|qi: int, qj: int| #![trigger $n0.px(qi, qj)] 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies qj * $n0.sw() + qi < $n0.sw() * $n0.sh() && (qj * $n0.sw() + qi == vxk0 ==> qi == vxi0@[vxk0 as int].0 && qj == vxi0@[vxk0 as int].1) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); let q = vxi0@[vxk0 as int]; if qj * $n0.sw() + qi == vxk0 { lemma_same(qi, qj, q.0 as int, q.1 as int, $n0.sw() as int); } } }
//@ at loop0.after
    proof { assert forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies bright_u8($n0.px(qi, qj), $n1, #[trigger] out.px(qi, qj)) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); } }
//@end
//@fn src/imageops/colorops.rs brighten_in_place as=brighten_in_place_u8
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `I: GenericImage,` => `I: GenericImage, I::Pixel: PixelOps<Subpixel = u8>,`
//@ subst? `<I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE` => `<u8 as VxMax>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_numcast($A)`
//@ closure 0 (u8) -> (cr: u8)
    ensures cr == sat($p0 as int, $n1 as int, 255)
//@ closure 1 (u8) -> (cr: u8)
    ensures cr == $p0
//@ spec
    ensures final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < old($n0).sw() && 0 <= qj < old($n0).sh() ==> bright_u8(old($n0).px(qi, qj), $n1, #[trigger] final($n0).px(qi, qj)),
//@ loop 0 for
    invariant $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> if qj < $v0 { bright_u8(old($n0).px(qi, qj), $n1, #[trigger] $n0.px(qi, qj)) } else { $n0.px(qi, qj) == old($n0).px(qi, qj) },
//@ loop 1 for
    invariant $v0 < $n0.sh(), $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> if qj < $v0 || qj == $v0 && qi < $v1 { bright_u8(old($n0).px(qi, qj), $n1, #[trigger] $n0.px(qi, qj)) } else { $n0.px(qi, qj) == old($n0).px(qi, qj) },
//@end
// the colour channels are the sums, saturated; alpha is as it was
pub open spec fn bright_u16<P: PixelOps<Subpixel = u16>>(p: P, v: i32, r: P) -> bool {
    r.chs().len() == p.chs().len() && forall|i: int| 0 <= i < p.chs().len() ==> (#[trigger] r.chs()[i]) as int == if i < P::ncol() { sat(p.chs()[i] as int, v as int, 65535) } else { p.chs()[i] as int } }
//@fn src/imageops/colorops.rs brighten ret=res as=brighten_u16
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `<I, P, S>` => `<I, P>`
//@ sigsubst? `S: Primitive + 'static,` => ` `
//@ sigsubst? `P: Pixel<Subpixel = S>` => `P: PixelOps<Subpixel = u16>`
//@ sigsubst? `Vec<S>` => `Vec<u16>`
//@ subst? `S::DEFAULT_MAX_VALUE` => `<u16 as VxMax>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_numcast($A)`
//@ forvec 0 `$A.pixels()` => `vx_pixels($A)`
//@ closure 0 (u16) -> (cr: u16)
    ensures cr == sat($p0 as int, $n1 as int, 65535)
//@ closure 1 (u16) -> (cr: u16)
    ensures cr == $p0
//@ spec
    ensures res.sw() == $n0.sw(), res.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> bright_u16($n0.px(qi, qj), $n1, #[trigger] res.px(qi, qj)),
//@ loop 0 forvec
    invariant vxk0 <= vxi0@.len(), out.sw() == $n0.sw(), out.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() && qj * $n0.sw() + qi < vxk0 ==> bright_u16($n0.px(qi, qj), $n1, #[trigger] out.px(qi, qj)),
    decreases vxi0@.len() - vxk0
//@ at loop0.start
    proof { assert forall|qi: int, qj: int| #![trigger $n0.px(qi, qj)] 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies qj * $n0.sw() + qi < $n0.sw() * $n0.sh() && (qj * $n0.sw() + qi == vxk0 ==> qi == vxi0@[vxk0 as int].0 && qj == vxi0@[vxk0 as int].1) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); let q = vxi0@[vxk0 as int]; if qj * $n0.sw() + qi == vxk0 { lemma_same(qi, qj, q.0 as int, q.1 as int, $n0.sw() as int); } } }
//@ at loop0.after
    proof { assert forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies bright_u16($n0.px(qi, qj), $n1, #[trigger] out.px(qi, qj)) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); } }
//@end
//@fn src/imageops/colorops.rs brighten_in_place as=brighten_in_place_u16
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `I: GenericImage,` => `I: GenericImage, I::Pixel: PixelOps<Subpixel = u16>,`
//@ subst? `<I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE` => `<u16 as VxMax>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_numcast($A)`
//@ closure 0 (u16) -> (cr: u16)
    ensures cr == sat($p0 as int, $n1 as int, 65535)
//@ closure 1 (u16) -> (cr: u16)
    ensures cr == $p0
//@ spec
    ensures final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < old($n0).sw() && 0 <= qj < old($n0).sh() ==> bright_u16(old($n0).px(qi, qj), $n1, #[trigger] final($n0).px(qi, qj)),
//@ loop 0 for
    invariant $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> if qj < $v0 { bright_u16(old($n0).px(qi, qj), $n1, #[trigger] $n0.px(qi, qj)) } else { $n0.px(qi, qj) == old($n0).px(qi, qj) },
//@ loop 1 for
    invariant $v0 < $n0.sh(), $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> if qj < $v0 || qj == $v0 && qi < $v1 { bright_u16(old($n0).px(qi, qj), $n1, #[trigger] $n0.px(qi, qj)) } else { $n0.px(qi, qj) == old($n0).px(qi, qj) },
//@end
//@fn src/imageops/colorops.rs invert
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `<I: GenericImage>(image: &mut I)` => `<I: GenericImage>(image: &mut I) where I::Pixel: PixelOps`
//@ spec
    ensures final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < old($n0).sw() && 0 <= qj < old($n0).sh() ==> #[trigger] final($n0).px(qi, qj) == old($n0).px(qi, qj).inverted(),
//@ loop 0 for
    invariant $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> #[trigger] $n0.px(qi, qj) == if qj < $v0 { old($n0).px(qi, qj).inverted() } else { old($n0).px(qi, qj) },
//@ loop 1 for
    invariant $v0 < $n0.sh(), $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> #[trigger] $n0.px(qi, qj) == if qj < $v0 || qj == $v0 && qi < $v1 { old($n0).px(qi, qj).inverted() } else { old($n0).px(qi, qj) },
//@end
//@include dyntypes.vrs
impl<T: Copy> PixelOps for Luma<T> { open spec fn chs(&self) -> Seq<T> { self.0@ } open spec fn ncol() -> nat { 1 } uninterp spec fn top() -> int;
    #[verifier::external_body] fn map_with_alpha<F: Fn(T) -> T, G: Fn(T) -> T>(&self, f: F, g: G) -> (r: Self) { unimplemented!() }
    uninterp spec fn inverted(self) -> Self;
    #[verifier::external_body] fn invert(&mut self) { unimplemented!() } }
impl<T: Copy> PixelOps for LumaA<T> { open spec fn chs(&self) -> Seq<T> { self.0@ } open spec fn ncol() -> nat { 1 } uninterp spec fn top() -> int;
    #[verifier::external_body] fn map_with_alpha<F: Fn(T) -> T, G: Fn(T) -> T>(&self, f: F, g: G) -> (r: Self) { unimplemented!() }
    uninterp spec fn inverted(self) -> Self;
    #[verifier::external_body] fn invert(&mut self) { unimplemented!() } }
impl<T: Copy> PixelOps for Rgb<T> { open spec fn chs(&self) -> Seq<T> { self.0@ } open spec fn ncol() -> nat { 3 } uninterp spec fn top() -> int;
    #[verifier::external_body] fn map_with_alpha<F: Fn(T) -> T, G: Fn(T) -> T>(&self, f: F, g: G) -> (r: Self) { unimplemented!() }
    uninterp spec fn inverted(self) -> Self;
    #[verifier::external_body] fn invert(&mut self) { unimplemented!() } }
impl<T: Copy> PixelOps for Rgba<T> { open spec fn chs(&self) -> Seq<T> { self.0@ } open spec fn ncol() -> nat { 3 } uninterp spec fn top() -> int;
    #[verifier::external_body] fn map_with_alpha<F: Fn(T) -> T, G: Fn(T) -> T>(&self, f: F, g: G) -> (r: Self) { unimplemented!() }
    uninterp spec fn inverted(self) -> Self;
    #[verifier::external_body] fn invert(&mut self) { unimplemented!() } }
pub mod imageops { pub use super::*; }
pub open spec fn inv_px<P: PixelOps, C>(a: ImageBuffer<P, C>, b: ImageBuffer<P, C>) -> bool { b.sw() == a.sw() && b.sh() == a.sh() && forall|i: int, j: int| 0 <= i < b.sw() && 0 <= j < b.sh() ==> #[trigger] GenericImageView::px(&b, i, j) == GenericImageView::px(&a, i, j).inverted() }
impl DynamicImage {
//@fn src/dynimage.rs invert ctx="impl DynamicImage" vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match (*old(self), *final(self)) {
        (DynamicImage::ImageLuma8(p), DynamicImage::ImageLuma8(q)) => inv_px(p, q),
        (DynamicImage::ImageLumaA8(p), DynamicImage::ImageLumaA8(q)) => inv_px(p, q),
        (DynamicImage::ImageRgb8(p), DynamicImage::ImageRgb8(q)) => inv_px(p, q),
        (DynamicImage::ImageRgba8(p), DynamicImage::ImageRgba8(q)) => inv_px(p, q),
        (DynamicImage::ImageLuma16(p), DynamicImage::ImageLuma16(q)) => inv_px(p, q),
        (DynamicImage::ImageLumaA16(p), DynamicImage::ImageLumaA16(q)) => inv_px(p, q),
        (DynamicImage::ImageRgb16(p), DynamicImage::ImageRgb16(q)) => inv_px(p, q),
        (DynamicImage::ImageRgba16(p), DynamicImage::ImageRgba16(q)) => inv_px(p, q),
        (DynamicImage::ImageRgb32F(p), DynamicImage::ImageRgb32F(q)) => inv_px(p, q),
        (DynamicImage::ImageRgba32F(p), DynamicImage::ImageRgba32F(q)) => inv_px(p, q),
        _ => false,
    },
//@end
}
}
fn main() {}
