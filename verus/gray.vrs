//@include prelude_image.vrs
//@include dyntypes.vrs
// ---- the conversions of one pixel as functions; what they compute is proved in color.vrs
pub trait FromColor<O>: Sized { spec fn conv(o: O) -> Self; fn from_color(&mut self, o: &O) ensures *final(self) == Self::conv(*o); }
pub trait IntoColor<O: FromColor<Self>>: Sized { fn into_color(&self) -> (r: O) ensures r == O::conv(*self); }
impl<O: FromColor<S>, S> IntoColor<O> for S { #[verifier::external_body] fn into_color(&self) -> (r: O) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Luma<S>> for Luma<T> { uninterp spec fn conv(o: Luma<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Luma<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<LumaA<S>> for Luma<T> { uninterp spec fn conv(o: LumaA<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &LumaA<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgb<S>> for Luma<T> { uninterp spec fn conv(o: Rgb<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgb<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgba<S>> for Luma<T> { uninterp spec fn conv(o: Rgba<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgba<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Luma<S>> for LumaA<T> { uninterp spec fn conv(o: Luma<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Luma<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<LumaA<S>> for LumaA<T> { uninterp spec fn conv(o: LumaA<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &LumaA<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgb<S>> for LumaA<T> { uninterp spec fn conv(o: Rgb<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgb<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgba<S>> for LumaA<T> { uninterp spec fn conv(o: Rgba<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgba<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Luma<S>> for Rgb<T> { uninterp spec fn conv(o: Luma<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Luma<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<LumaA<S>> for Rgb<T> { uninterp spec fn conv(o: LumaA<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &LumaA<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgb<S>> for Rgb<T> { uninterp spec fn conv(o: Rgb<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgb<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgba<S>> for Rgb<T> { uninterp spec fn conv(o: Rgba<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgba<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Luma<S>> for Rgba<T> { uninterp spec fn conv(o: Luma<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Luma<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<LumaA<S>> for Rgba<T> { uninterp spec fn conv(o: LumaA<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &LumaA<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgb<S>> for Rgba<T> { uninterp spec fn conv(o: Rgb<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgb<S>) { unimplemented!() } }
impl<S: Copy, T: Copy> FromColor<Rgba<S>> for Rgba<T> { uninterp spec fn conv(o: Rgba<S>) -> Self; #[verifier::external_body] fn from_color(&mut self, o: &Rgba<S>) { unimplemented!() } }
pub trait PixelC: Pixel {
    spec fn s_luma(self) -> Luma<<Self as Pixel>::Subpixel>; fn to_luma(&self) -> (r: Luma<<Self as Pixel>::Subpixel>) ensures r == self.s_luma();
    spec fn s_luma_alpha(self) -> LumaA<<Self as Pixel>::Subpixel>; fn to_luma_alpha(&self) -> (r: LumaA<<Self as Pixel>::Subpixel>) ensures r == self.s_luma_alpha();
    spec fn s_rgb(self) -> Rgb<<Self as Pixel>::Subpixel>; fn to_rgb(&self) -> (r: Rgb<<Self as Pixel>::Subpixel>) ensures r == self.s_rgb();
    spec fn s_rgba(self) -> Rgba<<Self as Pixel>::Subpixel>; fn to_rgba(&self) -> (r: Rgba<<Self as Pixel>::Subpixel>) ensures r == self.s_rgba();
}
impl<T: Copy> PixelC for Luma<T> {
    uninterp spec fn s_luma(self) -> Luma<T>; #[verifier::external_body] fn to_luma(&self) -> (r: Luma<T>) { unimplemented!() }
    uninterp spec fn s_luma_alpha(self) -> LumaA<T>; #[verifier::external_body] fn to_luma_alpha(&self) -> (r: LumaA<T>) { unimplemented!() }
    uninterp spec fn s_rgb(self) -> Rgb<T>; #[verifier::external_body] fn to_rgb(&self) -> (r: Rgb<T>) { unimplemented!() }
    uninterp spec fn s_rgba(self) -> Rgba<T>; #[verifier::external_body] fn to_rgba(&self) -> (r: Rgba<T>) { unimplemented!() }
}
impl<T: Copy> PixelC for LumaA<T> {
    uninterp spec fn s_luma(self) -> Luma<T>; #[verifier::external_body] fn to_luma(&self) -> (r: Luma<T>) { unimplemented!() }
    uninterp spec fn s_luma_alpha(self) -> LumaA<T>; #[verifier::external_body] fn to_luma_alpha(&self) -> (r: LumaA<T>) { unimplemented!() }
    uninterp spec fn s_rgb(self) -> Rgb<T>; #[verifier::external_body] fn to_rgb(&self) -> (r: Rgb<T>) { unimplemented!() }
    uninterp spec fn s_rgba(self) -> Rgba<T>; #[verifier::external_body] fn to_rgba(&self) -> (r: Rgba<T>) { unimplemented!() }
}
impl<T: Copy> PixelC for Rgb<T> {
    uninterp spec fn s_luma(self) -> Luma<T>; #[verifier::external_body] fn to_luma(&self) -> (r: Luma<T>) { unimplemented!() }
    uninterp spec fn s_luma_alpha(self) -> LumaA<T>; #[verifier::external_body] fn to_luma_alpha(&self) -> (r: LumaA<T>) { unimplemented!() }
    uninterp spec fn s_rgb(self) -> Rgb<T>; #[verifier::external_body] fn to_rgb(&self) -> (r: Rgb<T>) { unimplemented!() }
    uninterp spec fn s_rgba(self) -> Rgba<T>; #[verifier::external_body] fn to_rgba(&self) -> (r: Rgba<T>) { unimplemented!() }
}
impl<T: Copy> PixelC for Rgba<T> {
    uninterp spec fn s_luma(self) -> Luma<T>; #[verifier::external_body] fn to_luma(&self) -> (r: Luma<T>) { unimplemented!() }
    uninterp spec fn s_luma_alpha(self) -> LumaA<T>; #[verifier::external_body] fn to_luma_alpha(&self) -> (r: LumaA<T>) { unimplemented!() }
    uninterp spec fn s_rgb(self) -> Rgb<T>; #[verifier::external_body] fn to_rgb(&self) -> (r: Rgb<T>) { unimplemented!() }
    uninterp spec fn s_rgba(self) -> Rgba<T>; #[verifier::external_body] fn to_rgba(&self) -> (r: Rgba<T>) { unimplemented!() }
}
// all pixels of an image with their coordinates, row by row (proved for the iterator itself under C02)
#[verifier::external_body]
pub fn vx_pixels<I: GenericImageView>(image: &I) -> (r: Vec<(u32, u32, I::Pixel)>)
    ensures r@.len() == image.sw() * image.sh(), forall|k: int| 0 <= k < r@.len() ==> 0 <= (#[trigger] r@[k]).0 < image.sw() && r@[k].1 < image.sh() && r@[k].1 * image.sw() + r@[k].0 == k && r@[k].2 == image.px(r@[k].0 as int, r@[k].1 as int)
{ unimplemented!() }
pub proof fn lemma_row(x: int, y: int, w: int, h: int) requires 0 <= x < w, 0 <= y < h ensures 0 <= y * w + x < w * h
{ assert(y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h; assert(y * w + x >= 0) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h; }
pub proof fn lemma_same(x: int, y: int, a: int, b: int, w: int) requires 0 <= x < w, 0 <= a < w, y * w + x == b * w + a ensures x == a, y == b
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, b, a); }
//@fn src/imageops/colorops.rs grayscale_with_type ret=res
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `I: GenericImageView` => `I: GenericImageView<Pixel = IP>, IP: PixelC<Subpixel = SP>, SP: Copy`
//@ sigsubst? `Subpixel<I>` => `SP`
//@ forvec 0 `$A.pixels()` => `vx_pixels($A)`
//@ spec
    ensures res.sw() == $n0.sw(), res.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> #[trigger] res.px(qi, qj) == NewPixel::conv($n0.px(qi, qj).s_luma()),
//@ loop 0 forvec
    invariant vxk0 <= vxi0@.len(), out.sw() == $n0.sw(), out.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() && qj * $n0.sw() + qi < vxk0 ==> #[trigger] out.px(qi, qj) == NewPixel::conv($n0.px(qi, qj).s_luma()),
    decreases vxi0@.len() - vxk0
//@ at loop0.start
    proof { assert forall|qi: int, qj: int| #![trigger $n0.px(qi, qj)] 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies qj * $n0.sw() + qi < $n0.sw() * $n0.sh() && (qj * $n0.sw() + qi == vxk0 ==> qi == vxi0@[vxk0 as int].0 && qj == vxi0@[vxk0 as int].1) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); let q = vxi0@[vxk0 as int]; if qj * $n0.sw() + qi == vxk0 { lemma_same(qi, qj, q.0 as int, q.1 as int, $n0.sw() as int); } } }
//@ at loop0.after
    proof { assert forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies #[trigger] out.px(qi, qj) == NewPixel::conv($n0.px(qi, qj).s_luma()) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); } }
//@end
//@fn src/imageops/colorops.rs grayscale_with_type_alpha ret=res
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `I: GenericImageView` => `I: GenericImageView<Pixel = IP>, IP: PixelC<Subpixel = SP>, SP: Copy`
//@ sigsubst? `Subpixel<I>` => `SP`
//@ forvec 0 `$A.pixels()` => `vx_pixels($A)`
//@ spec
    ensures res.sw() == $n0.sw(), res.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> #[trigger] res.px(qi, qj) == NewPixel::conv($n0.px(qi, qj).s_luma_alpha()),
//@ loop 0 forvec
    invariant vxk0 <= vxi0@.len(), out.sw() == $n0.sw(), out.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() && qj * $n0.sw() + qi < vxk0 ==> #[trigger] out.px(qi, qj) == NewPixel::conv($n0.px(qi, qj).s_luma_alpha()),
    decreases vxi0@.len() - vxk0
//@ at loop0.start
    proof { assert forall|qi: int, qj: int| #![trigger $n0.px(qi, qj)] 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies qj * $n0.sw() + qi < $n0.sw() * $n0.sh() && (qj * $n0.sw() + qi == vxk0 ==> qi == vxi0@[vxk0 as int].0 && qj == vxi0@[vxk0 as int].1) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); let q = vxi0@[vxk0 as int]; if qj * $n0.sw() + qi == vxk0 { lemma_same(qi, qj, q.0 as int, q.1 as int, $n0.sw() as int); } } }
//@ at loop0.after
    proof { assert forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() implies #[trigger] out.px(qi, qj) == NewPixel::conv($n0.px(qi, qj).s_luma_alpha()) by { lemma_row(qi, qj, $n0.sw() as int, $n0.sh() as int); } }
//@end
//@fn src/imageops/colorops.rs grayscale ret=res
//@ sigsubst? `I: GenericImageView` => `I: GenericImageView<Pixel = IP>, IP: PixelC<Subpixel = SP>, SP: Copy`
//@ sigsubst? `Subpixel<I>` => `SP`
//@ spec
    ensures res.sw() == $n0.sw(), res.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> #[trigger] res.px(qi, qj) == <Luma<SP> as FromColor<Luma<SP>>>::conv($n0.px(qi, qj).s_luma()),
//@end
//@fn src/imageops/colorops.rs grayscale_alpha ret=res
//@ sigsubst? `I: GenericImageView` => `I: GenericImageView<Pixel = IP>, IP: PixelC<Subpixel = SP>, SP: Copy`
//@ sigsubst? `Subpixel<I>` => `SP`
//@ spec
    ensures res.sw() == $n0.sw(), res.sh() == $n0.sh(), forall|qi: int, qj: int| 0 <= qi < $n0.sw() && 0 <= qj < $n0.sh() ==> #[trigger] res.px(qi, qj) == <LumaA<SP> as FromColor<LumaA<SP>>>::conv($n0.px(qi, qj).s_luma_alpha()),
//@end
// ---- pixel k of a buffer in row-major order (the items of pixels() and pixels_mut(), proved for those iterators under C02)
impl<P: Pixel, C> ImageBuffer<P, C> {
    pub open spec fn nth(&self, k: int) -> P { self.px(k % (self.sw() as int), k / (self.sw() as int)) }
    #[verifier::external_body] pub fn vx_all(&self) -> (r: Vec<P>) ensures r@.len() == self.sw() * self.sh(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self.nth(k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_nth_mut(&mut self, k: usize) -> (r: &mut P) requires k < old(self).sw() * old(self).sh()
        ensures *r == old(self).nth(k as int), final(self).sw() == old(self).sw(), final(self).sh() == old(self).sh(), final(self).nth(k as int) == *final(r),
            forall|j: int| 0 <= j < old(self).sw() * old(self).sh() && j != k ==> #[trigger] final(self).nth(j) == old(self).nth(j) { unimplemented!() }
}
pub proof fn lemma_nth(x: int, y: int, w: int, h: int) requires 0 <= x < w, 0 <= y < h ensures 0 <= y * w + x < w * h, (y * w + x) % w == x, (y * w + x) / w == y
{ lemma_row(x, y, w, h); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
impl<FromType: Pixel, Container> ImageBuffer<FromType, Container> {
//@fn src/buffer.rs convert ctx="ConvertBuffer" ret=res
//@ sigsubst? `convert(&self)` => `convert<ToType: Pixel + FromColor<FromType>>(&self)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ subst? `self.width` => `self.width()`
//@ subst? `self.height` => `self.height()`
//@ subst `for ($A, $C) in $D.pixels_mut().zip($E.pixels()) {$B}` => `let vxp = $E.vx_all(); let mut vxk: usize = 0; while vxk < vxp.len() { let $A = $D.vx_nth_mut(vxk); let $C = &vxp[vxk]; $B vxk += 1; }`
//@ loop 0 while
    invariant vxk <= vxp@.len(), buffer.sw() == self.sw(), buffer.sh() == self.sh(), vxp@.len() == self.sw() * self.sh(), forall|k: int| 0 <= k < vxp@.len() ==> #[trigger] vxp@[k] == self.nth(k), forall|k: int| 0 <= k < vxk ==> #[trigger] buffer.nth(k) == ToType::conv(self.nth(k)),
    decreases vxp@.len() - vxk
//@ spec
    ensures res.sw() == self.sw(), res.sh() == self.sh(), forall|x: int, y: int| 0 <= x < self.sw() && 0 <= y < self.sh() ==> #[trigger] res.px(x, y) == ToType::conv(self.px(x, y)),
//@ at loop0.after
    proof { assert forall|x: int, y: int| 0 <= x < self.sw() && 0 <= y < self.sh() implies #[trigger] buffer.px(x, y) == ToType::conv(self.px(x, y)) by { lemma_nth(x, y, self.sw() as int, self.sh() as int); let k = y * self.sw() + x; assert(buffer.nth(k) == ToType::conv(self.nth(k))); } }
//@end
}
// ---- DynamicImage: dispatch over the ten layouts
// the same pixels
pub open spec fn same_px<P: Pixel, C, D>(a: ImageBuffer<P, C>, b: ImageBuffer<P, D>) -> bool { b.sw() == a.sw() && b.sh() == a.sh() && forall|i: int, j: int| 0 <= i < b.sw() && 0 <= j < b.sh() ==> #[trigger] b.px(i, j) == a.px(i, j) }
// every pixel converted
pub open spec fn conv_px<P: Pixel, Q: Pixel + FromColor<P>, C, D>(a: ImageBuffer<P, C>, b: ImageBuffer<Q, D>) -> bool { b.sw() == a.sw() && b.sh() == a.sh() && forall|i: int, j: int| 0 <= i < b.sw() && 0 <= j < b.sh() ==> #[trigger] b.px(i, j) == Q::conv(a.px(i, j)) }
// every pixel turned gray, alpha dropped or kept
pub open spec fn gray_px<P: PixelC, Q: Pixel + FromColor<Luma<P::Subpixel>>, C, D>(a: ImageBuffer<P, C>, b: ImageBuffer<Q, D>) -> bool { b.sw() == a.sw() && b.sh() == a.sh() && forall|i: int, j: int| 0 <= i < b.sw() && 0 <= j < b.sh() ==> #[trigger] b.px(i, j) == Q::conv(a.px(i, j).s_luma()) }
pub open spec fn graya_px<P: PixelC, Q: Pixel + FromColor<LumaA<P::Subpixel>>, C, D>(a: ImageBuffer<P, C>, b: ImageBuffer<Q, D>) -> bool { b.sw() == a.sw() && b.sh() == a.sh() && forall|i: int, j: int| 0 <= i < b.sw() && 0 <= j < b.sh() ==> #[trigger] b.px(i, j) == Q::conv(a.px(i, j).s_luma_alpha()) }
// one pixel set, the others as they were
pub open spec fn put_px<P: Pixel, C>(a: ImageBuffer<P, C>, b: ImageBuffer<P, C>, x: int, y: int, v: P) -> bool { b.sw() == a.sw() && b.sh() == a.sh() && forall|i: int, j: int| #[trigger] GenericImageView::px(&b, i, j) == if i == x && j == y { v } else { GenericImageView::px(&a, i, j) } }
// Clone for ImageBuffer (derives from Clone of the container): the same image
impl<P: Pixel, C> ImageBuffer<P, C> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures same_px(*self, r) { unimplemented!() } }
pub mod color { pub use super::*; }
pub mod imageops { pub use super::*; }
//@include colortypes.vrs
impl DynamicImage {
    pub open spec fn sw(self) -> u32 { match self {
        DynamicImage::ImageLuma8(p) => p.sw(),
        DynamicImage::ImageLumaA8(p) => p.sw(),
        DynamicImage::ImageRgb8(p) => p.sw(),
        DynamicImage::ImageRgba8(p) => p.sw(),
        DynamicImage::ImageLuma16(p) => p.sw(),
        DynamicImage::ImageLumaA16(p) => p.sw(),
        DynamicImage::ImageRgb16(p) => p.sw(),
        DynamicImage::ImageRgba16(p) => p.sw(),
        DynamicImage::ImageRgb32F(p) => p.sw(),
        DynamicImage::ImageRgba32F(p) => p.sw(),
    } }
    pub open spec fn sh(self) -> u32 { match self {
        DynamicImage::ImageLuma8(p) => p.sh(),
        DynamicImage::ImageLumaA8(p) => p.sh(),
        DynamicImage::ImageRgb8(p) => p.sh(),
        DynamicImage::ImageRgba8(p) => p.sh(),
        DynamicImage::ImageLuma16(p) => p.sh(),
        DynamicImage::ImageLumaA16(p) => p.sh(),
        DynamicImage::ImageRgb16(p) => p.sh(),
        DynamicImage::ImageRgba16(p) => p.sh(),
        DynamicImage::ImageRgb32F(p) => p.sh(),
        DynamicImage::ImageRgba32F(p) => p.sh(),
    } }
    pub open spec fn layout(self) -> ColorType { match self {
        DynamicImage::ImageLuma8(p) => ColorType::L8,
        DynamicImage::ImageLumaA8(p) => ColorType::La8,
        DynamicImage::ImageRgb8(p) => ColorType::Rgb8,
        DynamicImage::ImageRgba8(p) => ColorType::Rgba8,
        DynamicImage::ImageLuma16(p) => ColorType::L16,
        DynamicImage::ImageLumaA16(p) => ColorType::La16,
        DynamicImage::ImageRgb16(p) => ColorType::Rgb16,
        DynamicImage::ImageRgba16(p) => ColorType::Rgba16,
        DynamicImage::ImageRgb32F(p) => ColorType::Rgb32F,
        DynamicImage::ImageRgba32F(p) => ColorType::Rgba32F,
    } }
    pub open spec fn rgba8(self, x: int, y: int) -> Rgba<u8> { match self {
        DynamicImage::ImageLuma8(p) => <Rgba<u8> as FromColor<Rgba<u8>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageLumaA8(p) => <Rgba<u8> as FromColor<Rgba<u8>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageRgb8(p) => <Rgba<u8> as FromColor<Rgba<u8>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageRgba8(p) => <Rgba<u8> as FromColor<Rgba<u8>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageLuma16(p) => <Rgba<u8> as FromColor<Rgba<u16>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageLumaA16(p) => <Rgba<u8> as FromColor<Rgba<u16>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageRgb16(p) => <Rgba<u8> as FromColor<Rgba<u16>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageRgba16(p) => <Rgba<u8> as FromColor<Rgba<u16>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageRgb32F(p) => <Rgba<u8> as FromColor<Rgba<f32>>>::conv(p.px(x, y).s_rgba()),
        DynamicImage::ImageRgba32F(p) => <Rgba<u8> as FromColor<Rgba<f32>>>::conv(p.px(x, y).s_rgba()),
    } }
    // pixel (x, y) set to what c is in the layout of the image
    pub open spec fn puts(self, b: DynamicImage, x: int, y: int, c: Rgba<u8>) -> bool { match (self, b) {
        (DynamicImage::ImageLuma8(p), DynamicImage::ImageLuma8(q)) => put_px(p, q, x, y, c.s_luma()),
        (DynamicImage::ImageLumaA8(p), DynamicImage::ImageLumaA8(q)) => put_px(p, q, x, y, c.s_luma_alpha()),
        (DynamicImage::ImageRgb8(p), DynamicImage::ImageRgb8(q)) => put_px(p, q, x, y, c.s_rgb()),
        (DynamicImage::ImageRgba8(p), DynamicImage::ImageRgba8(q)) => put_px(p, q, x, y, c),
        (DynamicImage::ImageLuma16(p), DynamicImage::ImageLuma16(q)) => put_px(p, q, x, y, <Luma<u16> as FromColor<Luma<u8>>>::conv(c.s_luma())),
        (DynamicImage::ImageLumaA16(p), DynamicImage::ImageLumaA16(q)) => put_px(p, q, x, y, <LumaA<u16> as FromColor<LumaA<u8>>>::conv(c.s_luma_alpha())),
        (DynamicImage::ImageRgb16(p), DynamicImage::ImageRgb16(q)) => put_px(p, q, x, y, <Rgb<u16> as FromColor<Rgb<u8>>>::conv(c.s_rgb())),
        (DynamicImage::ImageRgba16(p), DynamicImage::ImageRgba16(q)) => put_px(p, q, x, y, <Rgba<u16> as FromColor<Rgba<u8>>>::conv(c)),
        (DynamicImage::ImageRgb32F(p), DynamicImage::ImageRgb32F(q)) => put_px(p, q, x, y, <Rgb<f32> as FromColor<Rgb<u8>>>::conv(c.s_rgb())),
        (DynamicImage::ImageRgba32F(p), DynamicImage::ImageRgba32F(q)) => put_px(p, q, x, y, <Rgba<f32> as FromColor<Rgba<u8>>>::conv(c)),
        _ => false,
    } }
    pub open spec fn blends(self, b: DynamicImage, x: int, y: int, c: Rgba<u8>) -> bool { match (self, b) {
        (DynamicImage::ImageLuma8(p), DynamicImage::ImageLuma8(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(c.s_luma())),
        (DynamicImage::ImageLumaA8(p), DynamicImage::ImageLumaA8(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(c.s_luma_alpha())),
        (DynamicImage::ImageRgb8(p), DynamicImage::ImageRgb8(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(c.s_rgb())),
        (DynamicImage::ImageRgba8(p), DynamicImage::ImageRgba8(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(c)),
        (DynamicImage::ImageLuma16(p), DynamicImage::ImageLuma16(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(<Luma<u16> as FromColor<Luma<u8>>>::conv(c.s_luma()))),
        (DynamicImage::ImageLumaA16(p), DynamicImage::ImageLumaA16(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(<LumaA<u16> as FromColor<LumaA<u8>>>::conv(c.s_luma_alpha()))),
        (DynamicImage::ImageRgb16(p), DynamicImage::ImageRgb16(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(<Rgb<u16> as FromColor<Rgb<u8>>>::conv(c.s_rgb()))),
        (DynamicImage::ImageRgba16(p), DynamicImage::ImageRgba16(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(<Rgba<u16> as FromColor<Rgba<u8>>>::conv(c))),
        (DynamicImage::ImageRgb32F(p), DynamicImage::ImageRgb32F(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(<Rgb<f32> as FromColor<Rgb<u8>>>::conv(c.s_rgb()))),
        (DynamicImage::ImageRgba32F(p), DynamicImage::ImageRgba32F(q)) => put_px(p, q, x, y, p.px(x, y).spec_blend(<Rgba<f32> as FromColor<Rgba<u8>>>::conv(c))),
        _ => false,
    } }
//@fn src/dynimage.rs width ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures res == self.sw(),
//@end
//@fn src/dynimage.rs height ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures res == self.sh(),
//@end
//@fn src/dynimage.rs color ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res == self.layout(),
//@end
//@fn src/dynimage.rs dimensions ctx="GenericImageView for DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures res.0 == self.sw(), res.1 == self.sh(),
//@end
//@fn src/dynimage.rs get_pixel ctx="GenericImageView for DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    requires $n0 < self.sw(), $n1 < self.sh(),
    ensures res == self.rgba8($n0 as int, $n1 as int),
//@end
//@fn src/dynimage.rs put_pixel ctx="GenericImage for DynamicImage" vis=pub
//@ spec
    requires $n0 < old(self).sw(), $n1 < old(self).sh(),
    ensures old(self).puts(*final(self), $n0 as int, $n1 as int, $n2),
//@end
//@fn src/dynimage.rs blend_pixel ctx="GenericImage for DynamicImage" vis=pub
//@ spec
    requires $n0 < old(self).sw(), $n1 < old(self).sh(),
    ensures old(self).blends(*final(self), $n0 as int, $n1 as int, $n2),
//@end
//@fn src/dynimage.rs new ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == $n2,
//@end
//@fn src/dynimage.rs new_luma8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::L8,
//@end
//@fn src/dynimage.rs new_luma_a8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::La8,
//@end
//@fn src/dynimage.rs new_rgb8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::Rgb8,
//@end
//@fn src/dynimage.rs new_rgba8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::Rgba8,
//@end
//@fn src/dynimage.rs new_luma16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::L16,
//@end
//@fn src/dynimage.rs new_luma_a16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::La16,
//@end
//@fn src/dynimage.rs new_rgb16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::Rgb16,
//@end
//@fn src/dynimage.rs new_rgba16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::Rgba16,
//@end
//@fn src/dynimage.rs new_rgb32f ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::Rgb32F,
//@end
//@fn src/dynimage.rs new_rgba32f ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures res.sw() == $n0, res.sh() == $n1, res.layout() == ColorType::Rgba32F,
//@end
//@fn src/dynimage.rs to_luma8 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_luma_alpha8 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_rgb8 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_rgba8 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_luma16 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_luma_alpha16 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_rgb16 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_rgba16 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_rgb32f ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_rgba32f ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_luma32f ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs to_luma_alpha32f ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures match *self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_luma8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => same_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_luma_alpha8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => same_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_rgb8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => same_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_rgba8 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => same_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_luma16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => same_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_luma_alpha16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => same_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_rgb16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => same_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_rgba16 ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => same_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_rgb32f ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => same_px(p, res),
        DynamicImage::ImageRgba32F(p) => conv_px(p, res),
    },
//@end
//@fn src/dynimage.rs into_rgba32f ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match self {
        DynamicImage::ImageLuma8(p) => conv_px(p, res),
        DynamicImage::ImageLumaA8(p) => conv_px(p, res),
        DynamicImage::ImageRgb8(p) => conv_px(p, res),
        DynamicImage::ImageRgba8(p) => conv_px(p, res),
        DynamicImage::ImageLuma16(p) => conv_px(p, res),
        DynamicImage::ImageLumaA16(p) => conv_px(p, res),
        DynamicImage::ImageRgb16(p) => conv_px(p, res),
        DynamicImage::ImageRgba16(p) => conv_px(p, res),
        DynamicImage::ImageRgb32F(p) => conv_px(p, res),
        DynamicImage::ImageRgba32F(p) => same_px(p, res),
    },
//@end
//@fn src/dynimage.rs grayscale ctx="impl DynamicImage" ret=res vis=pub
//@ spec
    ensures match (*self, res) {
        (DynamicImage::ImageLuma8(p), DynamicImage::ImageLuma8(q)) => same_px(p, q),
        (DynamicImage::ImageLumaA8(p), DynamicImage::ImageLumaA8(q)) => graya_px(p, q),
        (DynamicImage::ImageRgb8(p), DynamicImage::ImageLuma8(q)) => gray_px(p, q),
        (DynamicImage::ImageRgba8(p), DynamicImage::ImageLumaA8(q)) => graya_px(p, q),
        (DynamicImage::ImageLuma16(p), DynamicImage::ImageLuma16(q)) => same_px(p, q),
        (DynamicImage::ImageLumaA16(p), DynamicImage::ImageLumaA16(q)) => graya_px(p, q),
        (DynamicImage::ImageRgb16(p), DynamicImage::ImageLuma16(q)) => gray_px(p, q),
        (DynamicImage::ImageRgba16(p), DynamicImage::ImageLumaA16(q)) => graya_px(p, q),
        (DynamicImage::ImageRgb32F(p), DynamicImage::ImageRgb32F(q)) => gray_px(p, q),
        (DynamicImage::ImageRgba32F(p), DynamicImage::ImageRgba32F(q)) => graya_px(p, q),
        _ => false,
    },
//@end
}
}
fn main() {}
