//@include views.vrs
// DynamicImage::crop and crop_imm: dispatch over the ten layouts
pub mod imageops { pub use super::*; }
verus! {
//@include dyntypes.vrs
impl<'a, V: GenericImage> SubImage<&'a mut V> {
//@fn src/image.rs to_image ctx="impl < I > SubImage < I >" ret=res vis=pub
//@ sigsubst `ImageBuffer<DerefPixel<I>, Vec<DerefSubpixel<I>>>` => `ImageBuffer<V::Pixel, Vec<<V::Pixel as Pixel>::Subpixel>>`
//@ sigsubst `where I: Deref, I::Target: GenericImageView + 'static,` => ` `
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires inside(self.ox() as int, self.oy() as int, self.sw() as int, self.sh() as int, self.img().sw() as int, self.img().sh() as int),
    ensures res.sw() == self.sw(), res.sh() == self.sh(),
        forall|i: int, j: int| 0 <= i < self.sw() && 0 <= j < self.sh() ==> #[trigger] res.px(i, j) == self.img().px(i + self.ox(), j + self.oy()),
//@ loop 0 for
    invariant out.sw() == self.sw(), out.sh() == self.sh(),
        forall|i: int, j: int| 0 <= i < self.sw() && 0 <= j < $v0 ==> #[trigger] out.px(i, j) == self.img().px(i + self.ox(), j + self.oy()),
//@ loop 1 for
    invariant out.sw() == self.sw(), out.sh() == self.sh(),
        forall|i: int, j: int| 0 <= i < self.sw() && (0 <= j < $v0 || j == $v0 && i < $v1) ==> #[trigger] out.px(i, j) == self.img().px(i + self.ox(), j + self.oy()),
//@end
}
// q is the part of p from (x, y), of the given size as far as it lies inside p
pub open spec fn cropped<P: Pixel>(p: ImageBuffer<P, Vec<P::Subpixel>>, q: ImageBuffer<P, Vec<P::Subpixel>>, x: int, y: int, w: int, h: int) -> bool {
    let cx = smin(x, p.sw() as int); let cy = smin(y, p.sh() as int);
    &&& q.sw() == smin(w, p.sw() - cx) && q.sh() == smin(h, p.sh() - cy)
    &&& forall|i: int, j: int| 0 <= i < q.sw() && 0 <= j < q.sh() ==> #[trigger] q.px(i, j) == p.px(i + cx, j + cy)
}
pub open spec fn dcropped(a: DynamicImage, b: DynamicImage, x: int, y: int, w: int, h: int) -> bool {
    match (a, b) {
        (DynamicImage::ImageLuma8(p), DynamicImage::ImageLuma8(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageLumaA8(p), DynamicImage::ImageLumaA8(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageRgb8(p), DynamicImage::ImageRgb8(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageRgba8(p), DynamicImage::ImageRgba8(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageLuma16(p), DynamicImage::ImageLuma16(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageLumaA16(p), DynamicImage::ImageLumaA16(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageRgb16(p), DynamicImage::ImageRgb16(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageRgba16(p), DynamicImage::ImageRgba16(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageRgb32F(p), DynamicImage::ImageRgb32F(q)) => cropped(p, q, x, y, w, h),
        (DynamicImage::ImageRgba32F(p), DynamicImage::ImageRgba32F(q)) => cropped(p, q, x, y, w, h),
        _ => false,
    }
}
impl DynamicImage {
//@fn src/dynimage.rs crop ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dcropped(*old(self), res, $n0 as int, $n1 as int, $n2 as int, $n3 as int), *final(self) == *old(self),
//@end
//@fn src/dynimage.rs crop_imm ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dcropped(*self, res, $n0 as int, $n1 as int, $n2 as int, $n3 as int),
//@end
}
} // verus!
