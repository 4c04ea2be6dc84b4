//@include affine.vrs
// DynamicImage: dispatch over the ten layouts and the eight EXIF orientations
pub mod imageops { pub use super::*; }
verus! {
//@item src/metadata.rs enum Orientation vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
//@include dyntypes.vrs
// where the pixel (i, j) of the turned image comes from in an image of w x h, by EXIF orientation code
pub open spec fn code(o: Orientation) -> int {
    match o { Orientation::NoTransforms => 1, Orientation::FlipHorizontal => 2, Orientation::Rotate180 => 3, Orientation::FlipVertical => 4,
        Orientation::Rotate90FlipH => 5, Orientation::Rotate90 => 6, Orientation::Rotate270FlipH => 7, Orientation::Rotate270 => 8 }
}
pub open spec fn src_xy(c: int, w: int, h: int, i: int, j: int) -> (int, int) {
    if c == 1 { (i, j) } else if c == 2 { (w - 1 - i, j) } else if c == 3 { (w - 1 - i, h - 1 - j) } else if c == 4 { (i, h - 1 - j) }
    else if c == 5 { (j, i) } else if c == 6 { (j, h - 1 - i) } else if c == 7 { (w - 1 - j, h - 1 - i) } else { (w - 1 - j, i) }
}
pub open spec fn turned<P: Pixel>(a: ImageBuffer<P, Vec<P::Subpixel>>, b: ImageBuffer<P, Vec<P::Subpixel>>, c: int) -> bool {
    &&& if c >= 5 { b.sw() == a.sh() && b.sh() == a.sw() } else { b.sw() == a.sw() && b.sh() == a.sh() }
    &&& forall|i: int, j: int| 0 <= i < b.sw() && 0 <= j < b.sh() ==> #[trigger] GenericImageView::px(&b, i, j) == GenericImageView::px(&a, src_xy(c, a.sw() as int, a.sh() as int, i, j).0, src_xy(c, a.sw() as int, a.sh() as int, i, j).1)
}
// the layout is kept
pub open spec fn dturned(a: DynamicImage, b: DynamicImage, c: int) -> bool {
    match (a, b) {
        (DynamicImage::ImageLuma8(p), DynamicImage::ImageLuma8(q)) => turned(p, q, c),
        (DynamicImage::ImageLumaA8(p), DynamicImage::ImageLumaA8(q)) => turned(p, q, c),
        (DynamicImage::ImageRgb8(p), DynamicImage::ImageRgb8(q)) => turned(p, q, c),
        (DynamicImage::ImageRgba8(p), DynamicImage::ImageRgba8(q)) => turned(p, q, c),
        (DynamicImage::ImageLuma16(p), DynamicImage::ImageLuma16(q)) => turned(p, q, c),
        (DynamicImage::ImageLumaA16(p), DynamicImage::ImageLumaA16(q)) => turned(p, q, c),
        (DynamicImage::ImageRgb16(p), DynamicImage::ImageRgb16(q)) => turned(p, q, c),
        (DynamicImage::ImageRgba16(p), DynamicImage::ImageRgba16(q)) => turned(p, q, c),
        (DynamicImage::ImageRgb32F(p), DynamicImage::ImageRgb32F(q)) => turned(p, q, c),
        (DynamicImage::ImageRgba32F(p), DynamicImage::ImageRgba32F(q)) => turned(p, q, c),
        _ => false,
    }
}
impl DynamicImage {
//@fn src/dynimage.rs rotate90 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*self, res, 6),
//@end
//@fn src/dynimage.rs rotate180 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*self, res, 3),
//@end
//@fn src/dynimage.rs rotate270 ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*self, res, 8),
//@end
//@fn src/dynimage.rs fliph ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*self, res, 2),
//@end
//@fn src/dynimage.rs flipv ctx="impl DynamicImage" ret=res vis=pub
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*self, res, 4),
//@end
//@fn src/dynimage.rs rotate180_in_place ctx="impl DynamicImage"
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*old(self), *final(self), 3),
//@end
//@fn src/dynimage.rs fliph_in_place ctx="impl DynamicImage"
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*old(self), *final(self), 2),
//@end
//@fn src/dynimage.rs flipv_in_place ctx="impl DynamicImage"
//@ expandmacro dynamic_map src/dynimage.rs
//@ spec
    ensures dturned(*old(self), *final(self), 4),
//@end
//@fn src/dynimage.rs apply_orientation ctx="impl DynamicImage" vis=pub
//@ spec
    ensures dturned(*old(self), *final(self), code($n0)),
//@end
}
} // verus!
