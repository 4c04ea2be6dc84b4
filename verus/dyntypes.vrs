//@item src/color.rs#define_colors struct Luma vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct LumaA vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct Rgb vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct Rgba vis=pub attrs="#[derive(Clone, Copy)]"
pub uninterp spec fn vx_blend<P>(a: P, b: P) -> P;
impl<T: Copy> Pixel for Luma<T> { type Subpixel = T; open spec fn spec_blend(self, other: Self) -> Self { vx_blend(self, other) }
    #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T: Copy> Pixel for LumaA<T> { type Subpixel = T; open spec fn spec_blend(self, other: Self) -> Self { vx_blend(self, other) }
    #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T: Copy> Pixel for Rgb<T> { type Subpixel = T; open spec fn spec_blend(self, other: Self) -> Self { vx_blend(self, other) }
    #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
impl<T: Copy> Pixel for Rgba<T> { type Subpixel = T; open spec fn spec_blend(self, other: Self) -> Self { vx_blend(self, other) }
    #[verifier::external_body] fn blend(&mut self, other: &Self) { unimplemented!() } }
//@item src/buffer.rs type GrayImage vis=pub
//@item src/buffer.rs type GrayAlphaImage vis=pub
//@item src/buffer.rs type RgbImage vis=pub
//@item src/buffer.rs type RgbaImage vis=pub
//@item src/buffer.rs type Gray16Image vis=pub
//@item src/buffer.rs type GrayAlpha16Image vis=pub
//@item src/buffer.rs type Rgb16Image vis=pub
//@item src/buffer.rs type Rgba16Image vis=pub
//@item src/buffer.rs type Rgb32FImage vis=pub
//@item src/buffer.rs type Rgba32FImage vis=pub
//@item src/dynimage.rs enum DynamicImage vis=pub
// ImageBuffer as an image: the assumed get/put contract (proved over the real code in gpixels/buffer)
impl<P: Pixel, C> GenericImageView for ImageBuffer<P, C> {
    type Pixel = P;
    open spec fn sw(&self) -> u32 { ImageBuffer::sw(self) }
    open spec fn sh(&self) -> u32 { ImageBuffer::sh(self) }
    open spec fn px(&self, x: int, y: int) -> P { ImageBuffer::px(self, x, y) }
    #[verifier::external_body] fn dimensions(&self) -> (r: (u32, u32)) { unimplemented!() }
    #[verifier::external_body] fn width(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn height(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn get_pixel(&self, x: u32, y: u32) -> (r: P) { unimplemented!() }
}
impl<P: Pixel, C> GenericImage for ImageBuffer<P, C> {
    #[verifier::external_body] fn put_pixel(&mut self, x: u32, y: u32, pixel: P) { unimplemented!() }
    #[verifier::external_body] fn blend_pixel(&mut self, x: u32, y: u32, pixel: P) { unimplemented!() }
    #[verifier::external_body] fn get_pixel_mut(&mut self, x: u32, y: u32) -> (r: &mut P) { unimplemented!() }
}
