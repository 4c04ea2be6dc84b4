//@item src/color.rs enum ColorType vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
//@item src/color.rs enum ExtendedColorType vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
// the number of bytes and bits each layout takes, from its name
pub open spec fn cbytes(c: ColorType) -> int {
    match c { ColorType::L8 => 1, ColorType::La8 => 2, ColorType::Rgb8 => 3, ColorType::Rgba8 => 4, ColorType::L16 => 2, ColorType::La16 => 4, ColorType::Rgb16 => 6, ColorType::Rgba16 => 8, ColorType::Rgb32F => 12, ColorType::Rgba32F => 16 }
}
pub open spec fn ebits(c: ExtendedColorType) -> int {
    match c { ExtendedColorType::A8 => 8, ExtendedColorType::L1 => 1, ExtendedColorType::La1 => 2, ExtendedColorType::Rgb1 => 3, ExtendedColorType::Rgba1 => 4,
        ExtendedColorType::L2 => 2, ExtendedColorType::La2 => 4, ExtendedColorType::Rgb2 => 6, ExtendedColorType::Rgba2 => 8, ExtendedColorType::L4 => 4, ExtendedColorType::La4 => 8, ExtendedColorType::Rgb4 => 12, ExtendedColorType::Rgba4 => 16,
        ExtendedColorType::L8 => 8, ExtendedColorType::La8 => 16, ExtendedColorType::Rgb8 => 24, ExtendedColorType::Rgba8 => 32, ExtendedColorType::L16 => 16, ExtendedColorType::La16 => 32, ExtendedColorType::Rgb16 => 48, ExtendedColorType::Rgba16 => 64,
        ExtendedColorType::Bgr8 => 24, ExtendedColorType::Bgra8 => 32, ExtendedColorType::Rgb32F => 96, ExtendedColorType::Rgba32F => 128, ExtendedColorType::Cmyk8 => 32, ExtendedColorType::Unknown(b) => b as int }
}
pub open spec fn ealpha(c: ExtendedColorType) -> bool { c is A8 || c is La1 || c is La2 || c is La4 || c is La8 || c is La16 || c is Rgba1 || c is Rgba2 || c is Rgba4 || c is Rgba8 || c is Rgba16 || c is Rgba32F || c is Bgra8 }
pub open spec fn echans(c: ExtendedColorType) -> int {
    if c is A8 || c is L1 || c is L2 || c is L4 || c is L8 || c is L16 || c is Unknown { 1 } else if c is La1 || c is La2 || c is La4 || c is La8 || c is La16 { 2 }
    else if c is Cmyk8 || ealpha(c) { 4 } else { 3 } }
pub open spec fn extended(c: ColorType) -> ExtendedColorType {
    match c { ColorType::L8 => ExtendedColorType::L8, ColorType::La8 => ExtendedColorType::La8, ColorType::Rgb8 => ExtendedColorType::Rgb8, ColorType::Rgba8 => ExtendedColorType::Rgba8, ColorType::L16 => ExtendedColorType::L16,
        ColorType::La16 => ExtendedColorType::La16, ColorType::Rgb16 => ExtendedColorType::Rgb16, ColorType::Rgba16 => ExtendedColorType::Rgba16, ColorType::Rgb32F => ExtendedColorType::Rgb32F, ColorType::Rgba32F => ExtendedColorType::Rgba32F } }
//@fn src/color.rs from ctx="impl From < ColorType > for ExtendedColorType" ret=res as=vx_extended vis=pub
//@ sigsubst `Self` => `ExtendedColorType`
//@ spec
    ensures res == extended($n0),
//@end
impl ColorType {
//@fn src/color.rs has_alpha ctx="impl ColorType" ret=res vis=pub
//@ spec
    ensures res == ealpha(extended(self)),
//@end
//@fn src/color.rs has_color ctx="impl ColorType" ret=res vis=pub
//@ spec
    ensures res == (echans(extended(self)) >= 3),
//@end
//@fn src/color.rs channel_count ctx="impl ColorType" ret=res vis=pub
//@ subst? `self.into()` => `vx_extended(self)`
//@ spec
    ensures res == echans(extended(self)),
//@end
//@fn src/color.rs bytes_per_pixel ctx="impl ColorType" ret=res vis=pub
//@ spec
    ensures res == cbytes(self),
//@end
//@fn src/color.rs bits_per_pixel ctx="impl ColorType" ret=res vis=pub
//@ spec
    ensures res == 8 * cbytes(self),
//@end
}
impl ExtendedColorType {
//@fn src/color.rs channel_count ctx="impl ExtendedColorType" ret=res vis=pub
//@ spec
    ensures res == echans(self),
//@end
//@fn src/color.rs bits_per_pixel ctx="impl ExtendedColorType" ret=res vis=pub
//@ spec
    ensures res == ebits(*self),
//@end
}
