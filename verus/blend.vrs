#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include slices.vrs
//@include floats.vrs
pub trait Primitive: Copy { spec fn top() -> Self; fn vx_max() -> (r: Self) ensures r == Self::top();
    spec fn zero(self) -> bool; fn is_zero(&self) -> (r: bool) ensures r == self.zero(); fn to_f32(self) -> (r: Option<f32>) ensures r.is_some(); }
// the colour of a mixed pixel is not constrained here (see the stand-in), nor is the cast back to the sample type
#[verifier::external_body] pub fn vx_any<A, T>(a: A) -> T { unimplemented!() }
impl Primitive for u8 { open spec fn top() -> u8 { 255 } open spec fn zero(self) -> bool { self == 0 } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { *self == 0 } #[verifier::external_body] fn to_f32(self) -> (r: Option<f32>) { Some(self as f32) }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u8" as=vx_max
//@end
}
impl Primitive for u16 { open spec fn top() -> u16 { 65535 } open spec fn zero(self) -> bool { self == 0 } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { *self == 0 } #[verifier::external_body] fn to_f32(self) -> (r: Option<f32>) { Some(self as f32) }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u16" as=vx_max
//@end
}
impl Primitive for u32 { open spec fn top() -> u32 { 0xffff_ffff } open spec fn zero(self) -> bool { self == 0 } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { *self == 0 } #[verifier::external_body] fn to_f32(self) -> (r: Option<f32>) { Some(self as f32) }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u32" as=vx_max
//@end
}
impl Primitive for f32 { open spec fn top() -> f32 { 1.0f32 } open spec fn zero(self) -> bool { self.ieee_eq(0.0f32) } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { *self == 0.0 } #[verifier::external_body] fn to_f32(self) -> (r: Option<f32>) { Some(self as f32) }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for f32" as=vx_max
//@end
}
// blending over a background: a clear pixel changes nothing, an opaque one replaces it
pub trait Blend: Copy { spec fn clear(self) -> bool; spec fn opaque(self) -> bool;
    fn blend(&mut self, other: &Self) ensures other.clear() ==> *final(self) == *old(self), other.opaque() ==> *final(self) == *other; }
// inverting: colour channels become maximum minus value, alpha stays
pub trait Invert: Copy { spec fn inv(self, r: Self) -> bool; fn invert(&mut self) ensures old(self).inv(*final(self)); }
//@item src/color.rs#define_colors struct Luma vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct LumaA vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct Rgb vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct Rgba vis=pub attrs="#[derive(Clone, Copy)]"
impl Blend for Luma<u8> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Luma < T >"
//@ sigsubst? `Luma<T>` => `Luma<u8>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Luma<u8> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Luma < T >" as=px_blend
//@ sigsubst? `Luma<T>` => `Luma<u8>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Luma < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Luma<u8> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u8::top() - self.0@[0] }
//@fn src/color.rs invert ctx="Invert for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Luma_u8(a: Luma<u8>, b: Luma<u8>, c: Luma<u8>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Luma<u16> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Luma < T >"
//@ sigsubst? `Luma<T>` => `Luma<u16>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Luma<u16> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Luma < T >" as=px_blend
//@ sigsubst? `Luma<T>` => `Luma<u16>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Luma < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Luma<u16> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u16::top() - self.0@[0] }
//@fn src/color.rs invert ctx="Invert for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Luma_u16(a: Luma<u16>, b: Luma<u16>, c: Luma<u16>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Luma<u32> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Luma < T >"
//@ sigsubst? `Luma<T>` => `Luma<u32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Luma<u32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Luma < T >" as=px_blend
//@ sigsubst? `Luma<T>` => `Luma<u32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Luma < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Luma<u32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u32::top() - self.0@[0] }
//@fn src/color.rs invert ctx="Invert for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Luma_u32(a: Luma<u32>, b: Luma<u32>, c: Luma<u32>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Luma<f32> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Luma < T >"
//@ sigsubst? `Luma<T>` => `Luma<f32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Luma<f32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Luma < T >" as=px_blend
//@ sigsubst? `Luma<T>` => `Luma<f32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Luma < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Luma<f32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == 1.0f32.ieee_sub(self.0@[0]) }
//@fn src/color.rs invert ctx="Invert for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl Blend for LumaA<u8> { open spec fn clear(self) -> bool { self.0@[1].zero() } open spec fn opaque(self) -> bool { self.0@[1] == u8::top() }
//@fn src/color.rs blend ctx="Blend for LumaA < T >"
//@ sigsubst? `LumaA<T>` => `LumaA<u8>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl LumaA<u8> {
//@fn src/color.rs#define_colors blend ctx="Pixel for LumaA < T >" as=px_blend
//@ sigsubst? `LumaA<T>` => `LumaA<u8>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for LumaA < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for LumaA<u8> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u8::top() - self.0@[0] && r.0@[1] == self.0@[1] }
//@fn src/color.rs invert ctx="Invert for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_LumaA_u8(a: LumaA<u8>, b: LumaA<u8>, c: LumaA<u8>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for LumaA<u16> { open spec fn clear(self) -> bool { self.0@[1].zero() } open spec fn opaque(self) -> bool { self.0@[1] == u16::top() }
//@fn src/color.rs blend ctx="Blend for LumaA < T >"
//@ sigsubst? `LumaA<T>` => `LumaA<u16>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl LumaA<u16> {
//@fn src/color.rs#define_colors blend ctx="Pixel for LumaA < T >" as=px_blend
//@ sigsubst? `LumaA<T>` => `LumaA<u16>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for LumaA < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for LumaA<u16> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u16::top() - self.0@[0] && r.0@[1] == self.0@[1] }
//@fn src/color.rs invert ctx="Invert for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_LumaA_u16(a: LumaA<u16>, b: LumaA<u16>, c: LumaA<u16>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for LumaA<u32> { open spec fn clear(self) -> bool { self.0@[1].zero() } open spec fn opaque(self) -> bool { self.0@[1] == u32::top() }
//@fn src/color.rs blend ctx="Blend for LumaA < T >"
//@ sigsubst? `LumaA<T>` => `LumaA<u32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl LumaA<u32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for LumaA < T >" as=px_blend
//@ sigsubst? `LumaA<T>` => `LumaA<u32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for LumaA < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for LumaA<u32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u32::top() - self.0@[0] && r.0@[1] == self.0@[1] }
//@fn src/color.rs invert ctx="Invert for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_LumaA_u32(a: LumaA<u32>, b: LumaA<u32>, c: LumaA<u32>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for LumaA<f32> { open spec fn clear(self) -> bool { self.0@[1].zero() } open spec fn opaque(self) -> bool { self.0@[1].ieee_eq(1.0f32) }
//@fn src/color.rs blend ctx="Blend for LumaA < T >"
//@ sigsubst? `LumaA<T>` => `LumaA<f32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
    proof { fexcl($n0.0@[1]); }
//@end
}
impl LumaA<f32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for LumaA < T >" as=px_blend
//@ sigsubst? `LumaA<T>` => `LumaA<f32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for LumaA < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for LumaA<f32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == 1.0f32.ieee_sub(self.0@[0]) && r.0@[1] == self.0@[1] }
//@fn src/color.rs invert ctx="Invert for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl Blend for Rgb<u8> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Rgb < T >"
//@ sigsubst? `Rgb<T>` => `Rgb<u8>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Rgb<u8> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgb < T >" as=px_blend
//@ sigsubst? `Rgb<T>` => `Rgb<u8>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgb < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgb<u8> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u8::top() - self.0@[0] && r.0@[1] == u8::top() - self.0@[1] && r.0@[2] == u8::top() - self.0@[2] }
//@fn src/color.rs invert ctx="Invert for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Rgb_u8(a: Rgb<u8>, b: Rgb<u8>, c: Rgb<u8>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Rgb<u16> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Rgb < T >"
//@ sigsubst? `Rgb<T>` => `Rgb<u16>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Rgb<u16> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgb < T >" as=px_blend
//@ sigsubst? `Rgb<T>` => `Rgb<u16>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgb < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgb<u16> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u16::top() - self.0@[0] && r.0@[1] == u16::top() - self.0@[1] && r.0@[2] == u16::top() - self.0@[2] }
//@fn src/color.rs invert ctx="Invert for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Rgb_u16(a: Rgb<u16>, b: Rgb<u16>, c: Rgb<u16>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Rgb<u32> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Rgb < T >"
//@ sigsubst? `Rgb<T>` => `Rgb<u32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Rgb<u32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgb < T >" as=px_blend
//@ sigsubst? `Rgb<T>` => `Rgb<u32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgb < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgb<u32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u32::top() - self.0@[0] && r.0@[1] == u32::top() - self.0@[1] && r.0@[2] == u32::top() - self.0@[2] }
//@fn src/color.rs invert ctx="Invert for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Rgb_u32(a: Rgb<u32>, b: Rgb<u32>, c: Rgb<u32>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Rgb<f32> { open spec fn clear(self) -> bool { false } open spec fn opaque(self) -> bool { true }
//@fn src/color.rs blend ctx="Blend for Rgb < T >"
//@ sigsubst? `Rgb<T>` => `Rgb<f32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@end
}
impl Rgb<f32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgb < T >" as=px_blend
//@ sigsubst? `Rgb<T>` => `Rgb<f32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgb < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgb<f32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == 1.0f32.ieee_sub(self.0@[0]) && r.0@[1] == 1.0f32.ieee_sub(self.0@[1]) && r.0@[2] == 1.0f32.ieee_sub(self.0@[2]) }
//@fn src/color.rs invert ctx="Invert for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl Blend for Rgba<u8> { open spec fn clear(self) -> bool { self.0@[3].zero() } open spec fn opaque(self) -> bool { self.0@[3] == u8::top() }
//@fn src/color.rs blend ctx="Blend for Rgba < T >"
//@ sigsubst? `Rgba<T>` => `Rgba<u8>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl Rgba<u8> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgba < T >" as=px_blend
//@ sigsubst? `Rgba<T>` => `Rgba<u8>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgba < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgba<u8> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u8::top() - self.0@[0] && r.0@[1] == u8::top() - self.0@[1] && r.0@[2] == u8::top() - self.0@[2] && r.0@[3] == self.0@[3] }
//@fn src/color.rs invert ctx="Invert for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u8 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Rgba_u8(a: Rgba<u8>, b: Rgba<u8>, c: Rgba<u8>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Rgba<u16> { open spec fn clear(self) -> bool { self.0@[3].zero() } open spec fn opaque(self) -> bool { self.0@[3] == u16::top() }
//@fn src/color.rs blend ctx="Blend for Rgba < T >"
//@ sigsubst? `Rgba<T>` => `Rgba<u16>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl Rgba<u16> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgba < T >" as=px_blend
//@ sigsubst? `Rgba<T>` => `Rgba<u16>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgba < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgba<u16> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u16::top() - self.0@[0] && r.0@[1] == u16::top() - self.0@[1] && r.0@[2] == u16::top() - self.0@[2] && r.0@[3] == self.0@[3] }
//@fn src/color.rs invert ctx="Invert for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u16 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Rgba_u16(a: Rgba<u16>, b: Rgba<u16>, c: Rgba<u16>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Rgba<u32> { open spec fn clear(self) -> bool { self.0@[3].zero() } open spec fn opaque(self) -> bool { self.0@[3] == u32::top() }
//@fn src/color.rs blend ctx="Blend for Rgba < T >"
//@ sigsubst? `Rgba<T>` => `Rgba<u32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
//@end
}
impl Rgba<u32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgba < T >" as=px_blend
//@ sigsubst? `Rgba<T>` => `Rgba<u32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgba < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgba<u32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == u32::top() - self.0@[0] && r.0@[1] == u32::top() - self.0@[1] && r.0@[2] == u32::top() - self.0@[2] && r.0@[3] == self.0@[3] }
//@fn src/color.rs invert ctx="Invert for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<u32 as Primitive>::vx_max()`
//@end
}
pub proof fn twice_Rgba_u32(a: Rgba<u32>, b: Rgba<u32>, c: Rgba<u32>) requires a.inv(b), b.inv(c) ensures c.0@ =~= a.0@ { }
impl Blend for Rgba<f32> { open spec fn clear(self) -> bool { self.0@[3].zero() } open spec fn opaque(self) -> bool { self.0@[3].ieee_eq(1.0f32) }
//@fn src/color.rs blend ctx="Blend for Rgba < T >"
//@ sigsubst? `Rgba<T>` => `Rgba<f32>`
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_any($A)`
//@ at body.start
    broadcast use f32_ops;
    proof { fexcl($n0.0@[3]); }
//@end
}
impl Rgba<f32> {
//@fn src/color.rs#define_colors blend ctx="Pixel for Rgba < T >" as=px_blend
//@ sigsubst? `Rgba<T>` => `Rgba<f32>`
//@ spec
    ensures $n0.clear() ==> *final(self) == *old(self), $n0.opaque() ==> *final(self) == *$n0,
//@end
//@fn src/color.rs#define_colors invert ctx="Pixel for Rgba < T >" as=px_invert
//@ spec
    ensures old(self).inv(*final(self)),
//@end
}
impl Invert for Rgba<f32> { open spec fn inv(self, r: Self) -> bool { r.0@[0] == 1.0f32.ieee_sub(self.0@[0]) && r.0@[1] == 1.0f32.ieee_sub(self.0@[1]) && r.0@[2] == 1.0f32.ieee_sub(self.0@[2]) && r.0@[3] == self.0@[3] }
//@fn src/color.rs invert ctx="Invert for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `<f32 as Primitive>::vx_max()`
//@ at body.start
    broadcast use f32_ops;
//@end
}
pub proof fn fexcl(x: f32) ensures !(x.ieee_eq(0.0f32) && x.ieee_eq(1.0f32)) { assert(!(x.ieee_eq(0.0f32) && x.ieee_eq(1.0f32))) by (bit_vector); }
}
fn main() {}
