#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include slices.vrs
//@include floats.vrs
pub open spec fn q8(x: u8) -> f32 { IeeeFloatCast::<f32>::ieee_cast(x) }
pub open spec fn q16(x: u16) -> f32 { IeeeFloatCast::<f32>::ieee_cast(x) }
pub open spec fn d32(x: f32) -> f64 { IeeeFloatCast::<f64>::ieee_cast(x) }
pub open spec fn near(a: f64, b: f64, t: f64) -> bool { a.ieee_sub(b).ieee_le(t) && b.ieee_sub(a).ieee_le(t) }
// `NumCast::from(x).unwrap()` of num-traits: the value towards zero if the type can represent it, otherwise no value
#[verifier::external_body]
pub fn vx_f32_u8(x: f32) -> (r: u8) requires x.ieee_gt(-1.0f32), x.ieee_lt(256.0f32) ensures q8(r).ieee_eq(x.ieee_trunc()) { x as u8 }
#[verifier::external_body]
pub fn vx_f32_u16(x: f32) -> (r: u16) requires x.ieee_gt(-1.0f32), x.ieee_lt(65536.0f32) ensures q16(r).ieee_eq(x.ieee_trunc()) { x as u16 }
pub fn vx_u32_u8(x: u32) -> (r: u8) requires x < 256 ensures r == x { x as u8 }
pub fn vx_u64_u16(x: u64) -> (r: u16) requires x < 65536 ensures r == x { x as u16 }
// ---- what a converted sample must be ----
pub trait Primitive: Copy { spec fn top() -> Self; fn vx_max() -> (r: Self) ensures r == Self::top(); fn vx_zero() -> Self; }
impl Primitive for u8 { open spec fn top() -> u8 { 255u8 } fn vx_zero() -> u8 { 0 }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u8" as=vx_max
//@end
}
impl Primitive for u16 { open spec fn top() -> u16 { 65535u16 } fn vx_zero() -> u16 { 0 }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for u16" as=vx_max
//@end
}
impl Primitive for f32 { open spec fn top() -> f32 { 1.0f32 } fn vx_zero() -> f32 { 0.0 }
//@fn src/traits.rs#declare_primitive DEFAULT_MAX_VALUE init=const ctx="Primitive for f32" as=vx_max
//@end
}
pub trait FromPrimitive<C>: Sized { spec fn ok(c: C, r: Self) -> bool; fn from_primitive(component: C) -> (r: Self) ensures Self::ok(component, r); }
impl<T: Primitive> FromPrimitive<T> for T { open spec fn ok(c: T, r: T) -> bool { r == c }
//@fn src/color.rs from_primitive ctx="FromPrimitive < T > for T" ret=res
//@end
}
// out of range clamps, NaN is white, otherwise the nearest integer to the scaled value (within the precision of f32)
pub open spec fn int_of(c: f32, r: f32, max: f32) -> bool {
    if !c.ieee_lt(1.0f32) { r.ieee_eq(max) } else if c.ieee_lt(0.0f32) { r.ieee_eq(0.0f32) } else { r.ieee_eq(c.ieee_mul(max).ieee_round()) } }
//@fn src/color.rs normalize_float ret=res
//@ spec
    requires $n1 == 255.0f32 || $n1 == 65535.0f32,
    ensures int_of($n0, res, $n1),
//@ at body.start
    broadcast use f32_ops;
    proof {
        norm_facts(); nan($n0);
        assert forall|m: f32| (m == $n0 || m == 0.0f32) && $n0.ieee_le(m) && 0.0f32.ieee_le(m) && $n0.ieee_lt(1.0f32) implies int_of($n0, #[trigger] m.ieee_mul($n1).ieee_round(), $n1) by { clamped($n0, m); }
    }
//@end
pub proof fn nan(x: f32) ensures x.ieee_lt(1.0f32) ==> !x.ieee_is_nan(), !0.0f32.ieee_is_nan() { assert(x.ieee_lt(1.0f32) ==> !x.ieee_is_nan()) by (bit_vector); assert(!0.0f32.ieee_is_nan()) by (bit_vector); }
pub proof fn norm_facts()
    ensures 1.0f32.ieee_mul(255.0f32).ieee_round() == 255.0f32, 1.0f32.ieee_mul(65535.0f32).ieee_round() == 65535.0f32, 255.0f32.ieee_eq(255.0f32), 65535.0f32.ieee_eq(65535.0f32), q8(255u8) == 255.0f32, q16(65535u16) == 65535.0f32, 0.0f32.ieee_le(1.0f32),
{
    assert(1.0f32.ieee_mul(255.0f32).ieee_round() == 255.0f32 && 1.0f32.ieee_mul(65535.0f32).ieee_round() == 65535.0f32 && 255.0f32.ieee_eq(255.0f32) && 65535.0f32.ieee_eq(65535.0f32) && 0.0f32.ieee_le(1.0f32)) by (bit_vector);
    assert(IeeeFloatCast::<f32>::ieee_cast(255u8) == 255.0f32) by (bit_vector); assert(IeeeFloatCast::<f32>::ieee_cast(65535u16) == 65535.0f32) by (bit_vector);
}
pub proof fn clamped(x: f32, m: f32)
    requires m == x || m == 0.0f32, x.ieee_le(m), 0.0f32.ieee_le(m), x.ieee_lt(1.0f32)
    ensures int_of(x, m.ieee_mul(255.0f32).ieee_round(), 255.0f32), int_of(x, m.ieee_mul(65535.0f32).ieee_round(), 65535.0f32)
{
    assert(x.ieee_lt(0.0f32) && (m == x || m == 0.0f32) && 0.0f32.ieee_le(m) ==> m == 0.0f32) by (bit_vector);
    assert(0.0f32.ieee_mul(255.0f32).ieee_round().ieee_eq(0.0f32) && 0.0f32.ieee_mul(65535.0f32).ieee_round().ieee_eq(0.0f32)) by (bit_vector);
    assert(!x.ieee_lt(0.0f32) && x.ieee_lt(1.0f32) && m == 0.0f32 && x.ieee_le(m) ==> x.ieee_eq(0.0f32)) by (bit_vector);
    assert(x.ieee_eq(0.0f32) ==> 0.0f32.ieee_mul(255.0f32).ieee_round().ieee_eq(x.ieee_mul(255.0f32).ieee_round()) && 0.0f32.ieee_mul(65535.0f32).ieee_round().ieee_eq(x.ieee_mul(65535.0f32).ieee_round())) by (bit_vector);
    assert(!x.ieee_lt(0.0f32) && x.ieee_lt(1.0f32) ==> x.ieee_mul(255.0f32).ieee_round().ieee_eq(x.ieee_mul(255.0f32).ieee_round()) && x.ieee_mul(65535.0f32).ieee_round().ieee_eq(x.ieee_mul(65535.0f32).ieee_round())) by (bit_vector);
}
// a value `normalize_float` may return fits the integer type and is a whole number
pub proof fn fits(c: f32, r: f32, max: f32)
    requires int_of(c, r, max), max == 255.0f32 || max == 65535.0f32
    ensures r.ieee_gt(-1.0f32), max == 255.0f32 ==> r.ieee_lt(256.0f32), r.ieee_lt(65536.0f32), r.ieee_trunc().ieee_eq(r),
{
    assert(r.ieee_eq(255.0f32) || r.ieee_eq(0.0f32) ==> r.ieee_gt(-1.0f32) && r.ieee_lt(256.0f32) && r.ieee_lt(65536.0f32) && r.ieee_trunc().ieee_eq(r)) by (bit_vector);
    assert(r.ieee_eq(65535.0f32) ==> r.ieee_gt(-1.0f32) && r.ieee_lt(65536.0f32) && r.ieee_trunc().ieee_eq(r)) by (bit_vector);
    let y = c.ieee_mul(255.0f32); let z = c.ieee_mul(65535.0f32);
    assert(!c.ieee_lt(0.0f32) && c.ieee_lt(1.0f32) ==> c.ieee_mul(255.0f32).ieee_ge(0.0f32) && c.ieee_mul(255.0f32).ieee_le(255.0f32)) by (bit_vector);
    assert(!c.ieee_lt(0.0f32) && c.ieee_lt(1.0f32) ==> c.ieee_mul(65535.0f32).ieee_ge(0.0f32) && c.ieee_mul(65535.0f32).ieee_le(65535.0f32)) by (bit_vector);
    assert(y.ieee_ge(0.0f32) && y.ieee_le(255.0f32) && r.ieee_eq(y.ieee_round()) ==> r.ieee_gt(-1.0f32) && r.ieee_lt(256.0f32) && r.ieee_lt(65536.0f32) && r.ieee_trunc().ieee_eq(r)) by (bit_vector);
    assert(z.ieee_ge(0.0f32) && z.ieee_le(65535.0f32) && r.ieee_eq(z.ieee_round()) ==> r.ieee_gt(-1.0f32) && r.ieee_lt(65536.0f32) && r.ieee_trunc().ieee_eq(r)) by (bit_vector);
}
pub proof fn eqtrans(a: f32, b: f32, c: f32) ensures a.ieee_eq(b) && b.ieee_eq(c) ==> a.ieee_eq(c), a.ieee_eq(b) ==> b.ieee_eq(a) { assert(a.ieee_eq(b) && b.ieee_eq(c) ==> a.ieee_eq(c)) by (bit_vector); assert(a.ieee_eq(b) ==> b.ieee_eq(a)) by (bit_vector); }
// the integer with the value of such a result is a conversion too
pub proof fn carries(c: f32, r: f32, i: f32, max: f32)
    requires int_of(c, r, max), i.ieee_eq(r) ensures int_of(c, i, max)
{ eqtrans(i, r, max); eqtrans(i, r, 0.0f32); eqtrans(i, r, c.ieee_mul(max).ieee_round()); }
impl FromPrimitive<f32> for u8 { open spec fn ok(c: f32, r: u8) -> bool { int_of(c, q8(r), 255.0f32) }
//@fn src/color.rs from_primitive ctx="FromPrimitive < f32 > for u8" ret=res
//@ subst? `NumCast::from($A).unwrap()` => `vx_f32_u8($A)`
//@ at body.start
    broadcast use f32_ops;
    proof { norm_facts();
        assert forall|r: f32| #[trigger] int_of($n0, r, 255.0f32) implies r.ieee_gt(-1.0f32) && r.ieee_lt(256.0f32) && (forall|i: f32| #[trigger] i.ieee_eq(r.ieee_trunc()) ==> int_of($n0, i, 255.0f32)) by {
            fits($n0, r, 255.0f32);
            assert forall|i: f32| #[trigger] i.ieee_eq(r.ieee_trunc()) implies int_of($n0, i, 255.0f32) by { eqtrans(i, r.ieee_trunc(), r); carries($n0, r, i, 255.0f32); } } }
//@end
}
impl FromPrimitive<f32> for u16 { open spec fn ok(c: f32, r: u16) -> bool { int_of(c, q16(r), 65535.0f32) }
//@fn src/color.rs from_primitive ctx="FromPrimitive < f32 > for u16" ret=res
//@ subst? `NumCast::from($A).unwrap()` => `vx_f32_u16($A)`
//@ at body.start
    broadcast use f32_ops;
    proof { norm_facts();
        assert forall|r: f32| #[trigger] int_of($n0, r, 65535.0f32) implies r.ieee_gt(-1.0f32) && r.ieee_lt(65536.0f32) && (forall|i: f32| #[trigger] i.ieee_eq(r.ieee_trunc()) ==> int_of($n0, i, 65535.0f32)) by {
            fits($n0, r, 65535.0f32);
            assert forall|i: f32| #[trigger] i.ieee_eq(r.ieee_trunc()) implies int_of($n0, i, 65535.0f32) by { eqtrans(i, r.ieee_trunc(), r); carries($n0, r, i, 65535.0f32); } } }
//@end
}
// the nearest 8-bit value of a 16-bit one
impl FromPrimitive<u16> for u8 { open spec fn ok(c: u16, r: u8) -> bool { -65535 <= 2 * (r * 65535 - c * 255) <= 65535 }
//@fn src/color.rs from_primitive ctx="FromPrimitive < u16 > for u8" ret=res
//@ subst `fn from(c: impl Into<u32>) -> u32 {$A}` => ` `
//@ subst? `from(c16)` => `(c16 as u32)`
//@ subst? `NumCast::from($A).unwrap()` => `vx_u32_u8($A)`
//@end
}
impl FromPrimitive<u8> for u16 { open spec fn ok(c: u8, r: u16) -> bool { r == c * 257 }
//@fn src/color.rs from_primitive ctx="FromPrimitive < u8 > for u16" ret=res
//@ subst? `c8.to_u64().unwrap()` => `(c8 as u64)`
//@ subst? `NumCast::from($A).unwrap()` => `vx_u64_u16($A)`
//@ at body.start
    proof { assert forall|x: u64| x < 256 implies #[trigger] (x << 8) | x == x * 257 by { assert(x < 256 ==> (x << 8) | x == x * 257) by (bit_vector); } }
//@end
}
// the value as a fraction of the maximum, ends exact
pub open spec fn frac(c: f64, r: f32, max: f64, t: f64) -> bool { 0.0f32.ieee_le(r) && r.ieee_le(1.0f32) && near(d32(r).ieee_mul(max), c, t) }
pub open spec fn cl(x: f32) -> f32 { if x.ieee_lt(0.0f32) { 0.0f32 } else if 1.0f32.ieee_lt(x) { 1.0f32 } else { x } }
impl FromPrimitive<u16> for f32 { open spec fn ok(c: u16, r: f32) -> bool { r == cl(q16(c).ieee_div(65535.0f32)) && 0.0f32.ieee_le(r) && r.ieee_le(1.0f32) && (c == 0 ==> r.ieee_eq(0.0f32)) && (c == 65535 ==> r == 1.0f32) }
//@fn src/color.rs from_primitive ctx="FromPrimitive < u16 > for f32" ret=res
//@ sigsubst? `int: u16` => `int_: u16`
//@ subst? `int` => `int_`
//@ at body.start
    broadcast use f32_ops;
    proof { norm_facts(); assert forall|k: u16| <f32 as FromPrimitive<u16>>::ok(k, #[trigger] cl(q16(k).ieee_div(65535.0f32))) by { frac16(k); } }
//@end
}
impl FromPrimitive<u8> for f32 { open spec fn ok(c: u8, r: f32) -> bool { r == cl(q8(c).ieee_div(255.0f32)) && 0.0f32.ieee_le(r) && r.ieee_le(1.0f32) && (c == 0 ==> r.ieee_eq(0.0f32)) && (c == 255 ==> r == 1.0f32) }
//@fn src/color.rs from_primitive ctx="FromPrimitive < u8 > for f32" ret=res
//@ sigsubst? `int: u8` => `int_: u8`
//@ subst? `int` => `int_`
//@ at body.start
    broadcast use f32_ops;
    proof { norm_facts(); assert forall|k: u8| <f32 as FromPrimitive<u8>>::ok(k, #[trigger] cl(q8(k).ieee_div(255.0f32))) by { frac8(k); } }
//@end
}
pub proof fn frac16(c: u16) ensures <f32 as FromPrimitive<u16>>::ok(c, cl(q16(c).ieee_div(65535.0f32)))
{
    assert(({ let r = IeeeFloatCast::<f32>::ieee_cast(c).ieee_div(65535.0f32); 0.0f32.ieee_le(r) && r.ieee_le(1.0f32) && !r.ieee_lt(0.0f32) && !1.0f32.ieee_lt(r) && (c == 0 ==> r.ieee_eq(0.0f32)) && (c == 65535 ==> r == 1.0f32) })) by (bit_vector);
}
pub proof fn frac8(c: u8) ensures <f32 as FromPrimitive<u8>>::ok(c, cl(q8(c).ieee_div(255.0f32)))
{
    assert(({ let r = IeeeFloatCast::<f32>::ieee_cast(c).ieee_div(255.0f32); 0.0f32.ieee_le(r) && r.ieee_le(1.0f32) && !r.ieee_lt(0.0f32) && !1.0f32.ieee_lt(r) && (c == 0 ==> r.ieee_eq(0.0f32)) && (c == 255 ==> r == 1.0f32) })) by (bit_vector);
}
// what the formulas are worth: the fraction is right, narrowing it again is the identity, and rounding moves by at most a half
pub proof fn worth8(c: u8) ensures frac(IeeeFloatCast::<f64>::ieee_cast(c), cl(q8(c).ieee_div(255.0f32)), 255.0f64, 0.00001f64)
{ frac8(c);
  assert(({ let r = IeeeFloatCast::<f32>::ieee_cast(c).ieee_div(255.0f32); let e = IeeeFloatCast::<f64>::ieee_cast(r).ieee_mul(255.0f64); let g: f64 = IeeeFloatCast::<f64>::ieee_cast(c); e.ieee_sub(g).ieee_le(0.00001f64) && g.ieee_sub(e).ieee_le(0.00001f64) })) by (bit_vector); 
  assert(({ let r = IeeeFloatCast::<f32>::ieee_cast(c).ieee_div(255.0f32); !r.ieee_lt(0.0f32) && !1.0f32.ieee_lt(r) })) by (bit_vector); }
pub proof fn back8(c: u8, f: f32, b: u8) requires <f32 as FromPrimitive<u8>>::ok(c, f), <u8 as FromPrimitive<f32>>::ok(f, b) ensures b == c
{
    frac8(c); norm_facts();
    assert(({ let a: f32 = IeeeFloatCast::<f32>::ieee_cast(c); let f = a.ieee_div(255.0f32); f.ieee_mul(255.0f32).ieee_round().ieee_eq(a) && !f.ieee_lt(0.0f32) && !1.0f32.ieee_lt(f) && (!f.ieee_lt(1.0f32) ==> c == 255) })) by (bit_vector);
    eqtrans(q8(b), f.ieee_mul(255.0f32).ieee_round(), q8(c)); eqtrans(q8(b), 255.0f32, q8(c));
    assert(IeeeFloatCast::<f32>::ieee_cast(b).ieee_eq(IeeeFloatCast::<f32>::ieee_cast(c)) ==> b == c) by (bit_vector);
    assert(IeeeFloatCast::<f32>::ieee_cast(b).ieee_eq(255.0f32) ==> b == 255) by (bit_vector);
}
pub proof fn halfway(y: f32) requires y.ieee_ge(0.0f32), y.ieee_le(65535.0f32) ensures near(d32(y.ieee_round()), d32(y), 0.5f64)
{ assert(y.ieee_ge(0.0f32) && y.ieee_le(65535.0f32) ==> ({ let e: f64 = IeeeFloatCast::<f64>::ieee_cast(y); let g: f64 = IeeeFloatCast::<f64>::ieee_cast(y.ieee_round()); e.ieee_sub(g).ieee_le(0.5f64) && g.ieee_sub(e).ieee_le(0.5f64) })) by (bit_vector); }
// widening then narrowing is the identity
pub proof fn wide8(c: u8, w: u16, r: u8) requires <u16 as FromPrimitive<u8>>::ok(c, w), <u8 as FromPrimitive<u16>>::ok(w, r) ensures r == c { assert(w == 257 * c); }

// ---- pixels ----
pub trait Pixel: Copy { type Subpixel: Primitive; spec fn chs(&self) -> Seq<Self::Subpixel>;
    fn channels(&self) -> (r: &[Self::Subpixel]) ensures r@ == self.chs();
    fn channels_mut(&mut self) -> (r: &mut [Self::Subpixel]) ensures r@ == old(self).chs(), final(self).chs() == final(r)@;
    spec fn n() -> nat;
    fn from_slice<'a>(slice: &'a [Self::Subpixel]) -> (r: &'a Self) requires slice@.len() == Self::n() ensures r.chs() == slice@;
    fn from_channels(a: Self::Subpixel, b: Self::Subpixel, c: Self::Subpixel, d: Self::Subpixel) -> (r: Self) ensures r.chs() == seq![a, b, c, d].take(Self::n() as int);
    // the channels, missing ones the maximum
    fn channels4(&self) -> (r: (Self::Subpixel, Self::Subpixel, Self::Subpixel, Self::Subpixel))
        ensures ({ let c = |k: int| if k < Self::n() { self.chs()[k] } else { Self::Subpixel::top() }; r.0 == c(0) && r.1 == c(1) && r.2 == c(2) && r.3 == c(3) });
}
//@item src/color.rs#define_colors struct Luma vis=pub attrs="#[derive(Clone, Copy)]"
impl<T: Primitive> Pixel for Luma<T> { type Subpixel = T; open spec fn chs(&self) -> Seq<T> { self.0@ }
    open spec fn n() -> nat { 1 }
    // trusted: the unsafe cast of a slice of exactly that many channels (Pixel is repr(transparent) over the array)
    #[verifier::external_body] fn from_slice<'a>(slice: &'a [T]) -> (r: &'a Self) { unimplemented!() }
//@fn src/color.rs#define_colors channels ctx="Pixel for Luma < T >" ret=res
//@end
//@fn src/color.rs#define_colors from_channels ctx="Pixel for Luma < T >" ret=res
//@ slices
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@end
//@fn src/color.rs#define_colors channels4 ctx="Pixel for Luma < T >" ret=res
//@ slices own=channels
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@ subst `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@end
//@fn src/color.rs#define_colors channels_mut ctx="Pixel for Luma < T >" ret=res
//@end
}
//@item src/color.rs#define_colors struct LumaA vis=pub attrs="#[derive(Clone, Copy)]"
impl<T: Primitive> Pixel for LumaA<T> { type Subpixel = T; open spec fn chs(&self) -> Seq<T> { self.0@ }
    open spec fn n() -> nat { 2 }
    // trusted: the unsafe cast of a slice of exactly that many channels (Pixel is repr(transparent) over the array)
    #[verifier::external_body] fn from_slice<'a>(slice: &'a [T]) -> (r: &'a Self) { unimplemented!() }
//@fn src/color.rs#define_colors channels ctx="Pixel for LumaA < T >" ret=res
//@end
//@fn src/color.rs#define_colors from_channels ctx="Pixel for LumaA < T >" ret=res
//@ slices
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@end
//@fn src/color.rs#define_colors channels4 ctx="Pixel for LumaA < T >" ret=res
//@ slices own=channels
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@ subst `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@end
//@fn src/color.rs#define_colors channels_mut ctx="Pixel for LumaA < T >" ret=res
//@end
}
//@item src/color.rs#define_colors struct Rgb vis=pub attrs="#[derive(Clone, Copy)]"
impl<T: Primitive> Pixel for Rgb<T> { type Subpixel = T; open spec fn chs(&self) -> Seq<T> { self.0@ }
    open spec fn n() -> nat { 3 }
    // trusted: the unsafe cast of a slice of exactly that many channels (Pixel is repr(transparent) over the array)
    #[verifier::external_body] fn from_slice<'a>(slice: &'a [T]) -> (r: &'a Self) { unimplemented!() }
//@fn src/color.rs#define_colors channels ctx="Pixel for Rgb < T >" ret=res
//@end
//@fn src/color.rs#define_colors from_channels ctx="Pixel for Rgb < T >" ret=res
//@ slices
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@end
//@fn src/color.rs#define_colors channels4 ctx="Pixel for Rgb < T >" ret=res
//@ slices own=channels
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@ subst `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@end
//@fn src/color.rs#define_colors channels_mut ctx="Pixel for Rgb < T >" ret=res
//@end
}
//@item src/color.rs#define_colors struct Rgba vis=pub attrs="#[derive(Clone, Copy)]"
impl<T: Primitive> Pixel for Rgba<T> { type Subpixel = T; open spec fn chs(&self) -> Seq<T> { self.0@ }
    open spec fn n() -> nat { 4 }
    // trusted: the unsafe cast of a slice of exactly that many channels (Pixel is repr(transparent) over the array)
    #[verifier::external_body] fn from_slice<'a>(slice: &'a [T]) -> (r: &'a Self) { unimplemented!() }
//@fn src/color.rs#define_colors channels ctx="Pixel for Rgba < T >" ret=res
//@end
//@fn src/color.rs#define_colors from_channels ctx="Pixel for Rgba < T >" ret=res
//@ slices
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@end
//@fn src/color.rs#define_colors channels4 ctx="Pixel for Rgba < T >" ret=res
//@ slices own=channels
//@ subst `const CHANNELS: usize = $A;` => `let CHANNELS: usize = $A;`
//@ subst `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@end
//@fn src/color.rs#define_colors channels_mut ctx="Pixel for Rgba < T >" ret=res
//@end
}

// ---- gray from colour: the Rec. 709 weights 0.2126, 0.7152, 0.0722; on integers the truncated weighted mean ----
//@item src/color.rs const SRGB_LUMA
//@item src/color.rs const SRGB_LUMA_DIV
pub trait Enlargeable: Primitive { spec fn lum(r: Self, g: Self, b: Self, y: Self) -> bool;
    fn vx_luma(rgb: &[Self]) -> (y: Self) requires rgb.len() >= 3 ensures Self::lum(rgb@[0], rgb@[1], rgb@[2], y); }

pub trait VxLarger: Sized { type Larger; spec fn enl(x: Self, r: Self::Larger) -> bool; fn to_larger(self) -> (r: Self::Larger) ensures Self::enl(self, r);
    spec fn lo() -> Self; spec fn hi() -> Self; fn vx_hi() -> (r: Self) ensures r == Self::hi(); fn vx_lo() -> (r: Self) ensures r == Self::lo();
    spec fn clamps(n: Self::Larger, r: Self) -> bool; fn clamp_from(n: Self::Larger) -> (r: Self) ensures Self::clamps(n, r); }
impl VxLarger for u8 { type Larger = u32; open spec fn enl(x: u8, r: u32) -> bool { r == x } open spec fn lo() -> u8 { 0 } open spec fn hi() -> u8 { 255 } fn vx_hi() -> u8 { u8::MAX } fn vx_lo() -> u8 { u8::MIN }
    open spec fn clamps(n: u32, r: u8) -> bool { r == if n > 255 { 255 } else { n as int } }
//@fn src/traits.rs to_larger ctx="trait Enlargeable" ret=res
//@ subst? `NumCast::from($A).unwrap()` => `($A as u32)`
//@end
//@fn src/traits.rs clamp_from ctx="trait Enlargeable" ret=res
//@ subst? `Self::max_value()` => `Self::vx_hi()`
//@ subst? `Self::min_value()` => `Self::vx_lo()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_u32_u8($A)`
//@end
}
impl Enlargeable for u8 { open spec fn lum(r: u8, g: u8, b: u8, y: u8) -> bool { 10000 * y <= 2126 * r + 7152 * g + 722 * b < 10000 * (y + 1) }
//@fn src/color.rs rgb_to_luma as=vx_luma ret=res
//@ sigsubst? `<T: Primitive + Enlargeable>` => ` `
//@ sigsubst? `[T]` => `[u8]`
//@ sigsubst? `-> T` => `-> u8`
//@ subst? `<T::Larger as NumCast>::from($A).unwrap()` => `(($A) as u32)`
//@ subst? `T::` => `<u8 as VxLarger>::`
//@ at body.start
    proof { vx_div_facts(); }
//@end
}
impl VxLarger for u16 { type Larger = u32; open spec fn enl(x: u16, r: u32) -> bool { r == x } open spec fn lo() -> u16 { 0 } open spec fn hi() -> u16 { 65535 } fn vx_hi() -> u16 { u16::MAX } fn vx_lo() -> u16 { u16::MIN }
    open spec fn clamps(n: u32, r: u16) -> bool { r == if n > 65535 { 65535 } else { n as int } }
//@fn src/traits.rs to_larger ctx="trait Enlargeable" ret=res
//@ subst? `NumCast::from($A).unwrap()` => `($A as u32)`
//@end
//@fn src/traits.rs clamp_from ctx="trait Enlargeable" ret=res
//@ subst? `Self::max_value()` => `Self::vx_hi()`
//@ subst? `Self::min_value()` => `Self::vx_lo()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_u32_u16($A)`
//@end
}
impl Enlargeable for u16 { open spec fn lum(r: u16, g: u16, b: u16, y: u16) -> bool { 10000 * y <= 2126 * r + 7152 * g + 722 * b < 10000 * (y + 1) }
//@fn src/color.rs rgb_to_luma as=vx_luma ret=res
//@ sigsubst? `<T: Primitive + Enlargeable>` => ` `
//@ sigsubst? `[T]` => `[u16]`
//@ sigsubst? `-> T` => `-> u16`
//@ subst? `<T::Larger as NumCast>::from($A).unwrap()` => `(($A) as u32)`
//@ subst? `T::` => `<u16 as VxLarger>::`
//@ at body.start
    proof { vx_div_facts(); }
//@end
}
pub fn vx_u32_u16(x: u32) -> (r: u16) requires x < 65536 ensures r == x { x as u16 }
pub open spec fn wide(x: f32) -> f64 { IeeeFloatCast::<f64>::ieee_cast(x) }
pub open spec fn narrow(x: f64) -> f32 { IeeeFloatCast::<f32>::ieee_cast(x) }
#[verifier::external_body] pub fn vx_f32_f64(x: f32) -> (r: f64) ensures r == wide(x) { x as f64 }
#[verifier::external_body] pub fn vx_f64_f32(x: f64) -> (r: f32) ensures r == narrow(x) { x as f32 }
#[verifier::external_body] pub fn vx_u32_f64(x: u32) -> (r: f64) ensures r == IeeeFloatCast::<f64>::ieee_cast(x) { x as f64 }
impl VxLarger for f32 { type Larger = f64; open spec fn enl(x: f32, r: f64) -> bool { r == wide(x) } open spec fn lo() -> f32 { -3.4028235e38f32 } open spec fn hi() -> f32 { 3.4028235e38f32 } fn vx_hi() -> f32 { 3.4028235e38f32 } fn vx_lo() -> f32 { -3.4028235e38f32 }
    open spec fn clamps(n: f64, r: f32) -> bool { r == if wide(3.4028235e38f32).ieee_lt(n) { 3.4028235e38f32 } else if n.ieee_lt(wide(-3.4028235e38f32)) { -3.4028235e38f32 } else { narrow(n) } }
//@fn src/traits.rs to_larger ctx="trait Enlargeable" ret=res
//@ subst? `NumCast::from($A).unwrap()` => `vx_f32_f64($A)`
//@end
//@fn src/traits.rs clamp_from ctx="trait Enlargeable" ret=res
//@ subst? `Self::max_value()` => `Self::vx_hi()`
//@ subst? `Self::min_value()` => `Self::vx_lo()`
//@ subst? `NumCast::from($A).unwrap()` => `vx_f64_f32($A)`
//@ at body.start
    broadcast use f64_ops;
//@end
}
pub open spec fn lumf(r: f32, g: f32, b: f32) -> f64 { 2126.0f64.ieee_mul(wide(r)).ieee_add(7152.0f64.ieee_mul(wide(g))).ieee_add(722.0f64.ieee_mul(wide(b))).ieee_div(10000.0f64) }
impl Enlargeable for f32 { open spec fn lum(r: f32, g: f32, b: f32, y: f32) -> bool { <f32 as VxLarger>::clamps(lumf(r, g, b), y) }
//@fn src/color.rs rgb_to_luma as=vx_luma ret=res
//@ sigsubst? `<T: Primitive + Enlargeable>` => ` `
//@ sigsubst? `[T]` => `[f32]`
//@ sigsubst? `-> T` => `-> f32`
//@ subst? `<T::Larger as NumCast>::from($A).unwrap()` => `vx_u32_f64($A)`
//@ subst? `T::` => `<f32 as VxLarger>::`
//@ at body.start
    broadcast use f64_ops;
    proof { assert(IeeeFloatCast::<f64>::ieee_cast(2126u32) == 2126.0f64) by (bit_vector); assert(IeeeFloatCast::<f64>::ieee_cast(7152u32) == 7152.0f64) by (bit_vector); assert(IeeeFloatCast::<f64>::ieee_cast(722u32) == 722.0f64) by (bit_vector); assert(IeeeFloatCast::<f64>::ieee_cast(10000u32) == 10000.0f64) by (bit_vector); }
//@end
}
// ---- conversions between the models, for every pair of sample types a conversion exists for ----
pub trait FromColor<Other>: Sized { spec fn conv(o: Other, r: Self) -> bool; fn from_color(&mut self, other: &Other) ensures Self::conv(*other, *final(self)); }
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Luma<S>> for Luma<T> { open spec fn conv(o: Luma<S>, r: Luma<T>) -> bool { T::ok(o.0@[0], r.0@[0]) }
//@fn src/color.rs from_color ctx="FromColor < Luma < S > > for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<LumaA<S>> for Luma<T> { open spec fn conv(o: LumaA<S>, r: Luma<T>) -> bool { T::ok(o.0@[0], r.0@[0]) }
//@fn src/color.rs from_color ctx="FromColor < LumaA < S > > for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Enlargeable, T: Primitive + FromPrimitive<S>> FromColor<Rgb<S>> for Luma<T> { open spec fn conv(o: Rgb<S>, r: Luma<T>) -> bool { (exists|l: S| #[trigger] S::lum(o.0@[0], o.0@[1], o.0@[2], l) && T::ok(l, r.0@[0])) }
//@fn src/color.rs from_color ctx="FromColor < Rgb < S > > for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Enlargeable, T: Primitive + FromPrimitive<S>> FromColor<Rgba<S>> for Luma<T> { open spec fn conv(o: Rgba<S>, r: Luma<T>) -> bool { (exists|l: S| #[trigger] S::lum(o.0@[0], o.0@[1], o.0@[2], l) && T::ok(l, r.0@[0])) }
//@fn src/color.rs from_color ctx="FromColor < Rgba < S > > for Luma < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Luma<S>> for LumaA<T> { open spec fn conv(o: Luma<S>, r: LumaA<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && r.0@[1] == T::top() }
//@fn src/color.rs from_color ctx="FromColor < Luma < S > > for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<LumaA<S>> for LumaA<T> { open spec fn conv(o: LumaA<S>, r: LumaA<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[1], r.0@[1]) }
//@fn src/color.rs from_color ctx="FromColor < LumaA < S > > for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Enlargeable, T: Primitive + FromPrimitive<S>> FromColor<Rgb<S>> for LumaA<T> { open spec fn conv(o: Rgb<S>, r: LumaA<T>) -> bool { (exists|l: S| #[trigger] S::lum(o.0@[0], o.0@[1], o.0@[2], l) && T::ok(l, r.0@[0])) && r.0@[1] == T::top() }
//@fn src/color.rs from_color ctx="FromColor < Rgb < S > > for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Enlargeable, T: Primitive + FromPrimitive<S>> FromColor<Rgba<S>> for LumaA<T> { open spec fn conv(o: Rgba<S>, r: LumaA<T>) -> bool { (exists|l: S| #[trigger] S::lum(o.0@[0], o.0@[1], o.0@[2], l) && T::ok(l, r.0@[0])) && T::ok(o.0@[3], r.0@[1]) }
//@fn src/color.rs from_color ctx="FromColor < Rgba < S > > for LumaA < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Luma<S>> for Rgb<T> { open spec fn conv(o: Luma<S>, r: Rgb<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[0], r.0@[1]) && T::ok(o.0@[0], r.0@[2]) }
//@fn src/color.rs from_color ctx="FromColor < Luma < S > > for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<LumaA<S>> for Rgb<T> { open spec fn conv(o: LumaA<S>, r: Rgb<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[0], r.0@[1]) && T::ok(o.0@[0], r.0@[2]) }
//@fn src/color.rs from_color ctx="FromColor < LumaA < S > > for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Rgb<S>> for Rgb<T> { open spec fn conv(o: Rgb<S>, r: Rgb<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[1], r.0@[1]) && T::ok(o.0@[2], r.0@[2]) }
//@fn src/color.rs from_color ctx="FromColor < Rgb < S > > for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Rgba<S>> for Rgb<T> { open spec fn conv(o: Rgba<S>, r: Rgb<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[1], r.0@[1]) && T::ok(o.0@[2], r.0@[2]) }
//@fn src/color.rs from_color ctx="FromColor < Rgba < S > > for Rgb < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Luma<S>> for Rgba<T> { open spec fn conv(o: Luma<S>, r: Rgba<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[0], r.0@[1]) && T::ok(o.0@[0], r.0@[2]) && r.0@[3] == T::top() }
//@fn src/color.rs from_color ctx="FromColor < Luma < S > > for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<LumaA<S>> for Rgba<T> { open spec fn conv(o: LumaA<S>, r: Rgba<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[0], r.0@[1]) && T::ok(o.0@[0], r.0@[2]) && T::ok(o.0@[1], r.0@[3]) }
//@fn src/color.rs from_color ctx="FromColor < LumaA < S > > for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Rgb<S>> for Rgba<T> { open spec fn conv(o: Rgb<S>, r: Rgba<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[1], r.0@[1]) && T::ok(o.0@[2], r.0@[2]) && r.0@[3] == T::top() }
//@fn src/color.rs from_color ctx="FromColor < Rgb < S > > for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<S: Primitive, T: Primitive + FromPrimitive<S>> FromColor<Rgba<S>> for Rgba<T> { open spec fn conv(o: Rgba<S>, r: Rgba<T>) -> bool { T::ok(o.0@[0], r.0@[0]) && T::ok(o.0@[1], r.0@[1]) && T::ok(o.0@[2], r.0@[2]) && T::ok(o.0@[3], r.0@[3]) }
//@fn src/color.rs from_color ctx="FromColor < Rgba < S > > for Rgba < T >"
//@ subst? `T::DEFAULT_MAX_VALUE` => `T::vx_max()`
//@ subst? `rgb_to_luma(` => `S::vx_luma(`
//@end
}
impl<T: Enlargeable> Luma<T> {
//@fn src/color.rs#define_colors to_rgb ctx="Pixel for Luma < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgb<T> as FromColor<Luma<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> LumaA<T> {
//@fn src/color.rs#define_colors to_rgb ctx="Pixel for LumaA < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgb<T> as FromColor<LumaA<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgb<T> {
//@fn src/color.rs#define_colors to_rgb ctx="Pixel for Rgb < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgb<T> as FromColor<Rgb<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgba<T> {
//@fn src/color.rs#define_colors to_rgb ctx="Pixel for Rgba < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgb<T> as FromColor<Rgba<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Luma<T> {
//@fn src/color.rs#define_colors to_rgba ctx="Pixel for Luma < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgba<T> as FromColor<Luma<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> LumaA<T> {
//@fn src/color.rs#define_colors to_rgba ctx="Pixel for LumaA < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgba<T> as FromColor<LumaA<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgb<T> {
//@fn src/color.rs#define_colors to_rgba ctx="Pixel for Rgb < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgba<T> as FromColor<Rgb<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgba<T> {
//@fn src/color.rs#define_colors to_rgba ctx="Pixel for Rgba < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Rgba<T> as FromColor<Rgba<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Luma<T> {
//@fn src/color.rs#define_colors to_luma ctx="Pixel for Luma < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Luma<T> as FromColor<Luma<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> LumaA<T> {
//@fn src/color.rs#define_colors to_luma ctx="Pixel for LumaA < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Luma<T> as FromColor<LumaA<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgb<T> {
//@fn src/color.rs#define_colors to_luma ctx="Pixel for Rgb < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Luma<T> as FromColor<Rgb<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgba<T> {
//@fn src/color.rs#define_colors to_luma ctx="Pixel for Rgba < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <Luma<T> as FromColor<Rgba<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Luma<T> {
//@fn src/color.rs#define_colors to_luma_alpha ctx="Pixel for Luma < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <LumaA<T> as FromColor<Luma<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> LumaA<T> {
//@fn src/color.rs#define_colors to_luma_alpha ctx="Pixel for LumaA < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <LumaA<T> as FromColor<LumaA<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgb<T> {
//@fn src/color.rs#define_colors to_luma_alpha ctx="Pixel for Rgb < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <LumaA<T> as FromColor<Rgb<T>>>::conv(*self, res),
//@end
}
impl<T: Enlargeable> Rgba<T> {
//@fn src/color.rs#define_colors to_luma_alpha ctx="Pixel for Rgba < T >" ret=res
//@ subst? `Zero::zero()` => `T::vx_zero()`
//@ spec
    ensures <LumaA<T> as FromColor<Rgba<T>>>::conv(*self, res),
//@end
}
pub trait IntoColor<Other>: Sized { spec fn into_ok(x: Self, r: Other) -> bool; fn into_color(&self) -> (r: Other) ensures <Self as IntoColor<Other>>::into_ok(*self, r); }
impl<O: Pixel + FromColor<S>, S> IntoColor<O> for S { open spec fn into_ok(x: S, r: O) -> bool { O::conv(x, r) }
//@fn src/color.rs into_color ctx="IntoColor < O > for S" ret=res
//@ subst? `Zero::zero()` => `<O::Subpixel as Primitive>::vx_zero()`
//@end
}
proof fn vx_div_facts() ensures SRGB_LUMA_DIV == 10000, forall|x: int, y: int| y == 10000 ==> #[trigger] (x / y) == x / 10000 { assert(SRGB_LUMA_DIV == 10000); }
}
fn main() {}
