// Facts about the IEEE formulas of color.vrs that take the solver minutes: thorough tier only.
use vstd::prelude::*; use vstd::float::*;
verus! {
pub open spec fn q8(x: u8) -> f32 { IeeeFloatCast::<f32>::ieee_cast(x) }
pub open spec fn q16(x: u16) -> f32 { IeeeFloatCast::<f32>::ieee_cast(x) }
// the fraction of a 16-bit sample is right to 0.002 of a unit
#[verifier::spinoff_prover] #[verifier::rlimit(6000)]
pub proof fn worth16(c: u16) ensures ({ let r = q16(c).ieee_div(65535.0f32); let e = IeeeFloatCast::<f64>::ieee_cast(r).ieee_mul(65535.0f64); let g: f64 = IeeeFloatCast::<f64>::ieee_cast(c); e.ieee_sub(g).ieee_le(0.002f64) && g.ieee_sub(e).ieee_le(0.002f64) })
{ assert(({ let r = IeeeFloatCast::<f32>::ieee_cast(c).ieee_div(65535.0f32); let e = IeeeFloatCast::<f64>::ieee_cast(r).ieee_mul(65535.0f64); let g: f64 = IeeeFloatCast::<f64>::ieee_cast(c); e.ieee_sub(g).ieee_le(0.002f64) && g.ieee_sub(e).ieee_le(0.002f64) })) by (bit_vector); }
// 16 bits to float and back is the identity
#[verifier::spinoff_prover] #[verifier::rlimit(6000)]
pub proof fn back16(c: u16) ensures ({ let f = q16(c).ieee_div(65535.0f32); f.ieee_mul(65535.0f32).ieee_round().ieee_eq(q16(c)) && !f.ieee_lt(0.0f32) && (!f.ieee_lt(1.0f32) ==> c == 65535) })
{ assert(({ let a: f32 = IeeeFloatCast::<f32>::ieee_cast(c); let f = a.ieee_div(65535.0f32); f.ieee_mul(65535.0f32).ieee_round().ieee_eq(a) && !f.ieee_lt(0.0f32) && (!f.ieee_lt(1.0f32) ==> c == 65535) })) by (bit_vector); }
// rounding to 8 bits moves a float sample by at most half a unit (up to 2e-5)
#[verifier::spinoff_prover] #[verifier::rlimit(6000)]
pub proof fn rounded8(c: f32) requires c.ieee_ge(0.0f32), c.ieee_lt(1.0f32)
    ensures ({ let e = IeeeFloatCast::<f64>::ieee_cast(c).ieee_mul(255.0f64); let g: f64 = IeeeFloatCast::<f64>::ieee_cast(c.ieee_mul(255.0f32).ieee_round()); e.ieee_sub(g).ieee_le(0.50002f64) && g.ieee_sub(e).ieee_le(0.50002f64) })
{ assert(c.ieee_ge(0.0f32) && c.ieee_lt(1.0f32) ==> ({ let e = IeeeFloatCast::<f64>::ieee_cast(c).ieee_mul(255.0f64); let g: f64 = IeeeFloatCast::<f64>::ieee_cast(c.ieee_mul(255.0f32).ieee_round()); e.ieee_sub(g).ieee_le(0.50002f64) && g.ieee_sub(e).ieee_le(0.50002f64) })) by (bit_vector); }
}
fn main() {}
