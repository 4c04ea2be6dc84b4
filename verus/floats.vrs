use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*; use vstd::float::*;
// ---- assumed: Rust's f32/f64 operators are the IEEE 754 operations (round to nearest, ties to even); the SMT theory of floats decides facts about them
pub broadcast axiom fn ax_mul_req(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_mul(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures::<f32>(a, b, o) ensures o == a.ieee_mul(b);
pub broadcast axiom fn ax_div_req(a: f32, b: f32) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_div(a: f32, b: f32, o: f32) requires #[trigger] div_ensures::<f32>(a, b, o) ensures o == a.ieee_div(b);
pub broadcast axiom fn ax_add_req(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_add(a: f32, b: f32, o: f32) requires #[trigger] add_ensures::<f32>(a, b, o) ensures o == a.ieee_add(b);
pub broadcast axiom fn ax_sub_req(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_sub(a: f32, b: f32, o: f32) requires #[trigger] sub_ensures::<f32>(a, b, o) ensures o == a.ieee_sub(b);
pub broadcast axiom fn ax_lt(a: f32, b: f32, o: bool) requires #[trigger] lt_ensures::<f32>(a, b, o) ensures o == a.ieee_lt(b);
pub broadcast axiom fn ax_le(a: f32, b: f32, o: bool) requires #[trigger] le_ensures::<f32>(a, b, o) ensures o == a.ieee_le(b);
pub broadcast axiom fn ax_gt(a: f32, b: f32, o: bool) requires #[trigger] gt_ensures::<f32>(a, b, o) ensures o == b.ieee_lt(a);
pub broadcast axiom fn ax_ge(a: f32, b: f32, o: bool) requires #[trigger] ge_ensures::<f32>(a, b, o) ensures o == b.ieee_le(a);
pub broadcast axiom fn ax_eq(a: f32, b: f32, o: bool) requires #[trigger] eq_ensures::<f32>(a, b, o) ensures o == a.ieee_eq(b);
pub broadcast axiom fn ax_c_u8(a: u8, b: f32) requires #[trigger] float_cast_spec::<u8, f32>(a, b) ensures b == IeeeFloatCast::<f32>::ieee_cast(a);
pub broadcast axiom fn ax_c_u16(a: u16, b: f32) requires #[trigger] float_cast_spec::<u16, f32>(a, b) ensures b == IeeeFloatCast::<f32>::ieee_cast(a);
pub broadcast axiom fn ax_c_u32(a: u32, b: f32) requires #[trigger] float_cast_spec::<u32, f32>(a, b) ensures b == IeeeFloatCast::<f32>::ieee_cast(a);
pub broadcast group f32_ops { ax_mul_req, ax_mul, ax_div_req, ax_div, ax_add_req, ax_add, ax_sub_req, ax_sub, ax_lt, ax_le, ax_gt, ax_ge, ax_eq, ax_c_u8, ax_c_u16, ax_c_u32 }
pub broadcast axiom fn ad_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ad_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures::<f64>(a, b, o) ensures o == a.ieee_mul(b);
pub broadcast axiom fn ad_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ad_div(a: f64, b: f64, o: f64) requires #[trigger] div_ensures::<f64>(a, b, o) ensures o == a.ieee_div(b);
pub broadcast axiom fn ad_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ad_add(a: f64, b: f64, o: f64) requires #[trigger] add_ensures::<f64>(a, b, o) ensures o == a.ieee_add(b);
pub broadcast axiom fn ad_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ad_sub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures::<f64>(a, b, o) ensures o == a.ieee_sub(b);
pub broadcast axiom fn ad_lt(a: f64, b: f64, o: bool) requires #[trigger] lt_ensures::<f64>(a, b, o) ensures o == a.ieee_lt(b);
pub broadcast axiom fn ad_gt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures::<f64>(a, b, o) ensures o == b.ieee_lt(a);
pub broadcast group f64_ops { ad_mul_req, ad_mul, ad_div_req, ad_div, ad_add_req, ad_add, ad_sub_req, ad_sub, ad_lt, ad_gt }
// documented behaviour of core's f32 functions; of two equal zeros max may return either
pub assume_specification [f32::max] (a: f32, b: f32) -> (r: f32)
    ensures a.ieee_is_nan() ==> r == b, !a.ieee_is_nan() && b.ieee_is_nan() ==> r == a, !a.ieee_is_nan() && !b.ieee_is_nan() ==> (r == a || r == b) && a.ieee_le(r) && b.ieee_le(r);
pub assume_specification [f32::min] (a: f32, b: f32) -> (r: f32)
    ensures a.ieee_is_nan() ==> r == b, !a.ieee_is_nan() && b.ieee_is_nan() ==> r == a, !a.ieee_is_nan() && !b.ieee_is_nan() ==> (r == a || r == b) && r.ieee_le(a) && r.ieee_le(b);
pub assume_specification [f32::clamp] (a: f32, lo: f32, hi: f32) -> (r: f32) requires lo.ieee_le(hi) ensures r == if a.ieee_lt(lo) { lo } else if hi.ieee_lt(a) { hi } else { a };
pub assume_specification [f32::round] (a: f32) -> (r: f32) ensures r == a.ieee_round();
