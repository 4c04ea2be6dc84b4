#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*; use vstd::float::*;
use std::cmp::{max, min};
verus! {
global size_of usize == 8;
//@include panics.vrs
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
// ---- assumed: IEEE 754 double arithmetic seen as real arithmetic followed by rounding to nearest ----
/// the real number a finite double stands for
pub uninterp spec fn fv(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
/// rounding of a real to the nearest double (exponent unbounded above; the operations below stay far from overflow)
pub uninterp spec fn rnd(x: real) -> real;
pub open spec fn ulp() -> real { 1real / 9007199254740992real }
pub axiom fn rnd_mono(x: real, y: real) requires x <= y ensures rnd(x) <= rnd(y);
/// relative error at most 2^-53 for numbers at least 2^-1022
pub axiom fn rnd_err(x: real) requires x >= 1real / 1000000000000000000000000real ensures rnd(x) - x <= x * ulp(), x - rnd(x) <= x * ulp();
#[verifier::opaque] pub open spec fn rdiv(a: real, b: real) -> real { rnd(a / b) }
#[verifier::opaque] pub open spec fn rmul(a: real, b: real) -> real { rnd(a * b) }
pub open spec fn tame(a: real) -> bool { 0real <= a && a <= 1000000000000000000000000real }
pub open spec fn trunc_sat(x: real, m: int, r: int) -> bool { if x >= (m + 1) as real { r == m } else { r as real <= x && x < (r + 1) as real } }
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_div(a: f64, b: f64, o: f64) requires #[trigger] div_ensures::<f64>(a, b, o) ensures fin(a) && fin(b) && tame(fv(a)) && 1real <= fv(b) && tame(fv(b)) ==> fin(o) && fv(o) == rdiv(fv(a), fv(b));
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures::<f64>(a, b, o) ensures fin(a) && fin(b) && tame(fv(a)) && tame(fv(b)) ==> fin(o) && fv(o) == rmul(fv(a), fv(b)) && fv(o) == rmul(fv(b), fv(a));
pub broadcast axiom fn ax_lt(a: f64, b: f64, o: bool) requires #[trigger] lt_ensures::<f64>(a, b, o) ensures fin(a) && fin(b) ==> o == (fv(a) < fv(b));
pub broadcast axiom fn ax_gt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures::<f64>(a, b, o) ensures fin(a) && fin(b) ==> o == (fv(a) > fv(b));
pub broadcast axiom fn ax_le(a: f64, b: f64, o: bool) requires #[trigger] le_ensures::<f64>(a, b, o) ensures fin(a) && fin(b) ==> o == (fv(a) <= fv(b));
pub broadcast axiom fn ax_ge(a: f64, b: f64, o: bool) requires #[trigger] ge_ensures::<f64>(a, b, o) ensures fin(a) && fin(b) ==> o == (fv(a) >= fv(b));
pub broadcast axiom fn ax_c32(a: u32, o: f64) requires #[trigger] float_cast_spec::<u32, f64>(a, o) ensures fin(o) && fv(o) == a as real;
pub broadcast axiom fn ax_to64(a: f64, o: u64) requires #[trigger] float_cast_spec::<f64, u64>(a, o) ensures fin(a) && fv(a) >= 0real ==> trunc_sat(fv(a), u64::MAX as int, o as int);
pub broadcast axiom fn ax_to32(a: f64, o: u32) requires #[trigger] float_cast_spec::<f64, u32>(a, o) ensures fin(a) && fv(a) >= 0real ==> trunc_sat(fv(a), u32::MAX as int, o as int);
pub broadcast group f64_real { ax_div_req, ax_div, ax_mul_req, ax_mul, ax_lt, ax_gt, ax_le, ax_ge, ax_c32, ax_to64, ax_to32 }
pub fn vx_f64(x: u32) -> (r: f64) ensures fin(r) && fv(r) == x as real { broadcast use f64_real; x as f64 }
pub assume_specification [f64::max] (a: f64, b: f64) -> (r: f64) ensures fin(a) && fin(b) ==> fin(r) && fv(r) == (if fv(a) >= fv(b) { fv(a) } else { fv(b) });
pub assume_specification [f64::min] (a: f64, b: f64) -> (r: f64) ensures fin(a) && fin(b) ==> fin(r) && fv(r) == (if fv(a) <= fv(b) { fv(a) } else { fv(b) });
/// the integer k nearest to x >= 0, halves upwards
pub open spec fn nearest(x: real, k: int) -> bool { k as real <= x + 0.5real && x + 0.5real < (k + 1) as real }
pub uninterp spec fn rint(x: real) -> int;
pub assume_specification [f64::round] (a: f64) -> (r: f64) ensures fin(a) && fv(a) >= 0real ==> fin(r) && fv(r) == rint(fv(a)) as real && nearest(fv(a), rint(fv(a)));
pub uninterp spec fn rceil(x: real) -> int;
pub uninterp spec fn rfloor(x: real) -> int;
pub assume_specification [f64::ceil] (a: f64) -> (r: f64) ensures fin(a) && fv(a) >= 0real ==> fin(r) && fv(r) == rceil(fv(a)) as real && fv(a) <= fv(r) && fv(r) < fv(a) + 1real;
pub assume_specification [f64::floor] (a: f64) -> (r: f64) ensures fin(a) && fv(a) >= 0real ==> fin(r) && fv(r) == rfloor(fv(a)) as real && fv(a) >= fv(r) && fv(r) > fv(a) - 1real;

// ---- lemmas: the doubles the function computes, in terms of the exact quotients
pub open spec fn lim() -> real { 4294967295real }
/// width d scaled by the ratio n:b
pub open spec fn scaled(d: real, n: real, b: real) -> real { rmul(d, rdiv(n, b)) }
pub open spec fn side(x: u32) -> bool { x >= 1 }
pub proof fn ratio_bounds(n: real, b: real)
    requires 1real <= n <= lim(), 1real <= b <= lim()
    ensures tame(rdiv(n, b)), n / b >= 1real / 4294967296real, n / b <= lim(), rdiv(n, b) - n / b <= (n / b) * ulp(), n / b - rdiv(n, b) <= (n / b) * ulp(), rdiv(n, b) >= 0real, rdiv(n, b) <= 4294967296real
{
    reveal(rdiv);
    let q = n / b;
    assert(q * b == n) by (nonlinear_arith) requires q == n / b, b >= 1real;
    assert(q >= 1real / 4294967296real) by (nonlinear_arith) requires q * b == n, n >= 1real, b <= lim(), b >= 1real;
    assert(q <= lim()) by (nonlinear_arith) requires q * b == n, n <= lim(), b >= 1real;
    rnd_err(q);
    assert(q * ulp() <= q) by (nonlinear_arith) requires q > 0real;
    assert(q * ulp() <= 1real) by (nonlinear_arith) requires q <= lim(), q > 0real;
}
/// scaled(d, n, b) is d * n / b up to a relative error of three units
pub proof fn scaled_close(d: real, n: real, b: real)
    requires 1real <= n <= lim(), 1real <= b <= lim(), 1real <= d <= lim()
    ensures d * (n / b) >= 0real, scaled(d, n, b) >= 0real, scaled(d, n, b) - d * (n / b) <= d * (n / b) * (3real * ulp()), d * (n / b) - scaled(d, n, b) <= d * (n / b) * (3real * ulp()), scaled(d, n, b) <= 18446744073709551616real * 2real, tame(rdiv(n, b)), tame(d)
{
    ratio_bounds(n, b); reveal(rmul);
    let q = n / b; let r = rdiv(n, b); let e = ulp();
    let x = d * q; let p = d * r;
    assert(p - x <= x * e && x - p <= x * e) by (nonlinear_arith) requires p == d * r, x == d * q, r - q <= q * e, q - r <= q * e, d >= 1real;
    assert(q * e <= q * 0.5real) by (nonlinear_arith) requires e == 1real / 9007199254740992real, q > 0real;
    assert(r >= q * 0.5real);
    assert(p >= 1real / 8589934592real) by (nonlinear_arith) requires p == d * r, d >= 1real, r >= q * 0.5real, q >= 1real / 4294967296real;
    rnd_err(p);
    let s = rnd(p);
    assert(x >= 0real) by (nonlinear_arith) requires x == d * q, d >= 1real, q > 0real;
    assert(x <= lim() * lim()) by (nonlinear_arith) requires x == d * q, 1real <= d <= lim(), 0real < q <= lim();
    assert(s - x <= x * (3real * e) && x - s <= x * (3real * e)) by (nonlinear_arith) requires p - x <= x * e, x - p <= x * e, s - p <= p * e, p - s <= p * e, x >= 0real, e == 1real / 9007199254740992real;
    assert(x * (3real * e) <= x) by (nonlinear_arith) requires e == 1real / 9007199254740992real, x >= 0real;
}
pub proof fn scaled_mono(d: real, n: real, b: real, m: real, c: real)
    requires 1real <= n <= lim(), 1real <= b <= lim(), 1real <= d <= lim(), 1real <= m <= lim(), 1real <= c <= lim(), rdiv(n, b) <= rdiv(m, c)
    ensures scaled(d, n, b) <= scaled(d, m, c)
{
    reveal(rmul);
    assert(d * rdiv(n, b) <= d * rdiv(m, c)) by (nonlinear_arith) requires rdiv(n, b) <= rdiv(m, c), d >= 1real;
    rnd_mono(d * rdiv(n, b), d * rdiv(m, c));
}
/// the side that is scaled to n exactly comes out within a thousandth of n
pub proof fn scaled_exact(b: real, n: real)
    requires 1real <= n <= lim(), 1real <= b <= lim()
    ensures scaled(b, n, b) - n <= 0.001real, n - scaled(b, n, b) <= 0.001real
{
    scaled_close(b, n, b);
    assert(b * (n / b) == n) by (nonlinear_arith) requires b >= 1real;
    assert(n * (3real * ulp()) <= 0.001real) by (nonlinear_arith) requires n <= lim(), ulp() == 1real / 9007199254740992real;
}
// ---- what is asked of the target size (w, h: source; nw, nh: box; r: answer)
pub open spec fn touches(n: int, r: int) -> bool { r == n || r == u32::MAX }
/// a is, within half a pixel and a margin for the rounding of doubles, the length d * r / b; or it is the least length
#[verifier::opaque] pub open spec fn ratio_kept(a: int, d: int, r: int, b: int) -> bool {
    ||| 2 * a * b - 2 * d * r <= b + b / 1000 + 1 && 2 * d * r - 2 * a * b <= b + b / 1000 + 1
    ||| a == 1 && 2 * d * r < 2 * b
}
#[verifier::opaque] pub open spec fn over(d: int, n: int, b: int) -> bool { 1000 * d * n >= (1000 * u32::MAX as int + 499) * b }
pub open spec fn target_ok(w: int, h: int, nw: int, nh: int, fill: bool, a: int, b: int) -> bool {
    &&& a >= 1 && b >= 1
    &&& !fill ==> a <= nw && b <= nh && (a == nw || b == nh)
    &&& fill && !over(w, nh, h) && !over(h, nw, w) ==> a >= nw && b >= nh && (a == nw || b == nh)
    &&& fill ==> (a >= nw && b >= nh && (a == nw || b == nh)) || (over(w, nh, h) && a == u32::MAX && b <= nh) || (over(h, nw, w) && b == u32::MAX && a <= nw)
    &&& (touches(nw, a) && ratio_kept(b, h, a, w)) || (touches(nh, b) && ratio_kept(a, w, b, h))
}
/// nearest integer to something close to d*n/b keeps the ratio
pub proof fn keeps(x: real, k: int, a: int, d: int, n: int, b: int)
    requires 1 <= d <= u32::MAX, 1 <= n <= u32::MAX, 1 <= b <= u32::MAX, nearest(x, k), a == k || (k < 1 && a == 1), x >= 0real, x <= 8589934592real,
        x - (d as real) * (n as real / b as real) <= (d as real) * (n as real / b as real) * (3real * ulp()), (d as real) * (n as real / b as real) - x <= (d as real) * (n as real / b as real) * (3real * ulp())
    ensures ratio_kept(a, d, n, b)
{
    reveal(ratio_kept);
    let bq = b as real; let y = (d as real) * (n as real / bq); let e = ulp();
    assert(y * bq == (d * n) as real) by (nonlinear_arith) requires y == (d as real) * (n as real / bq), bq == b as real, b >= 1;
    assert(y >= 0real) by (nonlinear_arith) requires y * bq == (d * n) as real, bq == b as real, b >= 1, d >= 1, n >= 1;
    assert(y <= 2real * 8589934592real) by (nonlinear_arith) requires y - x <= y * (3real * e), x <= 8589934592real, e == 1real / 9007199254740992real, y >= 0real;
    assert(y * (3real * e) <= 0.0001real) by (nonlinear_arith) requires y <= 2real * 8589934592real, e == 1real / 9007199254740992real;
    assert((k as real) - y <= 0.5001real && y - (k as real) <= 0.5001real);
    assert((k * b) as real - (d * n) as real <= 0.5001real * bq) by (nonlinear_arith) requires (k as real) - y <= 0.5001real, y * bq == (d * n) as real, bq == b as real, b >= 1;
    assert((d * n) as real - (k * b) as real <= 0.5001real * bq) by (nonlinear_arith) requires y - (k as real) <= 0.5001real, y * bq == (d * n) as real, bq == b as real, b >= 1;
    assert(10000 * (k * b) - 10000 * (d * n) <= 5001 * b);
    assert(10000 * (d * n) - 10000 * (k * b) <= 5001 * b);
    assert(2 * k * b == 2 * (k * b)) by (nonlinear_arith);
    assert(2 * d * n == 2 * (d * n)) by (nonlinear_arith);
    if k < 1 {
        assert(k * b <= 0) by (nonlinear_arith) requires k < 1, b >= 1;
        assert(2 * (d * n) < 2 * b);
    }
}
/// everything about one ratio n:b applied to both sides (b is one of them, d the other)
pub proof fn one_ratio(d: int, n: int, b: int)
    requires 1 <= d <= u32::MAX, 1 <= n <= u32::MAX, 1 <= b <= u32::MAX
    ensures
        tame(rdiv(n as real, b as real)), tame(scaled(d as real, n as real, b as real)), tame(scaled(b as real, n as real, b as real)),
        scaled(b as real, n as real, b as real) - n as real <= 0.001real, n as real - scaled(b as real, n as real, b as real) <= 0.001real,
        scaled(d as real, n as real, b as real) <= 36893488147419103232real,
        forall|k: int, a: int| #![trigger nearest(scaled(d as real, n as real, b as real), k), ratio_kept(a, d, n, b)] nearest(scaled(d as real, n as real, b as real), k) && (a == k || (k < 1 && a == 1)) && k <= u32::MAX + 1 ==> ratio_kept(a, d, n, b),
        forall|k: int| #[trigger] nearest(scaled(d as real, n as real, b as real), k) && k > u32::MAX ==> over(d, n, b),
        forall|k: int| #[trigger] nearest(scaled(d as real, n as real, b as real), k) ==> k >= 0,
{
    reveal(over);
    let (dr, nr, br) = (d as real, n as real, b as real);
    ratio_bounds(nr, br); scaled_close(dr, nr, br); scaled_close(br, nr, br); scaled_exact(br, nr);
    assert forall|k: int, a: int| #![trigger nearest(scaled(dr, nr, br), k), ratio_kept(a, d, n, b)] nearest(scaled(dr, nr, br), k) && (a == k || (k < 1 && a == 1)) && k <= u32::MAX + 1 implies ratio_kept(a, d, n, b) by { keeps(scaled(dr, nr, br), k, a, d, n, b); }
    assert forall|k: int| #[trigger] nearest(scaled(dr, nr, br), k) && k > u32::MAX implies over(d, n, b) by {
        let y = dr * (nr / br); let x = scaled(dr, nr, br);
        assert(x >= 4294967295.5real);
        assert(y * br == (d * n) as real) by (nonlinear_arith) requires y == dr * (nr / br), br == b as real, b >= 1, dr == d as real, nr == n as real;
        let e = ulp();
        assert(y >= 4294967295.4995real) by (nonlinear_arith) requires x - y <= y * (3real * e), x >= 4294967295.5real, e == 1real / 9007199254740992real;
        assert((d * n) as real >= 4294967295.4995real * br) by (nonlinear_arith) requires y * br == (d * n) as real, y >= 4294967295.4995real, br >= 1real;
        assert(1000 * (d * n) >= 4294967295499 * b);
        assert(1000 * d * n == 1000 * (d * n)) by (nonlinear_arith);
    }
}
/// what rounding the scaled side gives
pub proof fn rounded(d: int, n: int, b: int)
    requires 1 <= d <= u32::MAX, 1 <= n <= u32::MAX, 1 <= b <= u32::MAX
    ensures ({ let x = scaled(d as real, n as real, b as real); let k = rint(x);
        nearest(x, k) ==> k >= 0 && (k <= u32::MAX + 1 ==> ratio_kept(if k < 1 { 1 } else { k }, d, n, b)) && (k > u32::MAX ==> over(d, n, b)) })
{
    one_ratio(d, n, b);
    let x = scaled(d as real, n as real, b as real); let k = rint(x);
    if nearest(x, k) && k <= u32::MAX + 1 { assert(ratio_kept(if k < 1 { 1 } else { k }, d, n, b)); }
}
pub proof fn real_int(a: int, b: int) ensures (a as real <= b as real) == (a <= b) {}
pub proof fn both_ratios(w: u32, h: u32, nw: u32, nh: u32)
    requires w >= 1, h >= 1, nw >= 1, nh >= 1
    ensures ({ let (wr, hr) = (rdiv(nw as real, w as real), rdiv(nh as real, h as real));
        &&& wr <= hr ==> scaled(h as real, nw as real, w as real) <= scaled(h as real, nh as real, h as real) && scaled(w as real, nw as real, w as real) <= scaled(w as real, nh as real, h as real)
        &&& hr <= wr ==> scaled(h as real, nh as real, h as real) <= scaled(h as real, nw as real, w as real) && scaled(w as real, nh as real, h as real) <= scaled(w as real, nw as real, w as real)
    })
{
    let (dw, dh, n, m) = (w as real, h as real, nw as real, nh as real);
    if rdiv(n, dw) <= rdiv(m, dh) { scaled_mono(dh, n, dw, m, dh); scaled_mono(dw, n, dw, m, dh); } else { scaled_mono(dh, m, dh, n, dw); scaled_mono(dw, m, dh, n, dw); }
}
/// nearest is monotone
pub proof fn near_mono(x: real, y: real, j: int, k: int) requires x <= y, nearest(x, j), nearest(y, k) ensures j <= k {}
/// clamping: if d*n/b is over the limit then the other side scaled to the limit stays within the other box side
pub proof fn clamp_side(d: int, n: int, b: int, k: int)
    requires 1 <= d <= u32::MAX, 1 <= n <= u32::MAX, 1 <= b <= u32::MAX, over(d, n, b), nearest(scaled(b as real, u32::MAX as real, d as real), k)
    ensures k <= n
{
    reveal(over);
    let m = u32::MAX as int;
    let (dr, br, mr) = (d as real, b as real, m as real);
    scaled_close(br, mr, dr);
    let y = br * (mr / dr); let x = scaled(br, mr, dr); let e = ulp();
    assert(y * dr == (b * m) as real) by (nonlinear_arith) requires y == br * (mr / dr), dr == d as real, d >= 1, br == b as real, mr == m as real;
    assert(1000 * d * n == 1000 * (d * n)) by (nonlinear_arith);
    assert((1000 * m + 499) * b == 1000 * (b * m) + 499 * b) by (nonlinear_arith);
    assert(d * n >= b * m);
    assert(y <= n as real) by (nonlinear_arith) requires y * dr == (b * m) as real, d * n >= b * m, dr == d as real, d >= 1;
    assert(y * (3real * e) <= 0.001real) by (nonlinear_arith) requires y <= 4294967295real, e == 1real / 9007199254740992real;
    assert(x <= n as real + 0.001real);
}

/// the scaled side x = d*n/b, its rounding and the side that is scaled to n itself
pub open spec fn one_facts(d: int, n: int, b: int) -> bool {
    let x = scaled(d as real, n as real, b as real); let e = scaled(b as real, n as real, b as real); let k = rint(x);
    &&& tame(rdiv(n as real, b as real)) && tame(x) && tame(e) && x <= 36893488147419103232real
    &&& e - n as real <= 0.001real && n as real - e <= 0.001real
    &&& nearest(x, k) ==> k >= 0 && (k <= u32::MAX ==> ratio_kept(if k < 1 { 1 } else { k }, d, n, b)) && (k > u32::MAX ==> over(d, n, b))
}
pub open spec fn all_facts(w: int, h: int, n: int, m: int) -> bool {
    let (wr, hr) = (rdiv(n as real, w as real), rdiv(m as real, h as real));
    &&& one_facts(h, n, w) && one_facts(w, m, h) && one_facts(h, u32::MAX as int, w) && one_facts(w, u32::MAX as int, h)
    &&& wr <= hr ==> scaled(h as real, n as real, w as real) <= scaled(h as real, m as real, h as real)
    &&& hr <= wr ==> scaled(h as real, n as real, w as real) >= scaled(h as real, m as real, h as real)
    &&& hr <= wr ==> scaled(w as real, m as real, h as real) <= scaled(w as real, n as real, w as real)
    &&& wr <= hr ==> scaled(w as real, m as real, h as real) >= scaled(w as real, n as real, w as real)
    &&& ({ let x = scaled(h as real, u32::MAX as real, w as real); over(w, m, h) && nearest(x, rint(x)) ==> rint(x) <= m })
    &&& ({ let x = scaled(w as real, u32::MAX as real, h as real); over(h, n, w) && nearest(x, rint(x)) ==> rint(x) <= n })
}
pub proof fn facts(w: u32, h: u32, n: u32, m: u32)
    requires w >= 1, h >= 1, n >= 1, m >= 1
    ensures all_facts(w as int, h as int, n as int, m as int)
{
    let (W, H, N, M) = (w as int, h as int, n as int, m as int); let X = u32::MAX as int;
    one_ratio(H, N, W); rounded(H, N, W); one_ratio(W, M, H); rounded(W, M, H); one_ratio(H, X, W); rounded(H, X, W); one_ratio(W, X, H); rounded(W, X, H);
    assert(one_facts(H, N, W)); assert(one_facts(W, M, H)); assert(one_facts(H, X, W)); assert(one_facts(W, X, H));
    both_ratios(w, h, n, m);
    let x = scaled(h as real, u32::MAX as real, w as real); if over(W, M, H) && nearest(x, rint(x)) { clamp_side(W, M, H, rint(x)); }
    let x = scaled(w as real, u32::MAX as real, h as real); if over(H, N, W) && nearest(x, rint(x)) { clamp_side(H, N, W, rint(x)); }
}

//@fn src/math/utils.rs resize_dimensions ret=r vis=pub
//@ spec
    requires width >= 1, height >= 1, nwidth >= 1, nheight >= 1,
    ensures target_ok(width as int, height as int, nwidth as int, nheight as int, fill, r.0 as int, r.1 as int),
//@ subst? `f64::from($A)` => `vx_f64($A)`
//@ at body.start
    broadcast use f64_real;
    proof { facts(width, height, nwidth, nheight); }
//@end
// ---- stand-in for DynamicImage: its size; the contents are whatever resize_exact / thumbnail_exact / crop produce (crop: contract proved under C05)
pub mod imageops { use vstd::prelude::*; verus! { #[derive(Copy, Clone)] pub enum FilterType { Nearest, Triangle, CatmullRom, Gaussian, Lanczos3 } } }
pub struct DynamicImage { pub w: u32, pub h: u32, pub px: Ghost<Seq<int>> }
pub uninterp spec fn resampled(s: DynamicImage, w: u32, h: u32, f: Option<imageops::FilterType>) -> Seq<int>;
pub uninterp spec fn cropped(s: DynamicImage, x: u32, y: u32, w: u32, h: u32) -> Seq<int>;
pub open spec fn seen(m: DynamicImage) -> bool { true }
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
impl Clone for DynamicImage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl DynamicImage {
    #[verifier::external_body] pub fn width(&self) -> (r: u32) ensures r == self.w { unimplemented!() }
    #[verifier::external_body] pub fn height(&self) -> (r: u32) ensures r == self.h { unimplemented!() }
    #[verifier::external_body] pub fn dimensions(&self) -> (r: (u32, u32)) ensures r == (self.w, self.h) { unimplemented!() }
    #[verifier::external_body] pub fn resize_exact(&self, nwidth: u32, nheight: u32, filter: imageops::FilterType) -> (r: Self) ensures r.w == nwidth, r.h == nheight, r.px@ == resampled(*self, nwidth, nheight, Some(filter)), seen(r) { unimplemented!() }
    #[verifier::external_body] pub fn thumbnail_exact(&self, nwidth: u32, nheight: u32) -> (r: Self) ensures r.w == nwidth, r.h == nheight, r.px@ == resampled(*self, nwidth, nheight, None) { unimplemented!() }
    #[verifier::external_body] pub fn crop(&mut self, x: u32, y: u32, width: u32, height: u32) -> (r: Self)
        ensures r.w == least(width as int, old(self).w - least(x as int, old(self).w as int)), r.h == least(height as int, old(self).h - least(y as int, old(self).h as int)), r.px@ == cropped(*old(self), x, y, width, height) { unimplemented!() }
    #[verifier::external_body] pub fn crop_imm(&self, x: u32, y: u32, width: u32, height: u32) -> (r: Self)
        ensures r.w == least(width as int, self.w - least(x as int, self.w as int)), r.h == least(height as int, self.h - least(y as int, self.h as int)), r.px@ == cropped(*self, x, y, width, height) { unimplemented!() }

//@fn src/dynimage.rs resize ctx="impl DynamicImage" ret=r
//@ spec
    requires self.w >= 1, self.h >= 1, nwidth >= 1, nheight >= 1,
    ensures target_ok(self.w as int, self.h as int, nwidth as int, nheight as int, false, r.w as int, r.h as int),
        r == *self && r.w == nwidth && r.h == nheight || r.px@ == resampled(*self, r.w, r.h, Some(filter)),
//@ at body.start
    proof { self_fit(self.w as int, self.h as int); }
//@end
//@fn src/dynimage.rs thumbnail ctx="impl DynamicImage" ret=r
//@ spec
    requires self.w >= 1, self.h >= 1, nwidth >= 1, nheight >= 1,
    ensures target_ok(self.w as int, self.h as int, nwidth as int, nheight as int, false, r.w as int, r.h as int), r.px@ == resampled(*self, r.w, r.h, None),
//@end
//@fn src/dynimage.rs resize_to_fill ctx="impl DynamicImage" ret=r
//@ spec
    requires self.w >= 1, self.h >= 1, nwidth >= 1, nheight >= 1,
    ensures r.w <= nwidth && r.h <= nheight, !over(self.w as int, nheight as int, self.h as int) && !over(self.h as int, nwidth as int, self.w as int) ==> r.w == nwidth && r.h == nheight,
        exists|m: DynamicImage| #[trigger] seen(m) && filled(*self, m, nwidth, nheight, filter, r),
//@ at body.start
    let ghost VW = self.w; let ghost VH = self.h;
//@ at after? `let (iwidth, iheight) = intermediate.dimensions();`
    proof { prod_fits(iwidth, nheight); prod_fits(nwidth, iheight); fill_cross(iwidth as int, iheight as int, nwidth as int, nheight as int); }
    let ghost im = intermediate;
//@end
}
/// an image fits its own size
pub proof fn self_fit(w: int, h: int) requires w >= 1, h >= 1, w <= u32::MAX, h <= u32::MAX ensures target_ok(w, h, w, h, false, w, h) { reveal(ratio_kept); assert(2 * h * w == 2 * (h * w)) by (nonlinear_arith); assert(2 * w * h == 2 * (h * w)) by (nonlinear_arith); }
pub proof fn prod_fits(a: u32, b: u32) ensures 0 <= a * b <= u64::MAX { assert(0 <= a * b <= 4294967295 * 4294967295) by (nonlinear_arith) requires 0 <= a <= 4294967295, 0 <= b <= 4294967295; }
pub proof fn fill_cross(iw: int, ih: int, nw: int, nh: int)
    requires 0 <= iw <= u32::MAX, 0 <= ih <= u32::MAX, 0 <= nw <= u32::MAX, 0 <= nh <= u32::MAX
    ensures nw * ih > iw * nh && nw <= iw ==> ih >= nh, nw * ih <= iw * nh && nh <= ih && ih >= 1 ==> iw >= nw,
        nw == iw && nw >= 1 ==> (nw * ih > iw * nh) == (ih > nh), nh == ih && nh >= 1 ==> (nw * ih > iw * nh) == (nw > iw)
{
    if nw * ih > iw * nh && nw <= iw && ih < nh { assert(nw * ih <= iw * nh) by (nonlinear_arith) requires nw <= iw, ih < nh, nw >= 0, ih >= 0; }
    if nw * ih <= iw * nh && nh <= ih && ih >= 1 && iw < nw { assert(nw * ih > iw * nh) by (nonlinear_arith) requires iw < nw, nh <= ih, ih >= 1, iw >= 0, nh >= 0; }
    if nw == iw && nw >= 1 { assert((nw * ih > iw * nh) == (ih > nh)) by (nonlinear_arith) requires nw == iw, nw >= 1; }
    if nh == ih && nh >= 1 { assert((nw * ih > iw * nh) == (nw > iw)) by (nonlinear_arith) requires nh == ih, nh >= 1; }
}
/// the answer of resize_to_fill: the middle of the image scaled to cover the box
pub open spec fn filled(s: DynamicImage, m: DynamicImage, nw: u32, nh: u32, f: imageops::FilterType, r: DynamicImage) -> bool {
    &&& target_ok(s.w as int, s.h as int, nw as int, nh as int, true, m.w as int, m.h as int) && m.px@ == resampled(s, m.w, m.h, Some(f))
    &&& m.w >= nw && m.h >= nh ==> (m.w == nw || m.h == nh) && r.px@ == cropped(m, ((m.w - nw) / 2) as u32, ((m.h - nh) / 2) as u32, nw, nh)
}
fn main() {}
}
