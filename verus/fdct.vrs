#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
// ---- the eight-point transform of Annex A.3.3, scaled by the square root of eight, in millionths ----
// 10^6 * sqrt(2) * cos(m * pi / 16), rounded, from its values in the first quadrant and the symmetries of the cosine
pub open spec fn cm(m: int) -> int decreases m {
    if m == 0 { 1414214 } else if m == 1 { 1387040 } else if m == 2 { 1306563 } else if m == 3 { 1175876 } else if m == 4 { 1000000 } else if m == 5 { 785695 } else if m == 6 { 541196 } else if m == 7 { 275899 } else if m == 8 { 0 }
    else if m > 32 { cm(m - 32) } else if m > 16 { cm(32 - m) } else if m > 8 { -cm(16 - m) } else { 0 }
}
#[verifier::opaque]
pub open spec fn dct8(k: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int {
    if k == 0 { 1000000 * (a + b + c + d + e + f + g + h) }
    else { cm(k) * a + cm(3 * k) * b + cm(5 * k) * c + cm(7 * k) * d + cm(9 * k) * e + cm(11 * k) * f + cm(13 * k) * g + cm(15 * k) * h }
}
proof fn lemma_dct8(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) ensures
    dct8(0, a, b, c, d, e, f, g, h) == 1000000 * a + 1000000 * b + 1000000 * c + 1000000 * d + 1000000 * e + 1000000 * f + 1000000 * g + 1000000 * h,
    dct8(1, a, b, c, d, e, f, g, h) == (1387040) * a + (1175876) * b + (785695) * c + (275899) * d + (-275899) * e + (-785695) * f + (-1175876) * g + (-1387040) * h,
    dct8(2, a, b, c, d, e, f, g, h) == (1306563) * a + (541196) * b + (-541196) * c + (-1306563) * d + (-1306563) * e + (-541196) * f + (541196) * g + (1306563) * h,
    dct8(3, a, b, c, d, e, f, g, h) == (1175876) * a + (-275899) * b + (-1387040) * c + (-785695) * d + (785695) * e + (1387040) * f + (275899) * g + (-1175876) * h,
    dct8(4, a, b, c, d, e, f, g, h) == (1000000) * a + (-1000000) * b + (-1000000) * c + (1000000) * d + (1000000) * e + (-1000000) * f + (-1000000) * g + (1000000) * h,
    dct8(5, a, b, c, d, e, f, g, h) == (785695) * a + (-1387040) * b + (275899) * c + (1175876) * d + (-1175876) * e + (-275899) * f + (1387040) * g + (-785695) * h,
    dct8(6, a, b, c, d, e, f, g, h) == (541196) * a + (-1306563) * b + (1306563) * c + (-541196) * d + (-541196) * e + (1306563) * f + (-1306563) * g + (541196) * h,
    dct8(7, a, b, c, d, e, f, g, h) == (275899) * a + (-785695) * b + (1175876) * c + (-1387040) * d + (1387040) * e + (-1175876) * f + (785695) * g + (-275899) * h
{ reveal(dct8); assert(cm(1) == (1387040) && cm(3) == (1175876) && cm(5) == (785695) && cm(7) == (275899) && cm(9) == (-275899) && cm(11) == (-785695) && cm(13) == (-1175876) && cm(15) == (-1387040)) by (compute_only);
  assert(cm(2) == (1306563) && cm(6) == (541196) && cm(10) == (-541196) && cm(14) == (-1306563) && cm(18) == (-1306563) && cm(22) == (-541196) && cm(26) == (541196) && cm(30) == (1306563)) by (compute_only);
  assert(cm(3) == (1175876) && cm(9) == (-275899) && cm(15) == (-1387040) && cm(21) == (-785695) && cm(27) == (785695) && cm(33) == (1387040) && cm(39) == (275899) && cm(45) == (-1175876)) by (compute_only);
  assert(cm(4) == (1000000) && cm(12) == (-1000000) && cm(20) == (-1000000) && cm(28) == (1000000) && cm(36) == (1000000) && cm(44) == (-1000000) && cm(52) == (-1000000) && cm(60) == (1000000)) by (compute_only);
  assert(cm(5) == (785695) && cm(15) == (-1387040) && cm(25) == (275899) && cm(35) == (1175876) && cm(45) == (-1175876) && cm(55) == (-275899) && cm(65) == (1387040) && cm(75) == (-785695)) by (compute_only);
  assert(cm(6) == (541196) && cm(18) == (-1306563) && cm(30) == (1306563) && cm(42) == (-541196) && cm(54) == (-541196) && cm(66) == (1306563) && cm(78) == (-1306563) && cm(90) == (541196)) by (compute_only);
  assert(cm(7) == (275899) && cm(21) == (-785695) && cm(35) == (1175876) && cm(49) == (-1387040) && cm(63) == (1387040) && cm(77) == (-1175876) && cm(91) == (785695) && cm(105) == (-275899)) by (compute_only); }
pub open spec fn tol(k: int) -> int { if k == 0 || k == 4 { 0 } else { 1000000 } }
// row y of the first pass: four times the transform of the shifted samples, to the nearest integer or so
pub open spec fn row_ok(s: Seq<u8>, p: Seq<i32>, y: int, k: int) -> bool {
    let i = 8 * y; -tol(k) <= 1000000 * p[i + k] - 4 * dct8(k, s[i] - 128, s[i + 1] - 128, s[i + 2] - 128, s[i + 3] - 128, s[i + 4] - 128, s[i + 5] - 128, s[i + 6] - 128, s[i + 7] - 128) <= tol(k)
}
pub open spec fn rows_ok(s: Seq<u8>, p: Seq<i32>, y: int) -> bool { row_ok(s, p, y, 0) && row_ok(s, p, y, 1) && row_ok(s, p, y, 2) && row_ok(s, p, y, 3) && row_ok(s, p, y, 4) && row_ok(s, p, y, 5) && row_ok(s, p, y, 6) && row_ok(s, p, y, 7) }
pub open spec fn tol2(k: int) -> int { if k == 0 || k == 4 { 2000000 } else { 8000000 } }
// column x of the second pass: a quarter of the transform of the column
pub open spec fn col_ok(p: Seq<i32>, o: Seq<i32>, x: int, k: int) -> bool {
    -tol2(k) <= 4000000 * o[8 * k + x] - dct8(k, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int) <= tol2(k)
}
pub open spec fn cols_ok(p: Seq<i32>, o: Seq<i32>, x: int) -> bool { col_ok(p, o, x, 0) && col_ok(p, o, x, 1) && col_ok(p, o, x, 2) && col_ok(p, o, x, 3) && col_ok(p, o, x, 4) && col_ok(p, o, x, 5) && col_ok(p, o, x, 6) && col_ok(p, o, x, 7) }
pub open spec fn p_range(p: Seq<i32>, y: int) -> bool { forall|k: int| 0 <= k < 8 ==> -4096 <= #[trigger] p[8 * y + k] <= (if k == 0 { 4064 } else { 4081int }) && (k > 0 ==> -4081 <= p[8 * y + k]) }
pub open spec fn pr(p: int, k: int) -> bool { if k == 0 { -4096 <= p <= 4064 } else { -4081 <= p <= 4081 } }
pub open spec fn or(o: int, k: int) -> bool { (if k == 0 { -8192int } else { -8191 }) <= o <= 8191 }
pub open spec fn is_fdct(s: Seq<u8>, o: Seq<i32>) -> bool {
    exists|p: Seq<i32>| #[trigger] p.len() == 64 && (forall|y: int| 0 <= y < 8 ==> #[trigger] rows_ok(s, p, y)) && (forall|x: int| 0 <= x < 8 ==> #[trigger] cols_ok(p, o, x))
}
proof fn lemma_shifts() ensures
    1i32 << 10usize == 1024, 1i32 << 14usize == 16384, 1i32 << 1usize == 2,
    forall|x: i32| -10000 <= x <= 10000 ==> #[trigger] (x << 2usize) == x * 4, forall|x: i32| #[trigger] (x >> 2usize) == x as int / 4, forall|x: i32| #[trigger] (x >> 11usize) == x as int / 2048, forall|x: i32| #[trigger] (x >> 15usize) == x as int / 32768,
{
    assert(1i32 << 10usize == 1024 && 1i32 << 14usize == 16384 && 1i32 << 1usize == 2) by (bit_vector);
    assert forall|x: i32| -10000 <= x <= 10000 implies #[trigger] (x << 2usize) == x * 4 by { assert(-10000 <= x <= 10000 ==> x << 2usize == x * 4) by (bit_vector); }
    assert forall|x: i32| #[trigger] (x >> 2usize) == x as int / 4 by { assert(x >> 2usize == if x >= 0 { x / 4 } else { -((-(x + 1)) / 4) - 1 }) by (bit_vector); }
    assert forall|x: i32| #[trigger] (x >> 11usize) == x as int / 2048 by { assert(x >> 11usize == if x >= 0 { x / 2048 } else { -((-(x + 1)) / 2048) - 1 }) by (bit_vector); }
    assert forall|x: i32| #[trigger] (x >> 15usize) == x as int / 32768 by { assert(x >> 15usize == if x >= 0 { x / 32768 } else { -((-(x + 1)) / 32768) - 1 }) by (bit_vector); }
}
#[verifier::opaque]
pub open spec fn r0(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { (a + b + c + d + e + f + g + h) * 4 }
#[verifier::opaque]
pub open spec fn q0(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { (a + b + c + d + e + f + g + h + 2) / 4 }
proof fn lemma_r0(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(0) <= 1000000 * r0(a, b, c, d, e, f, g, h) - 4 * dct8(0, a, b, c, d, e, f, g, h) <= tol(0), pr(r0(a, b, c, d, e, f, g, h), 0)
{ reveal(r0); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q0(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(0) <= 4000000 * q0(a, b, c, d, e, f, g, h) - dct8(0, a, b, c, d, e, f, g, h) <= tol2(0), or(q0(a, b, c, d, e, f, g, h), 8 * 0 + x)
{ reveal(q0); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r1(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((a - h) * 12299 + (a - h + d - e) * (-7373) + (a - h + c - f) * (-3196) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 2048 }
#[verifier::opaque]
pub open spec fn q1(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((a - h) * 12299 + (a - h + d - e) * (-7373) + (a - h + c - f) * (-3196) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 32768 }
proof fn lemma_r1(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(1) <= 1000000 * r1(a, b, c, d, e, f, g, h) - 4 * dct8(1, a, b, c, d, e, f, g, h) <= tol(1), pr(r1(a, b, c, d, e, f, g, h), 1)
{ reveal(r1); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q1(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(1) <= 4000000 * q1(a, b, c, d, e, f, g, h) - dct8(1, a, b, c, d, e, f, g, h) <= tol2(1), or(q1(a, b, c, d, e, f, g, h), 8 * 1 + x)
{ reveal(q1); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r2(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((a + h - d - e + b + g - c - f) * 4433 + 1024 + (a + h - d - e) * 6270) / 2048 }
#[verifier::opaque]
pub open spec fn q2(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((a + h - d - e + b + g - c - f) * 4433 + 16384 + (a + h - d - e) * 6270) / 32768 }
proof fn lemma_r2(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(2) <= 1000000 * r2(a, b, c, d, e, f, g, h) - 4 * dct8(2, a, b, c, d, e, f, g, h) <= tol(2), pr(r2(a, b, c, d, e, f, g, h), 2)
{ reveal(r2); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q2(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(2) <= 4000000 * q2(a, b, c, d, e, f, g, h) - dct8(2, a, b, c, d, e, f, g, h) <= tol2(2), or(q2(a, b, c, d, e, f, g, h), 8 * 2 + x)
{ reveal(q2); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r3(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((b - g) * 25172 + (b - g + c - f) * (-20995) + (b - g + d - e) * (-16069) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 2048 }
#[verifier::opaque]
pub open spec fn q3(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((b - g) * 25172 + (b - g + c - f) * (-20995) + (b - g + d - e) * (-16069) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 32768 }
proof fn lemma_r3(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(3) <= 1000000 * r3(a, b, c, d, e, f, g, h) - 4 * dct8(3, a, b, c, d, e, f, g, h) <= tol(3), pr(r3(a, b, c, d, e, f, g, h), 3)
{ reveal(r3); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q3(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(3) <= 4000000 * q3(a, b, c, d, e, f, g, h) - dct8(3, a, b, c, d, e, f, g, h) <= tol2(3), or(q3(a, b, c, d, e, f, g, h), 8 * 3 + x)
{ reveal(q3); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r4(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { (a + h + d + e - b - g - c - f) * 4 }
#[verifier::opaque]
pub open spec fn q4(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { (a + h + d + e + 2 - b - g - c - f) / 4 }
proof fn lemma_r4(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(4) <= 1000000 * r4(a, b, c, d, e, f, g, h) - 4 * dct8(4, a, b, c, d, e, f, g, h) <= tol(4), pr(r4(a, b, c, d, e, f, g, h), 4)
{ reveal(r4); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q4(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(4) <= 4000000 * q4(a, b, c, d, e, f, g, h) - dct8(4, a, b, c, d, e, f, g, h) <= tol2(4), or(q4(a, b, c, d, e, f, g, h), 8 * 4 + x)
{ reveal(q4); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r5(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((c - f) * 16819 + (b - g + c - f) * (-20995) + (a - h + c - f) * (-3196) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 2048 }
#[verifier::opaque]
pub open spec fn q5(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((c - f) * 16819 + (b - g + c - f) * (-20995) + (a - h + c - f) * (-3196) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 32768 }
proof fn lemma_r5(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(5) <= 1000000 * r5(a, b, c, d, e, f, g, h) - 4 * dct8(5, a, b, c, d, e, f, g, h) <= tol(5), pr(r5(a, b, c, d, e, f, g, h), 5)
{ reveal(r5); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q5(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(5) <= 4000000 * q5(a, b, c, d, e, f, g, h) - dct8(5, a, b, c, d, e, f, g, h) <= tol2(5), or(q5(a, b, c, d, e, f, g, h), 8 * 5 + x)
{ reveal(q5); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r6(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((a + h - d - e + b + g - c - f) * 4433 + 1024 - (b + g - c - f) * 15137) / 2048 }
#[verifier::opaque]
pub open spec fn q6(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((a + h - d - e + b + g - c - f) * 4433 + 16384 - (b + g - c - f) * 15137) / 32768 }
proof fn lemma_r6(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(6) <= 1000000 * r6(a, b, c, d, e, f, g, h) - 4 * dct8(6, a, b, c, d, e, f, g, h) <= tol(6), pr(r6(a, b, c, d, e, f, g, h), 6)
{ reveal(r6); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q6(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(6) <= 4000000 * q6(a, b, c, d, e, f, g, h) - dct8(6, a, b, c, d, e, f, g, h) <= tol2(6), or(q6(a, b, c, d, e, f, g, h), 8 * 6 + x)
{ reveal(q6); lemma_dct8(a, b, c, d, e, f, g, h); }
#[verifier::opaque]
pub open spec fn r7(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((d - e) * 2446 + (a - h + d - e) * (-7373) + (b - g + d - e) * (-16069) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 2048 }
#[verifier::opaque]
pub open spec fn q7(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int) -> int { ((d - e) * 2446 + (a - h + d - e) * (-7373) + (b - g + d - e) * (-16069) + (a - h + b - g + c - f + d - e) * 9633 + 1024) / 32768 }
proof fn lemma_r7(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires -128 <= a <= 127 && -128 <= b <= 127 && -128 <= c <= 127 && -128 <= d <= 127 && -128 <= e <= 127 && -128 <= f <= 127 && -128 <= g <= 127 && -128 <= h <= 127
    ensures -tol(7) <= 1000000 * r7(a, b, c, d, e, f, g, h) - 4 * dct8(7, a, b, c, d, e, f, g, h) <= tol(7), pr(r7(a, b, c, d, e, f, g, h), 7)
{ reveal(r7); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_q7(x: int, a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int)
    requires 0 <= x < 8, pr(a, x) && pr(b, x) && pr(c, x) && pr(d, x) && pr(e, x) && pr(f, x) && pr(g, x) && pr(h, x)
    ensures -tol2(7) <= 4000000 * q7(a, b, c, d, e, f, g, h) - dct8(7, a, b, c, d, e, f, g, h) <= tol2(7), or(q7(a, b, c, d, e, f, g, h), 8 * 7 + x)
{ reveal(q7); lemma_dct8(a, b, c, d, e, f, g, h); }
proof fn lemma_row_done(s: Seq<u8>, c0: Seq<i32>, c: Seq<i32>, y: int)
    requires 0 <= y < 8, s.len() == 64, c0.len() == 64, c.len() == 64, forall|q: int| 0 <= q < 8 * y ==> #[trigger] c[q] == c0[q], forall|r: int| 0 <= r < y ==> #[trigger] rows_ok(s, c0, r), forall|i: int| 0 <= i < 8 * y ==> #[trigger] pr(c0[i] as int, i % 8),
        c[8 * y + 0] == r0(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 1] == r1(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 2] == r2(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 3] == r3(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 4] == r4(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 5] == r5(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 6] == r6(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128), c[8 * y + 7] == r7(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128),
    ensures forall|r: int| 0 <= r < y + 1 ==> #[trigger] rows_ok(s, c, r), forall|i: int| 0 <= i < 8 * (y + 1) ==> #[trigger] pr(c[i] as int, i % 8),
{
    lemma_r0(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r1(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r2(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r3(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r4(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r5(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r6(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128); lemma_r7(s[8 * y] - 128, s[8 * y + 1] - 128, s[8 * y + 2] - 128, s[8 * y + 3] - 128, s[8 * y + 4] - 128, s[8 * y + 5] - 128, s[8 * y + 6] - 128, s[8 * y + 7] - 128);
    assert(rows_ok(s, c, y));
    assert forall|r: int| 0 <= r < y + 1 implies #[trigger] rows_ok(s, c, r) by { if r < y { assert(rows_ok(s, c0, r)); let i = 8 * r; assert(c[i] == c0[i] && c[i + 1] == c0[i + 1] && c[i + 2] == c0[i + 2] && c[i + 3] == c0[i + 3] && c[i + 4] == c0[i + 4] && c[i + 5] == c0[i + 5] && c[i + 6] == c0[i + 6] && c[i + 7] == c0[i + 7]); } }
    assert forall|q: int| 0 <= q < 8 * (y + 1) implies #[trigger] pr(c[q] as int, q % 8) by { if q < 8 * y { assert(c[q] == c0[q]); assert(pr(c0[q] as int, q % 8)); } else { assert(q % 8 == q - 8 * y); } }
}
proof fn lemma_col_done(p: Seq<i32>, c0: Seq<i32>, c: Seq<i32>, x: int)
    requires 0 <= x < 8, p.len() == 64, c0.len() == 64, c.len() == 64, c == c0.update(x + 0, c[x + 0]).update(x + 8, c[x + 8]).update(x + 16, c[x + 16]).update(x + 24, c[x + 24]).update(x + 32, c[x + 32]).update(x + 40, c[x + 40]).update(x + 48, c[x + 48]).update(x + 56, c[x + 56]),
        forall|i: int| 0 <= i < 64 ==> #[trigger] pr(p[i] as int, i % 8), forall|i: int| 0 <= i < 64 && i % 8 < x ==> #[trigger] c0[i] == p[i], forall|z: int| x < z < 8 ==> #[trigger] cols_ok(p, c0, z), forall|i: int| 0 <= i < 64 && i % 8 > x ==> #[trigger] or(c0[i] as int, i),
        c[0 + x] == q0(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[8 + x] == q1(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[16 + x] == q2(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[24 + x] == q3(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[32 + x] == q4(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[40 + x] == q5(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[48 + x] == q6(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int), c[56 + x] == q7(p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int),
    ensures forall|i: int| 0 <= i < 64 && i % 8 < x ==> #[trigger] c[i] == p[i], forall|z: int| x <= z < 8 ==> #[trigger] cols_ok(p, c, z), forall|i: int| 0 <= i < 64 && i % 8 >= x ==> #[trigger] or(c[i] as int, i),
{
    assert forall|i: int| 0 <= i < 64 && i % 8 != x implies #[trigger] c[i] == c0[i] by { assert(i != x + 0); assert(i != x + 8); assert(i != x + 16); assert(i != x + 24); assert(i != x + 32); assert(i != x + 40); assert(i != x + 48); assert(i != x + 56); }
    assert(pr(p[0 + x] as int, x)) by { assert((0 + x) % 8 == x); assert(pr(p[0 + x] as int, (0 + x) % 8)); } assert(pr(p[8 + x] as int, x)) by { assert((8 + x) % 8 == x); assert(pr(p[8 + x] as int, (8 + x) % 8)); } assert(pr(p[16 + x] as int, x)) by { assert((16 + x) % 8 == x); assert(pr(p[16 + x] as int, (16 + x) % 8)); } assert(pr(p[24 + x] as int, x)) by { assert((24 + x) % 8 == x); assert(pr(p[24 + x] as int, (24 + x) % 8)); } assert(pr(p[32 + x] as int, x)) by { assert((32 + x) % 8 == x); assert(pr(p[32 + x] as int, (32 + x) % 8)); } assert(pr(p[40 + x] as int, x)) by { assert((40 + x) % 8 == x); assert(pr(p[40 + x] as int, (40 + x) % 8)); } assert(pr(p[48 + x] as int, x)) by { assert((48 + x) % 8 == x); assert(pr(p[48 + x] as int, (48 + x) % 8)); } assert(pr(p[56 + x] as int, x)) by { assert((56 + x) % 8 == x); assert(pr(p[56 + x] as int, (56 + x) % 8)); }
    lemma_q0(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q1(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q2(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q3(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q4(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q5(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q6(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int); lemma_q7(x, p[x] as int, p[8 + x] as int, p[16 + x] as int, p[24 + x] as int, p[32 + x] as int, p[40 + x] as int, p[48 + x] as int, p[56 + x] as int);
    assert(cols_ok(p, c, x));
    assert forall|z: int| x <= z < 8 implies #[trigger] cols_ok(p, c, z) by { if z > x { assert(cols_ok(p, c0, z)); assert(c[0 + z] == c0[0 + z]) by { assert((0 + z) % 8 == z); } assert(c[8 + z] == c0[8 + z]) by { assert((8 + z) % 8 == z); } assert(c[16 + z] == c0[16 + z]) by { assert((16 + z) % 8 == z); } assert(c[24 + z] == c0[24 + z]) by { assert((24 + z) % 8 == z); } assert(c[32 + z] == c0[32 + z]) by { assert((32 + z) % 8 == z); } assert(c[40 + z] == c0[40 + z]) by { assert((40 + z) % 8 == z); } assert(c[48 + z] == c0[48 + z]) by { assert((48 + z) % 8 == z); } assert(c[56 + z] == c0[56 + z]) by { assert((56 + z) % 8 == z); } } }
    assert forall|i: int| 0 <= i < 64 && i % 8 < x implies #[trigger] c[i] == p[i] by { assert(c[i] == c0[i]); }
    assert forall|i: int| 0 <= i < 64 && i % 8 >= x implies #[trigger] or(c[i] as int, i) by { if i % 8 > x { assert(c[i] == c0[i]); assert(or(c0[i] as int, i)); } else { assert(i == 8 * (i / 8) + x); } }
}
//@fn src/codecs/jpeg/transform.rs fdct vis=pub
//@ panics forbid
//@ subst? `for $X in (0usize..8).rev() {$A}` => `let mut vxn: usize = 8; while vxn > 0 { vxn = vxn - 1; let $X = vxn; $A }`
//@ subst? `i32::from($A)` => `($A as i32)`
//@ inline
//@ attrs
#[verifier::loop_isolation(true)]
#[verifier::rlimit(120)]
//@ spec
    ensures is_fdct($n0@, final($n1)@), forall|i: int| 0 <= i < 64 ==> or(#[trigger] final($n1)[i] as int, i),
//@ at body.start
    let ghost s = $n0@;
    proof { lemma_shifts(); }
//@ loop 0 for
    invariant s == $n0@,
        1i32 << 10usize == 1024, forall|x: i32| -10000 <= x <= 10000 ==> #[trigger] (x << 2usize) == x * 4, forall|x: i32| #[trigger] (x >> 11usize) == x as int / 2048,
        forall|r: int| 0 <= r < $v0 ==> #[trigger] rows_ok(s, coeffs@, r), forall|i: int| 0 <= i < 8 * $v0 ==> #[trigger] pr(coeffs[i] as int, i % 8),
//@ at loop0.start
    let ghost c0 = coeffs@;
    let ghost (a, b, c, d, e, f, g, h) =  (s[8 * $v0] - 128, s[8 * $v0 + 1] - 128, s[8 * $v0 + 2] - 128, s[8 * $v0 + 3] - 128, s[8 * $v0 + 4] - 128, s[8 * $v0 + 5] - 128, s[8 * $v0 + 6] - 128, s[8 * $v0 + 7] - 128);
//@ at loop0.end
    proof {
        let i = 8 * $v0;
        assert(coeffs[i + 0] == r0(a, b, c, d, e, f, g, h)) by { reveal(r0); }
        assert(coeffs[i + 1] == r1(a, b, c, d, e, f, g, h)) by { reveal(r1); }
        assert(coeffs[i + 2] == r2(a, b, c, d, e, f, g, h)) by { reveal(r2); }
        assert(coeffs[i + 3] == r3(a, b, c, d, e, f, g, h)) by { reveal(r3); }
        assert(coeffs[i + 4] == r4(a, b, c, d, e, f, g, h)) by { reveal(r4); }
        assert(coeffs[i + 5] == r5(a, b, c, d, e, f, g, h)) by { reveal(r5); }
        assert(coeffs[i + 6] == r6(a, b, c, d, e, f, g, h)) by { reveal(r6); }
        assert(coeffs[i + 7] == r7(a, b, c, d, e, f, g, h)) by { reveal(r7); }
        lemma_row_done(s, c0, coeffs@, $v0 as int);
    }
//@ at loop0.after
    let ghost p = coeffs@;
//@ loop 1 while
    invariant s == $n0@, p.len() == 64, vxn <= 8,
        1i32 << 10usize == 1024, 1i32 << 14usize == 16384, 1i32 << 1usize == 2, forall|x: i32| #[trigger] (x >> 2usize) == x as int / 4, forall|x: i32| #[trigger] (x >> 15usize) == x as int / 32768,
        forall|i: int| 0 <= i < 64 ==> #[trigger] pr(p[i] as int, i % 8),
        forall|i: int| 0 <= i < 64 && i % 8 < vxn ==> #[trigger] coeffs[i] == p[i],
        forall|x: int| vxn <= x < 8 ==> #[trigger] cols_ok(p, coeffs@, x),
        forall|i: int| 0 <= i < 64 && i % 8 >= vxn ==> #[trigger] or(coeffs[i] as int, i),
    decreases vxn,
//@ at loop1.start
    let ghost c0 = coeffs@;
    let ghost x0 = vxn - 1;
    proof {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] coeffs[8 * j + x0] == p[8 * j + x0] && pr(p[8 * j + x0] as int, x0) by { assert((8 * j + x0) % 8 == x0); assert(pr(p[8 * j + x0] as int, (8 * j + x0) % 8)); }
        assert(coeffs[8 * 0 + x0] == p[x0] && coeffs[8 * 1 + x0] == p[8 + x0] && coeffs[8 * 2 + x0] == p[16 + x0] && coeffs[8 * 3 + x0] == p[24 + x0] && coeffs[8 * 4 + x0] == p[32 + x0] && coeffs[8 * 5 + x0] == p[40 + x0] && coeffs[8 * 6 + x0] == p[48 + x0] && coeffs[8 * 7 + x0] == p[56 + x0]);
    }
    let ghost (a, b, c, d, e, f, g, h) = (p[x0] as int, p[8 + x0] as int, p[16 + x0] as int, p[24 + x0] as int, p[32 + x0] as int, p[40 + x0] as int, p[48 + x0] as int, p[56 + x0] as int);
    proof { assert(-4096 <= a <= 4096 && coeffs[x0 + 0] == a); assert(-4096 <= b <= 4096 && coeffs[x0 + 8] == b); assert(-4096 <= c <= 4096 && coeffs[x0 + 16] == c); assert(-4096 <= d <= 4096 && coeffs[x0 + 24] == d); assert(-4096 <= e <= 4096 && coeffs[x0 + 32] == e); assert(-4096 <= f <= 4096 && coeffs[x0 + 40] == f); assert(-4096 <= g <= 4096 && coeffs[x0 + 48] == g); assert(-4096 <= h <= 4096 && coeffs[x0 + 56] == h); }
//@ at loop1.end
    proof {
        assert(coeffs[0 + x0] == q0(a, b, c, d, e, f, g, h)) by { reveal(q0); }
        assert(coeffs[8 + x0] == q1(a, b, c, d, e, f, g, h)) by { reveal(q1); }
        assert(coeffs[16 + x0] == q2(a, b, c, d, e, f, g, h)) by { reveal(q2); }
        assert(coeffs[24 + x0] == q3(a, b, c, d, e, f, g, h)) by { reveal(q3); }
        assert(coeffs[32 + x0] == q4(a, b, c, d, e, f, g, h)) by { reveal(q4); }
        assert(coeffs[40 + x0] == q5(a, b, c, d, e, f, g, h)) by { reveal(q5); }
        assert(coeffs[48 + x0] == q6(a, b, c, d, e, f, g, h)) by { reveal(q6); }
        assert(coeffs[56 + x0] == q7(a, b, c, d, e, f, g, h)) by { reveal(q7); }
        assert(coeffs@ =~= c0.update(x0 + 0, coeffs[x0 + 0]).update(x0 + 8, coeffs[x0 + 8]).update(x0 + 16, coeffs[x0 + 16]).update(x0 + 24, coeffs[x0 + 24]).update(x0 + 32, coeffs[x0 + 32]).update(x0 + 40, coeffs[x0 + 40]).update(x0 + 48, coeffs[x0 + 48]).update(x0 + 56, coeffs[x0 + 56]));
        lemma_col_done(p, c0, coeffs@, x0);
    }
//@end
} // verus!
fn main() {}
