#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::cmp;
use core::cmp::Ordering::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification [<u64 as core::convert::From<bool>>::from] (b: bool) -> (r: u64) ensures r == (if b { 1u64 } else { 0u64 });
// ---- stand-in (assumed contract) for std::time::Duration: a whole number of nanoseconds ----
#[derive(Copy, Clone)]
pub struct Duration { pub s: u64, pub n: u32 }
impl Duration {
    pub uninterp spec fn ns(&self) -> nat;
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.ns() / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(m: u64) -> (r: Self) ensures r.ns() == m * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Self) ensures r.ns() == n { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_add(a: Duration, b: Duration) -> (r: Duration)
    requires a.ns() + b.ns() < 0x1_0000_0000_0000_0000 * 1_000_000_000, ensures r.ns() == a.ns() + b.ns() { unimplemented!() }

//@item src/animation.rs struct Ratio vis=pub attrs="#[derive(Copy, Clone)]"
//@item src/animation.rs struct Delay vis=pub attrs="#[derive(Copy, Clone)]"
pub fn vx_ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { match (a, b) { (Less, Less) => true, (Equal, Equal) => true, (Greater, Greater) => true, _ => false } }
pub open spec fn order(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
proof fn lemma_prod(a: u32, b: u32) ensures a * b <= 0xffff_ffff * 0xffff_ffff, a * b >= 0 { vstd::arithmetic::mul::lemma_mul_upper_bound(a as int, 0xffff_ffff, b as int, 0xffff_ffff); assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
impl Ratio {
    pub closed spec fn n(&self) -> u32 { self.numer }
    pub closed spec fn d(&self) -> u32 { self.denom }
//@fn src/animation.rs new ctx="impl Ratio" ret=res vis=pub
//@ panics allow
//@ spec
    ensures $n1 != 0, res.n() == $n0, res.d() == $n1,
//@end
//@fn src/animation.rs new ctx="impl Ratio" as=new_total ret=res vis=pub
//@ panics forbid
//@ spec
    requires $n1 != 0,
    ensures res.n() == $n0, res.d() == $n1,
//@end
//@fn src/animation.rs to_integer ctx="impl Ratio" ret=res vis=pub
//@ spec
    requires self.d() != 0,
    ensures res == self.n() / self.d(),
//@end
//@fn src/animation.rs cmp ctx="Ord for Ratio" ret=res vis=pub
//@ spec
    // the order of the exact fractions a/b and c/d
    ensures res == order(self.n() * $n0.d(), $n0.n() * self.d()),
//@ at body.start
    proof { lemma_prod(self.numer, $n0.denom); lemma_prod($n0.numer, self.denom); }
//@end
//@fn src/animation.rs partial_cmp ctx="PartialOrd for Ratio" ret=res vis=pub
//@ spec
    ensures res == Some(order(self.n() * $n0.d(), $n0.n() * self.d())),
//@end
//@fn src/animation.rs eq ctx="PartialEq for Ratio" ret=res vis=pub
//@ subst? `self.cmp(other) == Ordering::Equal` => `vx_ord_eq(self.cmp(other), Ordering::Equal)`
//@ spec
    ensures res <==> self.n() * $n0.d() == $n0.n() * self.d(),
//@end
}
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
// distance of p/q from n/d, times q * d
pub open spec fn dist(p: int, q: int, n: int, d: int) -> int { iabs(p * d - n * q) }
// g0/g1 is at least as close to n/d as p/q
pub open spec fn closer(g0: int, g1: int, p: int, q: int, n: int, d: int) -> bool { dist(g0, g1, n, d) * q <= dist(p, q, n, d) * g1 }
pub open spec fn closest(g0: int, g1: int, bound: int, n: int, d: int) -> bool { forall|p: int, q: int| 1 <= q <= bound ==> #[trigger] closer(g0, g1, p, q, n, d) }

proof fn lemma_trans(a: int, a1: int, b: int, b1: int, c: int, c1: int)
    requires a >= 0, b >= 0, c >= 0, a1 >= 1, b1 >= 1, c1 >= 1, a * b1 <= b * a1, b * c1 <= c * b1
    ensures a * c1 <= c * a1
{
    assert(a * b1 * c1 <= b * a1 * c1) by (nonlinear_arith) requires a * b1 <= b * a1, c1 >= 1;
    assert(b * a1 * c1 <= c * a1 * b1) by (nonlinear_arith) requires b * c1 <= c * b1, a1 >= 1;
    assert(a * b1 * c1 == (a * c1) * b1) by (nonlinear_arith);
    assert(c * a1 * b1 == (c * a1) * b1) by (nonlinear_arith);
    assert(a * c1 <= c * a1) by (nonlinear_arith) requires (a * c1) * b1 <= (c * a1) * b1, b1 >= 1;
}
// Farey neighbours l <= n/d < u: every fraction with a denominator below l1 + u1 is no closer than the closest of them
proof fn lemma_farey(l0: int, l1: int, u0: int, u1: int, g0: int, g1: int, bound: int, n: int, d: int)
    requires u0 * l1 - l0 * u1 == 1, l0 * d <= n * l1, n * u1 < u0 * d, l1 >= 1, u1 >= 1, d >= 1, g1 >= 1, l1 + u1 > bound,
        closer(g0, g1, l0, l1, n, d), closer(g0, g1, u0, u1, n, d)
    ensures closest(g0, g1, bound, n, d)
{
    assert forall|p: int, q: int| 1 <= q <= bound implies #[trigger] closer(g0, g1, p, q, n, d) by {
        let dg = dist(g0, g1, n, d); let dl = dist(l0, l1, n, d); let du = dist(u0, u1, n, d); let dp = dist(p, q, n, d);
        if p * l1 <= l0 * q {
            // p/q <= l <= n/d : n q - p d >= ... 
            assert(dl * q <= dp * l1) by (nonlinear_arith) requires dl == n * l1 - l0 * d, dp == iabs(p * d - n * q), dp >= n * q - p * d, p * l1 <= l0 * q, d >= 1, l1 >= 1, q >= 1;
            lemma_trans(dg, g1, dl, l1, dp, q);
        } else if u0 * q <= p * u1 {
            assert(du * q <= dp * u1) by (nonlinear_arith) requires du == u0 * d - n * u1, dp >= p * d - n * q, u0 * q <= p * u1, d >= 1, u1 >= 1, q >= 1;
            lemma_trans(dg, g1, du, u1, dp, q);
        } else {
            let a = p * l1 - l0 * q; let b = u0 * q - p * u1;
            assert(q == l1 * b + u1 * a) by (nonlinear_arith) requires u0 * l1 - l0 * u1 == 1, a == p * l1 - l0 * q, b == u0 * q - p * u1;
            assert(l1 * b >= l1) by (nonlinear_arith) requires b >= 1, l1 >= 1;
            assert(u1 * a >= u1) by (nonlinear_arith) requires a >= 1, u1 >= 1;
            assert(false);
        }
    }
}
// comparing a/b and c/d by integral part, then by remainder
proof fn lemma_divcmp(a: int, b: int, c: int, d: int)
    requires a >= 0, b >= 1, c >= 0, d >= 1
    ensures a / b < c / d ==> a * d < c * b, a / b > c / d ==> a * d > c * b,
        a / b == c / d ==> (a * d < c * b <==> (a % b) * d < (c % d) * b), 0 <= a % b < b, 0 <= c % d < d,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, d);
    let (i, r, j, s) = (a / b, a % b, c / d, c % d);
    assert(a * d == i * (b * d) + r * d) by (nonlinear_arith) requires a == b * i + r;
    assert(c * b == j * (b * d) + s * b) by (nonlinear_arith) requires c == d * j + s;
    assert(0 <= r * d < b * d) by (nonlinear_arith) requires 0 <= r < b, d >= 1;
    assert(0 <= s * b < b * d) by (nonlinear_arith) requires 0 <= s < d, b >= 1;
    if i < j { assert(i * (b * d) + b * d <= j * (b * d)) by (nonlinear_arith) requires i + 1 <= j, b * d >= 0; }
    if i > j { assert(j * (b * d) + b * d <= i * (b * d)) by (nonlinear_arith) requires j + 1 <= i, b * d >= 0; }
}
pub struct Farey {}
proof fn lemma_small(a: u64, b: u64) requires a <= 0xffff_ffff, b <= 0xffff_ffff ensures a * b <= 0xffff_ffff * 0xffff_ffff, a * b >= 0 { vstd::arithmetic::mul::lemma_mul_upper_bound(a as int, 0xffff_ffff, b as int, 0xffff_ffff); assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
pub open spec fn small2(a: (u64, u64)) -> bool { a.0 <= 0xffff_ffff && a.1 <= 0xffff_ffff }
//@fn src/animation.rs compare_fraction ret=res
//@ sigsubst `(an, ad): (u64, u64), (bn, bd): (u64, u64)` => `pa: (u64, u64), pb: (u64, u64)`
//@ spec
    requires small2(pa), small2(pb),
    ensures res == order(pa.0 * pb.1, pb.0 * pa.1),
//@ at body.start
    let (an, ad) = pa; let (bn, bd) = pb;
    proof { lemma_small(an, bd); lemma_small(bn, ad); }
//@end
//@fn src/animation.rs abs_diff_nom ret=res
//@ sigsubst `(an, ad): (u64, u64), (bn, bd): (u64, u64)` => `pa: (u64, u64), pb: (u64, u64)`
//@ subst? `c0.max(c1)` => `cmp::max(c0, c1)`
//@ subst? `c0.min(c1)` => `cmp::min(c0, c1)`
//@ spec
    requires small2(pa), small2(pb),
    ensures res == iabs(pa.0 * pb.1 - pb.0 * pa.1),
//@ at body.start
    let (an, ad) = pa; let (bn, bd) = pb;
    proof { lemma_small(an, bd); lemma_small(ad, bn); assert(ad * bn == bn * ad) by (nonlinear_arith); }
//@end
impl Delay {
    pub closed spec fn n(&self) -> u32 { self.ratio.numer }
    pub closed spec fn d(&self) -> u32 { self.ratio.denom }
//@fn src/animation.rs from_numer_denom_ms ctx="impl Delay" ret=res vis=pub
//@ spec
    ensures $n1 != 0, res.n() == $n0, res.d() == $n1,
//@end
//@fn src/animation.rs numer_denom_ms ctx="impl Delay" ret=res vis=pub
//@ spec
    ensures res.0 == self.n(), res.1 == self.d(),
//@end
//@fn src/animation.rs from_ratio ctx="impl Delay" ret=res vis=pub
//@ spec
    ensures res.n() == $n0.n(), res.d() == $n0.d(),
//@end
//@fn src/animation.rs into_ratio ctx="impl Delay" ret=res vis=pub
//@ spec
    ensures res.n() == self.n(), res.d() == self.d(),
//@end
//@fn src/animation.rs closest_bounded_fraction ctx="impl Delay" ret=res
//@ panics forbid
//@ subst? `use std::cmp::Ordering::*;` => ` `
//@ subst `fn compare_fraction((an, ad): (u64, u64), (bn, bd): (u64, u64)) -> Ordering {$A}` => ` `
//@ subst `fn abs_diff_nom((an, ad): (u64, u64), (bn, bd): (u64, u64)) -> u64 {$A}` => ` `
//@ subst `compare_fraction($A) == Equal` => `vx_ord_eq(compare_fraction($A), Equal)`
//@ subst `compare_fraction(exact, next) == Less` => `vx_ord_eq(compare_fraction(exact, next), Less)`
//@ subst `compare_fraction((n_diff_nom % next.1, next.1), (g_diff_nom % guess.1, guess.1),) == Less` => `vx_ord_eq(compare_fraction((n_diff_nom % next.1, next.1), (g_diff_nom % guess.1, guess.1)), Less)`
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ spec
    requires 0 < $n0, $n1 < $n2 <= 0x7fff_ffff,
    ensures 1 <= res.1 <= $n0, res.0 < res.1 || (res.0 == 1 && res.1 == 1),
        closest(res.0 as int, res.1 as int, $n0 as int, $n1 as int, $n2 as int),
//@ loop 0 loop
    invariant
        lower.0 <= lower.1, upper.0 <= upper.1, 1 <= lower.1 <= denom_bound, 1 <= upper.1 <= denom_bound, lower.0 < lower.1,
        upper.0 * lower.1 - lower.0 * upper.1 == 1, lower.0 * denom <= nom * lower.1, nom * upper.1 < upper.0 * denom,
        1 <= guess.1 <= denom_bound, guess.0 < guess.1 || (guess.0 == 1 && guess.1 == 1),
        closer(guess.0 as int, guess.1 as int, lower.0 as int, lower.1 as int, nom as int, denom as int),
        closer(guess.0 as int, guess.1 as int, upper.0 as int, upper.1 as int, nom as int, denom as int),
    ensures closest(guess.0 as int, guess.1 as int, denom_bound as int, nom as int, denom as int),
    decreases 2 * denom_bound - lower.1 - upper.1,
//@ at loop0.start
    let ghost (ol, ou, og) = (lower, upper, guess);
    let ghost (n, d) = (nom as int, denom as int);
    proof {
        assert forall|a: int, b: int| b > 0 implies 0 <= #[trigger] (a % b) < b by { vstd::arithmetic::div_mod::lemma_mod_bound(a, b); }
        if guess.0 * d == n * guess.1 {
            assert forall|p: int, q: int| 1 <= q <= denom_bound implies #[trigger] closer(guess.0 as int, guess.1 as int, p, q, n, d) by {
                assert(dist(guess.0 as int, guess.1 as int, n, d) == 0);
                assert(dist(p, q, n, d) * guess.1 >= 0) by (nonlinear_arith) requires dist(p, q, n, d) >= 0, guess.1 >= 0;
            }
        }
        if lower.1 + upper.1 > denom_bound {
            lemma_farey(lower.0 as int, lower.1 as int, upper.0 as int, upper.1 as int, guess.0 as int, guess.1 as int, denom_bound as int, n, d);
        }
    }
//@ at loop0.end
    proof {
        let (x0, x1) = ((ol.0 + ou.0) as int, (ol.1 + ou.1) as int);
        let (xd, gd) = (dist(x0, x1, n, d), dist(og.0 as int, og.1 as int, n, d));
        let (ld, ud) = (dist(ol.0 as int, ol.1 as int, n, d), dist(ou.0 as int, ou.1 as int, n, d));
        lemma_divcmp(xd, x1, gd, og.1 as int);
        let nd = dist(guess.0 as int, guess.1 as int, n, d);
        assert(xd * guess.1 == guess.1 * xd) by (nonlinear_arith);
        // the new guess is as close as both the old one and the mediant
        assert(nd * og.1 <= gd * guess.1);
        assert(nd * x1 <= xd * guess.1);
        lemma_trans(nd, guess.1 as int, gd, og.1 as int, ld, ol.1 as int);
        lemma_trans(nd, guess.1 as int, gd, og.1 as int, ud, ou.1 as int);
        assert(x0 * ol.1 - ol.0 * x1 == ou.0 * ol.1 - ol.0 * ou.1) by (nonlinear_arith) requires x0 == ol.0 + ou.0, x1 == ol.1 + ou.1;
        assert(ou.0 * x1 - x0 * ou.1 == ou.0 * ol.1 - ol.0 * ou.1) by (nonlinear_arith) requires x0 == ol.0 + ou.0, x1 == ol.1 + ou.1;
    }
//@end
//@fn src/animation.rs from_saturating_duration ctx="impl Delay" ret=res vis=pub
//@ panics forbid
//@ subst? `const MILLIS_BOUND: u128 = $A;` => `let MILLIS_BOUND: u128 = $A;`
//@ subst? `duration.as_millis().min(MILLIS_BOUND)` => `cmp::min(duration.as_millis(), MILLIS_BOUND)`
//@ spec
    requires $n0.ns() <= 0xffff_ffff_ffff_ffff * 1_000_000_000 + 999_999_999,
    ensures
        // beyond the representable range: saturates at the maximum
        $n0.ns() >= 0xffff_ffff * 1_000_000 ==> res.n() == 0xffff_ffff && res.d() == 1,
        // otherwise: the closest fraction whose denominator is within the bound for this many whole milliseconds
        $n0.ns() < 0xffff_ffff * 1_000_000 ==> 1 <= res.d() <= maxb($n0.ns() / 1_000_000)
            && closest(res.n() as int, res.d() as int, maxb($n0.ns() / 1_000_000), $n0.ns() as int, 1_000_000),
//@ at body.start
    proof {
        let m = $n0.ns() / 1_000_000; let r = $n0.ns() % 1_000_000;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod($n0.ns() as int, 1_000_000);
        if m < 0xffff_ffff { lemma_maxb(m); }
        let mm = (if m < 0xffff_ffff { m as int } else { 0xffff_ffff });
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(0x1_0000_0000, 0x1_0000_0000, 1, 0);
        if m >= 0xffff_ffff { assert(mm + 1 == 0x1_0000_0000); assert(0x1_0000_0000int / (mm + 1) == 1); }
        assert forall|b: int| (if m < 0xffff_ffff { 1 <= b <= maxb(m) } else { b == 1 }) implies 0 <= #[trigger] (b * mm) <= 0xffff_ffff && b * mm + b <= (if m == 0 { 0xffff_ffff } else { 0x1_0000_0000int }) && (b == 1 ==> b * mm == mm) by {
            if m < 0xffff_ffff { lemma_fits(0, b, mm); lemma_maxb(m); assert(b * mm + b == b * (mm + 1)) by (nonlinear_arith);
                if m > 0 { assert(b * (mm + 1) <= maxb(m) * (mm + 1)) by (nonlinear_arith) requires b <= maxb(m), mm + 1 >= 0; } else { assert(b * mm == 0) by (nonlinear_arith) requires mm == 0; } }
            if b == 1 { assert(b * mm == mm) by (nonlinear_arith) requires b == 1; }
        }
        assert forall|a: int, b: int| #[trigger] closest(a, b, maxb(m), r as int, 1_000_000) implies closest(a + b * m, b, maxb(m), $n0.ns() as int, 1_000_000) by { lemma_shift(a, b, m as int, maxb(m), r as int, $n0.ns() as int); }
        assert forall|a: int, b: int| #[trigger] closest(a, b, 1, 0, 1_000_000) && b == 1 implies a == 0 by { assert(closer(a, b, 0, 1, 0, 1_000_000)); }
    }
//@end
}
// the denominators that leave room for every numerator of `m` whole milliseconds
pub open spec fn maxb(m: nat) -> int { if m == 0 { 0xffff_ffff } else { 0x1_0000_0000int / (m as int + 1) } }
#[verifier::spinoff_prover]
proof fn lemma_maxb(m: nat) requires m < 0xffff_ffff ensures 1 <= maxb(m) <= 0xffff_ffff, m > 0 ==> maxb(m) * (m + 1) <= 0x1_0000_0000
{
    if m > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(0x1_0000_0000, m as int + 1);
        let q = maxb(m);
        assert(q * (m + 1) == (m + 1) * q) by (nonlinear_arith);
        assert(q >= 1) by (nonlinear_arith) requires 0x1_0000_0000 < (m + 1) * q + (m + 1), m + 1 <= 0xffff_ffff;
        assert(q <= 0x8000_0000) by (nonlinear_arith) requires 0x1_0000_0000 >= (m + 1) * q, m + 1 >= 2, q >= 1;
    }
}
proof fn lemma_fits(a: int, b: int, m: int)
    requires 0 <= m < 0xffff_ffff, 1 <= b <= maxb(m as nat), 0 <= a, a < b || (a == 1 && b == 1)
    ensures 0 <= b * m <= 0xffff_ffff, a + b * m <= 0xffff_ffff
{
    lemma_maxb(m as nat);
    assert(b * m >= 0) by (nonlinear_arith) requires b >= 0, m >= 0;
    assert(b * m + b == b * (m + 1)) by (nonlinear_arith);
    if m > 0 { assert(b * (m + 1) <= maxb(m as nat) * (m + 1)) by (nonlinear_arith) requires b <= maxb(m as nat), m + 1 >= 0; }
    if a >= b { assert(b * m == m) by (nonlinear_arith) requires b == 1; }
}
// adding the whole milliseconds back keeps the distances
proof fn lemma_shift(a: int, b: int, m: int, bound: int, r: int, ns: int)
    requires closest(a, b, bound, r, 1_000_000), ns == m * 1_000_000 + r
    ensures closest(a + b * m, b, bound, ns, 1_000_000)
{
    assert forall|p: int, q: int| 1 <= q <= bound implies #[trigger] closer(a + b * m, b, p, q, ns, 1_000_000) by {
        assert(closer(a, b, p - q * m, q, r, 1_000_000));
        assert((p - q * m) * 1_000_000 - r * q == p * 1_000_000 - ns * q) by (nonlinear_arith) requires ns == m * 1_000_000 + r;
        assert(a * 1_000_000 - r * b == (a + b * m) * 1_000_000 - ns * b) by (nonlinear_arith) requires ns == m * 1_000_000 + r;
    }
}
// a delay that is representable within the bound is converted exactly
proof fn lemma_exact(g0: int, g1: int, bound: int, n: int, d: int, p: int, q: int)
    requires closest(g0, g1, bound, n, d), 1 <= q <= bound, g1 >= 1, d >= 1, p * d == n * q
    ensures g0 * d == n * g1
{
    assert(closer(g0, g1, p, q, n, d));
    assert(dist(g0, g1, n, d) <= 0) by (nonlinear_arith) requires dist(g0, g1, n, d) * q <= dist(p, q, n, d) * g1, q >= 1, dist(p, q, n, d) == 0;
}
impl Duration {
//@fn src/animation.rs from ctx="From ?< ?Delay ?> for Duration" ret=res vis=pub
//@ panics forbid
//@ subst? `Duration::from_millis($A) + Duration::from_nanos($B)` => `vx_add(Duration::from_millis($A), Duration::from_nanos($B))`
//@ spec
    requires $n0.d() != 0,
    // numer/denom milliseconds, rounded down to a whole nanosecond
    ensures res.ns() == ($n0.n() * 1_000_000) as int / $n0.d() as int,
//@ at body.start
    proof {
        let (n, d) = ($n0.n() as int, $n0.d() as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
        let (i, r) = (n / d, n % d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r * 1_000_000, d);
        let k = (r * 1_000_000) / d;
        assert(n * 1_000_000 == (i * 1_000_000 + k) * d + (r * 1_000_000) % d) by (nonlinear_arith)
            requires n == d * i + r, r * 1_000_000 == d * k + (r * 1_000_000) % d;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * 1_000_000, d, i * 1_000_000 + k, (r * 1_000_000) % d);
        assert(k <= r * 1_000_000) by (nonlinear_arith) requires k == (r * 1_000_000) / d, d >= 1, r >= 0;
        assert(0 <= i <= n) by (nonlinear_arith) requires n == d * i + r, d >= 1, n >= 0, 0 <= r < d;
    }
//@end
}
} // verus!
fn main() {}
