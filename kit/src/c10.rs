//! C10 frame delays
use crate::nd::*;
use image::*;
use std::time::Duration;
fn g(a: u128, b: u128) -> u128 { if b == 0 { a } else { g(b, a % b) } }
/// distance numerators of the best lower and upper approximations of n/d (0 <= n < d) with denominator <= bound, by descending the Stern-Brocot tree in jumps
fn neighbours(bound: u128, n: u128, d: u128) -> ((u128, u128), (u128, u128)) {
    let (mut lo, mut hi) = ((0u128, 1u128), (1u128, 1u128));
    // invariant lo <= n/d < hi
    loop {
        // lo + k*hi <= n/d :  (lo.0 + k hi.0) d <= n (lo.1 + k hi.1)
        let gap = n * lo.1 - lo.0 * d; let step = hi.0 * d - n * hi.1; // gap >= 0, step > 0
        let k = (gap / step).min((bound - lo.1) / hi.1);
        lo = (lo.0 + k * hi.0, lo.1 + k * hi.1);
        if lo.0 * d == n * lo.1 { return (lo, lo); }
        // hi + j*lo > n/d : (hi.0 + j lo.0) d > n (hi.1 + j lo.1)
        let gap2 = hi.0 * d - n * hi.1; let step2 = n * lo.1 - lo.0 * d; // both > 0
        let j = ((gap2 - 1) / step2).min((bound - hi.1) / lo.1);
        hi = (hi.0 + j * lo.0, hi.1 + j * lo.1);
        if (k == 0 && j == 0) || lo.1 + hi.1 > bound { return (lo, hi); }
    }
}
fn duration<N: Nd>(n: &mut N) -> Duration {
    match n.range(0, 5) {
        0 => Duration::new(n.u64(), n.r32(0, 999_999_999)),
        1 => Duration::from_millis(n.raw(0, 1 << 33)) + Duration::from_nanos(n.raw(0, 2_000_000)),
        2 => Duration::from_millis(u32::MAX as u64 - 3 + n.raw(0, 6)) + Duration::from_nanos(n.raw(0, 1_000_000)),
        3 => Duration::from_nanos(n.raw(0, 5_000_000)),
        4 => Duration::from_millis(n.raw(0, 5000)) + Duration::from_nanos(n.raw(0, 1_000_000)),
        _ => Duration::from_micros(n.u64()),
    }
}
pub fn from_duration<N: Nd>(n: &mut N) {
    let t = duration(n);
    let (a, b) = match catch(|| Delay::from_saturating_duration(t).numer_denom_ms()) { Some(r) => r, None => panic!("from_saturating_duration({t:?}) panicked") };
    let (a, b) = (a as u128, b as u128);
    assert!(b > 0, "{t:?}: zero denominator");
    let ns = t.as_nanos(); // exact value ns / 10^6 ms
    if ns >= u32::MAX as u128 * 1_000_000 { assert_eq!((a, b), (u32::MAX as u128, 1), "{t:?} saturates"); return; }
    let k = g(ns, 1_000_000); let (en, ed) = (ns / k, 1_000_000 / k);
    let millis = ns / 1_000_000;
    let bound = if millis == 0 { u32::MAX as u128 } else { (1u128 << 32) / (millis + 1) };
    assert!(b <= bound, "{t:?}: denominator {b} beyond {bound}");
    if en <= u32::MAX as u128 && ed <= bound { assert_eq!(a * ed, b * en, "{t:?}: exactly {en}/{ed}, got {a}/{b}"); return; }
    let sub = ns % 1_000_000;
    let ((ln, ld), (hn, hd)) = neighbours(bound, sub, 1_000_000);
    // |a/b - ns/10^6| against both neighbours
    let dist = |x: u128, y: u128| -> (u128, u128) { let l = x * 1_000_000; let r = y * ns; (if l > r { l - r } else { r - l }, y) };
    let (dn, dd) = dist(a, b);
    for (x, y) in [(ln, ld), (hn, hd)] { let (en, ed) = dist(x + millis * y, y); assert!(dn * ed <= en * dd, "{t:?}: {a}/{b} is farther than {}/{y}", x + millis * y); }
}
pub fn reading_back<N: Nd>(n: &mut N) {
    let (a, b) = (n.u32(), n.u32()); n.assume(b != 0);
    let d = Delay::from_numer_denom_ms(a, b);
    assert_eq!(d.numer_denom_ms(), (a, b));
    let t = Duration::from(d);
    assert_eq!(t.as_nanos(), a as u128 * 1_000_000 / b as u128, "Duration of {a}/{b} ms");
    let f = Frame::from_parts(RgbaImage::new(1, 1), 3, 5, d);
    assert_eq!((f.delay(), f.left(), f.top(), f.delay().numer_denom_ms()), (d, 3, 5, (a, b)));
    assert_eq!(Frame::new(RgbaImage::new(1, 1)).delay().numer_denom_ms().0, 0);
    assert_eq!(f.clone().delay().numer_denom_ms(), (a, b));
    let mut c = Frame::new(RgbaImage::new(0, 0)); c.clone_from(&f); assert_eq!((c.delay().numer_denom_ms(), c.left(), c.top()), ((a, b), 3, 5));
    let ((a2, b2), near) = ((n.u32(), n.u32()), n.range(0, 3));
    let (a2, b2) = match near { 0 => (a2, b2), 1 => (a.wrapping_add(1), b), 2 => (a, b.wrapping_add(1)), _ => { let m = 1 + a2 % 5; match (a.checked_mul(m), b.checked_mul(m)) { (Some(x), Some(y)) => (x, y), _ => (a, b) } } };
    n.assume(b2 != 0);
    let e = Delay::from_numer_denom_ms(a2, b2);
    let want = (a as u128 * b2 as u128).cmp(&(a2 as u128 * b as u128));
    assert_eq!(d.partial_cmp(&e), Some(want), "{a}/{b} against {a2}/{b2}");
    assert_eq!(d == e, want.is_eq()); assert_eq!(d < e, want.is_lt()); assert_eq!(d >= e, want.is_ge());
}
/// exact round trip through a duration of every delay with few digits
pub fn roundtrip<N: Nd>(n: &mut N) {
    let ns = n.raw(0, 4_000_000_000_000);
    let t = Duration::from_nanos(ns / 1000 * 1000);
    let d = Delay::from_saturating_duration(t);
    let k = g(t.as_nanos(), 1_000_000); let (en, ed) = (t.as_nanos() / k, 1_000_000 / k);
    let millis = t.as_millis(); let bound = if millis == 0 { u32::MAX as u128 } else { (1u128 << 32) / (millis + 1) };
    if en <= u32::MAX as u128 && ed <= bound { assert_eq!(Duration::from(d), t, "{t:?} -> {:?} -> back", d.numer_denom_ms()); }
}
entries! {"C10";
    from_duration Fuzz "from_saturating_duration: all durations, against exact 128-bit Stern-Brocot neighbours",
    reading_back Fuzz "numer_denom_ms, Duration::from, comparisons: all pairs of fractions",
    roundtrip Fuzz "durations of whole microseconds survive the round trip where representable",
}
