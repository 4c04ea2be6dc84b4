#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::ops::Range;
use std::cmp::max;
verus! {
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
//@item src/math/rect.rs struct Rect vis=pub
// slice::copy_within, as documented by core (memmove within the slice; out-of-range calls panic)
#[verifier::external_body]
pub fn vx_copy_within<T>(v: &mut Vec<T>, r: Range<usize>, dst: usize)
    requires r.start <= r.end <= old(v)@.len(), dst + (r.end - r.start) <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if dst <= k < dst + (r.end - r.start) { old(v)@[k - dst + r.start] } else { old(v)@[k] }),
{ unimplemented!() }
// a Vec never holds more than isize::MAX bytes; pixels are not zero-sized
#[verifier::external_body]
pub proof fn axiom_vec_len<T>(v: &Vec<T>) ensures v@.len() <= isize::MAX {}
//@include buffer_core.vrs
    pub open spec fn same(&self, o: &Self) -> bool { self.w() == o.w() && self.h() == o.h() && self.samples().len() == o.samples().len() }
//@fn src/buffer.rs width ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    ensures res == self.w(),
//@end
//@fn src/buffer.rs height ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    ensures res == self.h(),
//@end
//@fn src/buffer.rs pixel_indices_unchecked ret=res
//@ subst `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ spec
    requires self.fits(), $n0 <= self.w(), $n1 < self.h(), P::cc() <= 255,
    ensures res.start == idx::<P>(self.w(), $n0 as int, $n1 as int), res.end == res.start + P::cc(),
//@ at body.start
    proof { lemma_edge::<P>(self.width, self.height, $n0 as int, $n1 as int); axiom_vec_len(&self.data); lemma_small(self.width, $n0, $n1); }
//@end
//@fn src/buffer.rs copy_within ctx="GenericImage for ImageBuffer" ret=res vis=pub
//@ panics allow
//@ subst? `dx.max(sx)` => `max(dx, sx)`
//@ subst? `dy.max(sy)` => `max(dy, sy)`
//@ subst? `self.data.copy_within($A)` => `vx_copy_within(&mut self.data, $A)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).fits(), P::cc() <= 255,
    ensures final(self).fits(), final(self).same(old(self)),
        $n0.x < old(self).w(), $n0.y < old(self).h(), $n1 < old(self).w(), $n2 < old(self).h(),
        res <==> inside(smax($n0.x as int, $n1 as int), smax($n0.y as int, $n2 as int), $n0.width as int, $n0.height as int, old(self).w() as int, old(self).h() as int),
        !res ==> *final(self) == *old(self),
        res ==> forall|a: int, b: int| 0 <= a < old(self).w() && 0 <= b < old(self).h() ==> #[trigger] final(self).at(a, b) == (if in_rect(a, b, $n1 as int, $n2 as int, $n0.width as int, $n0.height as int) { old(self).at(a - $n1 + $n0.x, b - $n2 + $n0.y) } else { old(self).at(a, b) }),
//@ at body.start
    let ghost gx = $n1 as int; let ghost gy = $n2 as int; let ghost s0 = *self;
//@ at loop0.start
    let ghost pre = *self;
    proof { lemma_edge::<P>(self.width, self.height, $n0.x + $n0.width, $n0.y + $v0); lemma_edge::<P>(self.width, self.height, gx + $n0.width, gy + $v0);
        lemma_row::<P>(self.width, $n0.x as int, $n0.y + $v0, gx, gy + $v0, $n0.width as int); }
//@ at loop0.end
    proof { lemma_row_copy(&pre, &*self, $n0.x as int, $n0.y + $v0, gx, gy + $v0, $n0.width as int); }
//@ loop 0 for it=yi
    invariant self.same(&s0), self.fits(),
        forall|a: int, b: int| 0 <= a < s0.w() && 0 <= b < s0.h() ==> #[trigger] self.at(a, b) == (if in_rect(a, b, gx, gy + $n0.height - yi.index@, $n0.width as int, yi.index@ as int) { s0.at(a - gx + $n0.x, b - gy + $n0.y) } else { s0.at(a, b) }),
//@ at loop1.start
    let ghost pre = *self;
    proof { lemma_edge::<P>(self.width, self.height, $n0.x + $n0.width, $n0.y + $v1); lemma_edge::<P>(self.width, self.height, gx + $n0.width, gy + $v1);
        lemma_row::<P>(self.width, $n0.x as int, $n0.y + $v1, gx, gy + $v1, $n0.width as int); }
//@ at loop1.end
    proof { lemma_row_copy(&pre, &*self, $n0.x as int, $n0.y + $v1, gx, gy + $v1, $n0.width as int); }
//@ loop 1 for it=yi
    invariant self.same(&s0), self.fits(),
        forall|a: int, b: int| 0 <= a < s0.w() && 0 <= b < s0.h() ==> #[trigger] self.at(a, b) == (if in_rect(a, b, gx, gy, $n0.width as int, yi.index@ as int) { s0.at(a - gx + $n0.x, b - gy + $n0.y) } else { s0.at(a, b) }),
//@end
}
pub open spec fn smax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn inside(x: int, y: int, w: int, h: int, iw: int, ih: int) -> bool { x + w <= iw && y + h <= ih }
pub open spec fn in_rect(i: int, j: int, x: int, y: int, w: int, h: int) -> bool { x <= i < x + w && y <= j < y + h }
// the end of a row segment is still inside the buffer
pub proof fn lemma_edge<P: Pixel>(w: u32, h: u32, x: int, y: int)
    requires 0 <= x <= w, 0 <= y < h
    ensures 0 <= y * w + x <= w * h, 0 <= idx::<P>(w, x, y) <= need::<P>(w, h), y * w >= 0
{
    let c = P::cc() as int;
    assert(0 <= y * w <= w * (h - 1)) by (nonlinear_arith) requires 0 <= y <= h - 1, w >= 0;
    assert(w * (h - 1) == w * h - w) by (nonlinear_arith);
    assert((y * w + x) * c <= (w * h) * c) by (nonlinear_arith) requires y * w + x <= w * h, c >= 0;
    assert((w * h) * c == (c * w) * h) by (nonlinear_arith);
    assert((y * w + x) * c >= 0) by (nonlinear_arith) requires y * w + x >= 0, c >= 0;
}
pub proof fn lemma_row<P: Pixel>(w: u32, sx: int, sy: int, dx: int, dy: int, n: int)
    requires 0 <= n
    ensures idx::<P>(w, sx + n, sy) == idx::<P>(w, sx, sy) + n * P::cc(), idx::<P>(w, dx + n, dy) == idx::<P>(w, dx, dy) + n * P::cc(), n * P::cc() >= 0
{
    let c = P::cc() as int;
    assert((sy * w + (sx + n)) * c == (sy * w + sx) * c + n * c) by (nonlinear_arith);
    assert((dy * w + (dx + n)) * c == (dy * w + dx) * c + n * c) by (nonlinear_arith);
    assert(n * c >= 0) by (nonlinear_arith) requires n >= 0, c >= 0;
}
// moving the samples of a row segment moves exactly its pixels
pub proof fn lemma_row_copy<P: Pixel>(s: &ImageBuffer<P>, t: &ImageBuffer<P>, sx: int, sy: int, dx: int, dy: int, n: int)
    requires s.fits(), t.same(s), 0 <= sx, 0 <= dx, 0 <= n, sx + n <= s.w(), dx + n <= s.w(), 0 <= sy < s.h(), 0 <= dy < s.h(),
        ({ let o = idx::<P>(s.w(), sx, sy); let d = idx::<P>(s.w(), dx, dy);
           forall|k: int| 0 <= k < s.samples().len() ==> #[trigger] t.samples()[k] == (if d <= k < d + n * P::cc() { s.samples()[k - d + o] } else { s.samples()[k] }) }),
    ensures forall|a: int, b: int| 0 <= a < s.w() && 0 <= b < s.h() ==> #[trigger] t.at(a, b) == (if b == dy && dx <= a < dx + n { s.at(a - dx + sx, sy) } else { s.at(a, b) }),
{
    let w = s.w(); let c = P::cc() as int; let o = idx::<P>(w, sx, sy); let d = idx::<P>(w, dx, dy);
    lemma_row::<P>(w, sx, sy, dx, dy, n);
    assert forall|a: int, b: int| 0 <= a < s.w() && 0 <= b < s.h() implies #[trigger] t.at(a, b) == (if b == dy && dx <= a < dx + n { s.at(a - dx + sx, sy) } else { s.at(a, b) }) by {
        lemma_in::<P>(w, s.h(), a, b);
        let p = b * w + a; let q = dy * w + dx; let i = idx::<P>(w, a, b);
        if b == dy && dx <= a < dx + n {
            lemma_in::<P>(w, s.h(), a - dx + sx, sy);
            assert(i == d + (a - dx) * c) by (nonlinear_arith) requires i == (b * w + a) * c, d == (dy * w + dx) * c, b == dy;
            assert(idx::<P>(w, a - dx + sx, sy) == o + (a - dx) * c) by (nonlinear_arith) requires idx::<P>(w, a - dx + sx, sy) == (sy * w + (a - dx + sx)) * c, o == (sy * w + sx) * c;
            assert((a - dx) * c >= 0 && (a - dx) * c + c <= n * c) by (nonlinear_arith) requires 0 <= a - dx, a - dx + 1 <= n, c >= 0;
            assert(t.at(a, b) =~= s.at(a - dx + sx, sy));
        } else {
            if b < dy { assert(p + 1 <= q) by (nonlinear_arith) requires p == b * w + a, q == dy * w + dx, b + 1 <= dy, a < w, dx >= 0; }
            else if b > dy { assert(p >= q + n) by (nonlinear_arith) requires p == b * w + a, q == dy * w + dx, b >= dy + 1, a >= 0, dx + n <= w; }
            if p < q { assert(i + c <= d) by (nonlinear_arith) requires i == p * c, d == q * c, p + 1 <= q, c >= 0; }
            else { assert(i >= d + n * c) by (nonlinear_arith) requires i == p * c, d == q * c, p >= q + n, c >= 0; }
            assert(t.at(a, b) =~= s.at(a, b));
        }
    }
}
} // verus!
fn main() {}
