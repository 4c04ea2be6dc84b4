#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::ops::{Range, RangeTo};
use core::marker::PhantomData;
use std::cmp;
verus! {
global size_of usize == 8;
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [core::option::Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o.is_some() ==> f.requires((o.unwrap(),)) ensures o.is_none() ==> !r, o.is_some() ==> f.ensures((o.unwrap(),), r);
//@include panics.vrs
// ---- stand-ins (assumed contracts) for the standard AsRef / AsMut of a sample container ----
pub trait AsRef<E> { spec fn sref(&self) -> Seq<E>; proof fn ref_len(&self) ensures self.sref().len() <= usize::MAX; fn as_ref(&self) -> (r: &[E]) ensures r@ == self.sref(); }
pub trait AsMut<E> { spec fn smut(&self) -> Seq<E>; proof fn mut_len(&self) ensures self.smut().len() <= usize::MAX; fn as_mut(&mut self) -> (r: &mut [E]) ensures r@ == old(self).smut(), final(r)@ == final(self).smut(), final(r)@.len() == r@.len(); }
pub trait Zero: Sized { fn zero() -> (r: Self); }
#[verifier::external_body]
fn panic_pixel_out_of_bounds(p: (u32, u32), bounds: (u32, u32)) -> ! { panic!() }
#[verifier::external_body]
pub fn vx_array256<T: Copy>(v: T) -> (r: [T; 256]) { [v; 256] }
pub trait Pixel: Copy + Clone {
    type Subpixel: Copy + Zero;
    spec fn cc() -> u8;
    fn channel_count() -> (r: u8) ensures r == Self::cc();
    spec fn chans(&self) -> Seq<Self::Subpixel>;
    fn from_slice(s: &[Self::Subpixel]) -> (r: &Self) requires s@.len() == Self::cc() ensures r.chans() == s@;
    fn from_slice_mut(s: &mut [Self::Subpixel]) -> (r: &mut Self)
        requires old(s)@.len() == Self::cc() ensures r.chans() == old(s)@, final(s)@ == final(r).chans();
    fn channels(&self) -> (r: &[Self::Subpixel]) ensures r@ == self.chans();
    proof fn chans_len(&self) ensures self.chans().len() == Self::cc();
    spec fn spec_blend(self, other: Self) -> Self;
    fn blend(&mut self, other: &Self) ensures *final(self) == old(self).spec_blend(*other);
}
#[verifier::external_body]
pub fn vx_idx_mut<T>(v: &mut [T], r: Range<usize>) -> (o: &mut [T])
    requires r.start <= r.end, r.end <= old(v)@.len(),
    ensures o@ == old(v)@.subrange(r.start as int, r.end as int), final(o)@.len() == r.end - r.start,
        final(v)@ == old(v)@.subrange(0, r.start as int) + final(o)@ + old(v)@.subrange(r.end as int, old(v)@.len() as int),
{ &mut v[r] }
#[verifier::external_body]
pub fn vx_upto<T>(v: &[T], n: usize) -> (o: &[T]) requires n <= v@.len(), ensures o@ == v@.subrange(0, n as int) { &v[..n] }
#[verifier::external_body]
pub fn vx_upto_mut<T>(v: &mut [T], n: usize) -> (o: &mut [T]) requires n <= old(v)@.len(), ensures o@ == old(v)@.subrange(0, n as int) { &mut v[..n] }
#[derive(Clone, Copy, Debug)]
pub struct ColorType { k: u8 }

//@item src/flat.rs struct FlatSamples vis=pub
//@item src/flat.rs struct SampleLayout vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/flat.rs struct Dim vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/flat.rs enum NormalForm vis=pub attrs="#[derive(Clone, Copy, Debug, PartialEq, Eq, Structural)]"
//@item src/flat.rs enum Error vis=pub attrs="#[derive(Debug)]"

impl Dim {
    pub closed spec fn st(&self) -> int { self.0 as int }
    pub closed spec fn ext(&self) -> int { self.1 as int }
    pub closed spec fn is(&self, a: usize, b: usize) -> bool { self.0 == a && self.1 == b }
//@fn src/flat.rs stride ctx="impl Dim" ret=res vis=pub
//@ spec
    ensures res == self.st(),
//@end
//@fn src/flat.rs checked_len ctx="impl Dim" ret=res vis=pub
//@ spec
    ensures res == (if self.st() * self.ext() <= usize::MAX { Some((self.st() * self.ext()) as usize) } else { None }),
//@end
//@fn src/flat.rs len ctx="impl Dim" ret=res vis=pub
//@ spec
    requires self.st() * self.ext() <= usize::MAX,
    ensures res == self.st() * self.ext(),
//@end
}
pub open spec fn perm3(g: Seq<Dim>, o: Seq<Dim>) -> bool {
    g.len() == 3 && o.len() == 3 && (
        (g[0] == o[0] && g[1] == o[1] && g[2] == o[2]) || (g[0] == o[0] && g[1] == o[2] && g[2] == o[1]) || (g[0] == o[1] && g[1] == o[0] && g[2] == o[2])
     || (g[0] == o[1] && g[1] == o[2] && g[2] == o[0]) || (g[0] == o[2] && g[1] == o[0] && g[2] == o[1]) || (g[0] == o[2] && g[1] == o[1] && g[2] == o[0]))
}
// slice::sort of the three dimensions with the derived (lexicographic) order, as documented by core
#[verifier::external_body]
fn vx_sort(g: &mut [Dim; 3])
    ensures perm3(final(g)@, old(g)@), final(g)@[0].st() <= final(g)@[1].st() <= final(g)@[2].st(),
{ unimplemented!() }
// Iterator::any over the three dimensions
#[verifier::external_body]
fn vx_any<F: Fn(&Dim) -> bool>(g: &[Dim; 3], f: F) -> (r: bool)
    requires forall|d: &Dim| f.requires((d,)),
    ensures r ==> f.ensures((&g@[0],), true) || f.ensures((&g@[1],), true) || f.ensures((&g@[2],), true),
        !r ==> f.ensures((&g@[0],), false) && f.ensures((&g@[1],), false) && f.ensures((&g@[2],), false),
{ unimplemented!() }

// index of a sample, without any bound on its size
pub open spec fn idx(l: SampleLayout, c: int, x: int, y: int) -> int { c * l.channel_stride + x * l.width_stride + y * l.height_stride }
pub open spec fn inb(l: SampleLayout, c: int, x: int, y: int) -> bool { 0 <= c < l.channels && 0 <= x < l.width && 0 <= y < l.height }
pub open spec fn empty(l: SampleLayout) -> bool { l.channels == 0 || l.width == 0 || l.height == 0 }
// one past the largest index
pub open spec fn need(l: SampleLayout) -> int { if empty(l) { 0 } else { idx(l, l.channels - 1, l.width - 1, l.height - 1) + 1 } }
pub open spec fn injective(l: SampleLayout) -> bool {
    forall|c: int, x: int, y: int, c2: int, x2: int, y2: int| #![trigger idx(l, c, x, y), idx(l, c2, x2, y2)]
        inb(l, c, x, y) && inb(l, c2, x2, y2) && idx(l, c, x, y) == idx(l, c2, x2, y2) ==> c == c2 && x == x2 && y == y2
}
pub open spec fn smin(a: int, b: int) -> int { if a < b { a } else { b } }
// every in-bounds index is below the minimum length, and that bound is tight
pub proof fn lemma_need(l: SampleLayout, c: int, x: int, y: int)
    requires inb(l, c, x, y) ensures 0 <= idx(l, c, x, y) < need(l), 0 <= c * l.channel_stride, 0 <= x * l.width_stride, 0 <= y * l.height_stride
{
    assert(0 <= c * l.channel_stride <= (l.channels - 1) * l.channel_stride) by (nonlinear_arith) requires 0 <= c <= l.channels - 1, l.channel_stride >= 0;
    assert(0 <= x * l.width_stride <= (l.width - 1) * l.width_stride) by (nonlinear_arith) requires 0 <= x <= l.width - 1, l.width_stride >= 0;
    assert(0 <= y * l.height_stride <= (l.height - 1) * l.height_stride) by (nonlinear_arith) requires 0 <= y <= l.height - 1, l.height_stride >= 0;
}
proof fn lemma_pos(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
// mixed radix: three increasing strides, each walking over all of the lower dimension
pub open spec fn radix(s0: int, n0: int, s1: int, n1: int, s2: int, n2: int) -> bool {
    0 <= s0 && 0 <= s1 && 0 <= s2 && s0 * n0 <= s1 && s1 * n1 <= s2 && (s0 == 0 ==> n0 <= 1) && (s1 == 0 ==> n1 <= 1) && (s2 == 0 ==> n2 <= 1)
}
proof fn lemma_lt(s0: int, n0: int, s1: int, n1: int, s2: int, n2: int, i0: int, i1: int, i2: int, j0: int, j1: int, j2: int)
    requires radix(s0, n0, s1, n1, s2, n2), 0 <= i0 < n0, 0 <= i1 < n1, 0 <= i2 < n2, 0 <= j0 < n0, 0 <= j1 < n1, 0 <= j2 < n2,
        i2 < j2 || (i2 == j2 && (i1 < j1 || (i1 == j1 && i0 < j0)))
    ensures i0 * s0 + i1 * s1 + i2 * s2 < j0 * s0 + j1 * s1 + j2 * s2
{
    lemma_pos(j0, s0); lemma_pos(j1, s1); lemma_pos(i0, s0); lemma_pos(i1, s1);
    assert(i0 * s0 <= (n0 - 1) * s0) by (nonlinear_arith) requires i0 <= n0 - 1, s0 >= 0;
    assert((n0 - 1) * s0 == s0 * n0 - s0) by (nonlinear_arith);
    assert(i1 * s1 <= (n1 - 1) * s1) by (nonlinear_arith) requires i1 <= n1 - 1, s1 >= 0;
    assert((n1 - 1) * s1 == s1 * n1 - s1) by (nonlinear_arith);
    if s0 == 0 { assert(i0 * s0 == 0) by (nonlinear_arith) requires s0 == 0; }
    if s1 == 0 { assert(i1 * s1 == 0) by (nonlinear_arith) requires s1 == 0; }
    if i2 < j2 { assert(i2 * s2 + s2 <= j2 * s2) by (nonlinear_arith) requires i2 + 1 <= j2, s2 >= 0; }
    else if i1 < j1 { assert(i1 * s1 + s1 <= j1 * s1) by (nonlinear_arith) requires i1 + 1 <= j1, s1 >= 0; }
    else { assert(i0 * s0 + s0 <= j0 * s0) by (nonlinear_arith) requires i0 + 1 <= j0, s0 >= 0; }
}
// uniqueness, whatever the order in which strides were sorted
pub open spec fn dims(l: SampleLayout) -> Seq<Dim> { seq![Dim::mk(l.channel_stride, l.channels as usize), Dim::mk(l.width_stride, l.width as usize), Dim::mk(l.height_stride, l.height as usize)] }
impl Dim { pub closed spec fn mk(a: usize, b: usize) -> Dim { Dim(a, b) } }
proof fn lemma_order(s0: int, n0: int, s1: int, n1: int, s2: int, n2: int, i0: int, i1: int, i2: int, j0: int, j1: int, j2: int)
    requires radix(s0, n0, s1, n1, s2, n2), 0 <= i0 < n0, 0 <= i1 < n1, 0 <= i2 < n2, 0 <= j0 < n0, 0 <= j1 < n1, 0 <= j2 < n2,
        i0 * s0 + i1 * s1 + i2 * s2 == j0 * s0 + j1 * s1 + j2 * s2
    ensures i0 == j0, i1 == j1, i2 == j2
{
    if i2 < j2 || (i2 == j2 && (i1 < j1 || (i1 == j1 && i0 < j0))) { lemma_lt(s0, n0, s1, n1, s2, n2, i0, i1, i2, j0, j1, j2); }
    else if !(i2 == j2 && i1 == j1 && i0 == j0) { lemma_lt(s0, n0, s1, n1, s2, n2, j0, j1, j2, i0, i1, i2); }
}
proof fn lemma_injective(l: SampleLayout, g: Seq<Dim>)
    requires perm3(g, dims(l)), radix(g[0].st(), g[0].ext(), g[1].st(), g[1].ext(), g[2].st(), g[2].ext())
    ensures injective(l)
{
    assert forall|c: int, x: int, y: int, c2: int, x2: int, y2: int| #![trigger idx(l, c, x, y), idx(l, c2, x2, y2)]
        inb(l, c, x, y) && inb(l, c2, x2, y2) && idx(l, c, x, y) == idx(l, c2, x2, y2) implies c == c2 && x == x2 && y == y2 by {
        let o = dims(l);
        let (s0, n0, s1, n1, s2, n2) = (g[0].st(), g[0].ext(), g[1].st(), g[1].ext(), g[2].st(), g[2].ext());
        if g[0] == o[0] && g[1] == o[1] && g[2] == o[2] { lemma_order(s0, n0, s1, n1, s2, n2, c, x, y, c2, x2, y2); }
        else if g[0] == o[0] && g[1] == o[2] && g[2] == o[1] { lemma_order(s0, n0, s1, n1, s2, n2, c, y, x, c2, y2, x2); }
        else if g[0] == o[1] && g[1] == o[0] && g[2] == o[2] { lemma_order(s0, n0, s1, n1, s2, n2, x, c, y, x2, c2, y2); }
        else if g[0] == o[1] && g[1] == o[2] && g[2] == o[0] { lemma_order(s0, n0, s1, n1, s2, n2, x, y, c, x2, y2, c2); }
        else if g[0] == o[2] && g[1] == o[0] && g[2] == o[1] { lemma_order(s0, n0, s1, n1, s2, n2, y, c, x, y2, c2, x2); }
        else { lemma_order(s0, n0, s1, n1, s2, n2, y, x, c, y2, x2, c2); }
    }
}
proof fn lemma_injective_any(l: SampleLayout)
    ensures forall|g: Seq<Dim>| #[trigger] perm3(g, dims(l)) && radix(g[0].st(), g[0].ext(), g[1].st(), g[1].ext(), g[2].st(), g[2].ext()) ==> injective(l)
{
    assert forall|g: Seq<Dim>| #[trigger] perm3(g, dims(l)) && radix(g[0].st(), g[0].ext(), g[1].st(), g[1].ext(), g[2].st(), g[2].ext()) implies injective(l) by { lemma_injective(l, g); }
}
impl SampleLayout {
//@fn src/flat.rs row_major_packed ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res.channels == $n0, res.width == $n1, res.height == $n2, res.channel_stride == 1, res.width_stride == $n0, res.height_stride == $n0 * $n1,
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound($n0 as int, 255, $n1 as int, u32::MAX as int); }
//@end
//@fn src/flat.rs column_major_packed ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res.channels == $n0, res.width == $n1, res.height == $n2, res.channel_stride == 1, res.height_stride == $n0, res.width_stride == $n0 * $n2,
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound($n0 as int, 255, $n2 as int, u32::MAX as int); }
//@end
//@fn src/flat.rs strides_cwh ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res.0 == self.channel_stride, res.1 == self.width_stride, res.2 == self.height_stride,
//@end
//@fn src/flat.rs extents ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res.0 == self.channels, res.1 == self.width, res.2 == self.height,
//@end
//@fn src/flat.rs bounds ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res.0 == self.channels, res.1 == self.width, res.2 == self.height,
//@end
//@fn src/flat.rs min_length ctx="impl SampleLayout" ret=res vis=pub
//@ closure 0 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 + 1 <= usize::MAX { Some(($p0 + 1) as usize) } else { None })
//@ spec
    ensures res == (if need(*self) <= usize::MAX { Some(need(*self) as usize) } else { None }),
//@ at body.start
    proof { if !empty(*self) { lemma_need(*self, self.channels - 1, self.width - 1, self.height - 1); } }
//@end
//@fn src/flat.rs fits ctx="impl SampleLayout" ret=res vis=pub
//@ closure 0 (usize) -> (cr: bool)
    ensures cr == ($p0 <= len)
//@ spec
    ensures res <==> need(*self) <= $n0,
//@end
//@fn src/flat.rs in_bounds ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res <==> inb(*self, $n0 as int, $n1 as int, $n2 as int),
//@end
//@fn src/flat.rs index ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    ensures res.is_some() <==> inb(*self, $n0 as int, $n1 as int, $n2 as int) && idx(*self, $n0 as int, $n1 as int, $n2 as int) <= usize::MAX,
        res.is_some() ==> res.unwrap() == idx(*self, $n0 as int, $n1 as int, $n2 as int) && res.unwrap() < need(*self),
//@ at body.start
    proof { if inb(*self, $n0 as int, $n1 as int, $n2 as int) { lemma_need(*self, $n0 as int, $n1 as int, $n2 as int); } }
//@end
//@fn src/flat.rs index_ignoring_bounds ctx="impl SampleLayout" ret=res vis=pub
//@ closure 0 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 + idx_c <= usize::MAX { Some(($p0 + idx_c) as usize) } else { None })
//@ closure 1 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 + idx_x <= usize::MAX { Some(($p0 + idx_x) as usize) } else { None })
//@ closure 2 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 + idx_y <= usize::MAX { Some(($p0 + idx_y) as usize) } else { None })
//@ spec
    ensures res == (if idx(*self, $n0 as int, $n1 as int, $n2 as int) <= usize::MAX { Some(idx(*self, $n0 as int, $n1 as int, $n2 as int) as usize) } else { None }),
//@ at body.start
    proof { lemma_pos($n0 as int, self.channel_stride as int); lemma_pos($n1 as int, self.width_stride as int); lemma_pos($n2 as int, self.height_stride as int); }
//@end
//@fn src/flat.rs in_bounds_index ctx="impl SampleLayout" ret=res vis=pub
//@ spec
    requires inb(*self, $n0 as int, $n1 as int, $n2 as int), need(*self) <= usize::MAX,
    ensures res == idx(*self, $n0 as int, $n1 as int, $n2 as int), res < need(*self),
//@ at body.start
    proof { lemma_need(*self, $n0 as int, $n1 as int, $n2 as int); }
//@end
//@fn src/flat.rs shrink_to ctx="impl SampleLayout" vis=pub
//@ subst? `self.channels.min(channels)` => `cmp::min(self.channels, channels)`
//@ subst? `self.width.min(width)` => `cmp::min(self.width, width)`
//@ subst? `self.height.min(height)` => `cmp::min(self.height, height)`
//@ spec
    ensures final(self).channels == smin(old(self).channels as int, $n0 as int), final(self).width == smin(old(self).width as int, $n1 as int), final(self).height == smin(old(self).height as int, $n2 as int),
        final(self).channel_stride == old(self).channel_stride, final(self).width_stride == old(self).width_stride, final(self).height_stride == old(self).height_stride,
//@end
//@fn src/flat.rs increasing_stride_dims ctx="impl SampleLayout" ret=res
//@ panics forbid
//@ subst? `grouped.sort()` => `vx_sort(&mut grouped)`
//@ spec
    ensures perm3(res@, dims(*self)), res@[0].st() <= res@[1].st() <= res@[2].st(),
//@end
//@fn src/flat.rs has_aliased_samples ctx="impl SampleLayout" ret=res vis=pub
//@ subst? `grouped.iter().any($A)` => `vx_any(&grouped, $A)`
//@ closure 0 (&Dim) -> (cr: bool)
    ensures cr == ($p0.st() == 0 && $p0.ext() > 1)
//@ spec
    ensures !res ==> injective(*self), !res ==> no_overflow(*self),
//@ at body.start
    proof { lemma_injective_any(*self); }
//@end
//@fn src/flat.rs is_normal ctx="impl SampleLayout" ret=res vis=pub
//@ subst? `form >= NormalForm::PixelPacked` => `vx_ge(form, NormalForm::PixelPacked)`
//@ subst? `form >= NormalForm::ImagePacked` => `vx_ge(form, NormalForm::ImagePacked)`
//@ subst? `form >= NormalForm::RowMajorPacked` => `vx_ge(form, NormalForm::RowMajorPacked)`
//@ subst? `form >= NormalForm::ColumnMajorPacked` => `vx_ge(form, NormalForm::ColumnMajorPacked)`
//@ spec
    ensures res ==> injective(*self),
        res && ge($n0, NormalForm::PixelPacked) ==> self.channel_stride == 1,
        res && $n0 == NormalForm::RowMajorPacked ==> self.width_stride == self.channels && self.height_stride == self.channels * self.width,
        res && $n0 == NormalForm::ColumnMajorPacked ==> self.height_stride == self.channels && self.width_stride == self.channels * self.height,
//@end
}
pub open spec fn no_overflow(l: SampleLayout) -> bool { dims(l)[0].st() * dims(l)[0].ext() <= usize::MAX && dims(l)[1].st() * dims(l)[1].ext() <= usize::MAX && dims(l)[2].st() * dims(l)[2].ext() <= usize::MAX }
// Ordering
pub open spec fn cmp_of(a: NormalForm, b: NormalForm) -> Option<cmp::Ordering> {
    if a == b { Some(cmp::Ordering::Equal) } else if ge(a, b) { Some(cmp::Ordering::Greater) } else if ge(b, a) { Some(cmp::Ordering::Less) } else { None }
}
impl NormalForm {
//@fn src/flat.rs partial_cmp ctx="PartialOrd for NormalForm" ret=res vis=pub
//@ spec
    ensures res == cmp_of(*self, *$n0),
//@end
}
// `a >= b` as the language defines it from partial_cmp
fn vx_ge(a: NormalForm, b: NormalForm) -> (r: bool) ensures r == ge(a, b) { match a.partial_cmp(&b) { Some(cmp::Ordering::Greater) => true, Some(cmp::Ordering::Equal) => true, _ => false } }
pub open spec fn ge(a: NormalForm, b: NormalForm) -> bool {
    a == b || b == NormalForm::Unaliased || ((a == NormalForm::RowMajorPacked || a == NormalForm::ColumnMajorPacked) && (b == NormalForm::PixelPacked || b == NormalForm::ImagePacked))
}

impl<Buffer> FlatSamples<Buffer> {
//@fn src/flat.rs strides_cwh ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res.0 == self.layout.channel_stride, res.1 == self.layout.width_stride, res.2 == self.layout.height_stride,
//@end
//@fn src/flat.rs extents ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res.0 == self.layout.channels, res.1 == self.layout.width, res.2 == self.layout.height,
//@end
//@fn src/flat.rs bounds ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res.0 == self.layout.channels, res.1 == self.layout.width, res.2 == self.layout.height,
//@end
//@fn src/flat.rs min_length ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res == (if need(self.layout) <= usize::MAX { Some(need(self.layout) as usize) } else { None }),
//@end
//@fn src/flat.rs fits ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res <==> need(self.layout) <= $n0,
//@end
//@fn src/flat.rs has_aliased_samples ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures !res ==> injective(self.layout),
//@end
//@fn src/flat.rs is_normal ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res ==> injective(self.layout), res && ge($n0, NormalForm::PixelPacked) ==> self.layout.channel_stride == 1,
        res && $n0 == NormalForm::RowMajorPacked ==> self.layout.width_stride == self.layout.channels && self.layout.height_stride == self.layout.channels * self.layout.width,
//@end
//@fn src/flat.rs in_bounds ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res <==> inb(self.layout, $n0 as int, $n1 as int, $n2 as int),
//@end
//@fn src/flat.rs index ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res.is_some() <==> inb(self.layout, $n0 as int, $n1 as int, $n2 as int) && idx(self.layout, $n0 as int, $n1 as int, $n2 as int) <= usize::MAX,
        res.is_some() ==> res.unwrap() == idx(self.layout, $n0 as int, $n1 as int, $n2 as int) && res.unwrap() < need(self.layout),
//@end
//@fn src/flat.rs index_ignoring_bounds ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    ensures res == (if idx(self.layout, $n0 as int, $n1 as int, $n2 as int) <= usize::MAX { Some(idx(self.layout, $n0 as int, $n1 as int, $n2 as int) as usize) } else { None }),
//@end
//@fn src/flat.rs in_bounds_index ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ spec
    requires inb(self.layout, $n0 as int, $n1 as int, $n2 as int), need(self.layout) <= usize::MAX,
    ensures res == idx(self.layout, $n0 as int, $n1 as int, $n2 as int), res < need(self.layout),
//@end
//@fn src/flat.rs shrink_to ctx="impl < Buffer > FlatSamples < Buffer >" vis=pub
//@ spec
    ensures final(self).layout.channels == smin(old(self).layout.channels as int, $n0 as int), final(self).layout.width == smin(old(self).layout.width as int, $n1 as int), final(self).layout.height == smin(old(self).layout.height as int, $n2 as int),
        final(self).layout.channel_stride == old(self).layout.channel_stride, final(self).layout.width_stride == old(self).layout.width_stride, final(self).layout.height_stride == old(self).layout.height_stride, final(self).samples == old(self).samples,
//@end
//@fn src/flat.rs get_sample ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `AsRef<[T]>` => `AsRef<T>`
//@ closure 0 (usize) -> (cr: Option<&T>)
    ensures cr == (if $p0 < self.samples.sref().len() { Some(&self.samples.sref()[$p0 as int]) } else { None })
//@ spec
    ensures res.is_some() <==> inb(self.layout, $n0 as int, $n1 as int, $n2 as int) && idx(self.layout, $n0 as int, $n1 as int, $n2 as int) < self.samples.sref().len(),
        res.is_some() ==> *res.unwrap() == self.samples.sref()[idx(self.layout, $n0 as int, $n1 as int, $n2 as int)],
//@ at body.start
    proof { self.samples.ref_len(); if inb(self.layout, $n0 as int, $n1 as int, $n2 as int) { lemma_need(self.layout, $n0 as int, $n1 as int, $n2 as int); } }
//@end
//@fn src/flat.rs get_mut_sample ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `AsMut<[T]>` => `AsMut<T>`
//@ spec
    ensures res.is_some() <==> inb(old(self).layout, $n0 as int, $n1 as int, $n2 as int) && idx(old(self).layout, $n0 as int, $n1 as int, $n2 as int) < old(self).samples.smut().len(),
        res.is_some() ==> *res.unwrap() == old(self).samples.smut()[idx(old(self).layout, $n0 as int, $n1 as int, $n2 as int)],
        res.is_some() ==> final(self).samples.smut() == old(self).samples.smut().update(idx(old(self).layout, $n0 as int, $n1 as int, $n2 as int), *final(res.unwrap())),
//@ at body.start
    proof { self.samples.mut_len(); if inb(self.layout, $n0 as int, $n1 as int, $n2 as int) { lemma_need(self.layout, $n0 as int, $n1 as int, $n2 as int); } }
//@end
//@fn src/flat.rs image_slice ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `AsRef<[T]>` => `AsRef<T>`
//@ subst? `&slice[..$A]` => `vx_upto(slice, $A)`
//@ spec
    ensures res.is_some() <==> need(self.layout) <= self.samples.sref().len(),
        res.is_some() ==> res.unwrap()@ == self.samples.sref().subrange(0, need(self.layout)),
//@ at body.start
    proof { self.samples.ref_len(); }
//@end
//@fn src/flat.rs image_mut_slice ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `AsMut<[T]>` => `AsMut<T>`
//@ subst? `&mut slice[..$A]` => `vx_upto_mut(slice, $A)`
//@ spec
    ensures res.is_some() <==> need(old(self).layout) <= old(self).samples.smut().len(),
        res.is_some() ==> res.unwrap()@ == old(self).samples.smut().subrange(0, need(old(self).layout)),
//@ at body.start
    proof { self.samples.mut_len(); }
//@end
//@fn src/flat.rs as_view ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `View` => `FView`
//@ subst `View` => `FView`
//@ sigsubst `AsRef<[P::Subpixel]>` => `AsRef<P::Subpixel>`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ spec
    // a view exists exactly when the pixel type fits and every sample of the layout is inside the buffer
    ensures res.is_ok() <==> self.layout.channels == P::cc() && need(self.layout) <= self.samples.sref().len(),
        res.is_ok() ==> res.unwrap().lay() == self.layout && res.unwrap().buf()@ == self.samples.sref(),
//@end
//@fn src/flat.rs as_view_with_mut_samples ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ sigsubst `View` => `FView`
//@ subst `View` => `FView`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ spec
    ensures res.is_ok() <==> old(self).layout.channels == P::cc() && need(old(self).layout) <= old(self).samples.smut().len(),
        res.is_ok() ==> res.unwrap().lay() == old(self).layout && res.unwrap().buf()@ == old(self).samples.smut(),
//@end
//@fn src/flat.rs as_view_mut ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ sigsubst `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ spec
    // mutable views are only given over layouts without aliasing whose pixels are contiguous
    ensures res.is_ok() ==> old(self).layout.channels == P::cc() && need(old(self).layout) <= old(self).samples.smut().len()
            && injective(old(self).layout) && old(self).layout.channel_stride == 1,
        res.is_ok() ==> res.unwrap().lay() == old(self).layout && res.unwrap().buf()@ == old(self).samples.smut(),
//@end
}
pub struct FView<Buffer, P: Pixel> { inner: FlatSamples<Buffer>, phantom: PhantomData<P> }
pub struct ViewMut<Buffer, P: Pixel> { inner: FlatSamples<Buffer>, phantom: PhantomData<P> }
impl<Buffer, P: Pixel> FView<Buffer, P> { pub closed spec fn lay(&self) -> SampleLayout { self.inner.layout } pub closed spec fn buf(&self) -> Buffer { self.inner.samples } }
impl<Buffer, P: Pixel> ViewMut<Buffer, P> { pub closed spec fn lay(&self) -> SampleLayout { self.inner.layout } pub closed spec fn buf(&self) -> Buffer { self.inner.samples } }
impl<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel> FView<Buffer, P> {
//@fn src/flat.rs into_inner ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ spec
    ensures res.layout == self.lay(), res.samples == self.buf(),
//@end
//@fn src/flat.rs flat ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ spec
    ensures res.layout == self.lay(), res.samples == self.buf(),
//@end
//@fn src/flat.rs samples ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ spec
    ensures *res == self.buf(),
//@end
//@fn src/flat.rs min_length ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ spec
    requires need(self.lay()) <= usize::MAX,
    ensures res == need(self.lay()),
//@end
//@fn src/flat.rs get_sample ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsRef<[P::Subpixel]>` => `AsRef<P::Subpixel>`
//@ at body.start
    proof { if inb(self.inner.layout, $n0 as int, $n1 as int, $n2 as int) { lemma_need(self.inner.layout, $n0 as int, $n1 as int, $n2 as int); } }
//@ spec
    requires need(self.lay()) <= self.buf().sref().len(), self.lay().channels == P::cc(), need(self.lay()) <= usize::MAX,
    ensures res.is_some() <==> inb(self.lay(), $n0 as int, $n1 as int, $n2 as int),
        res.is_some() ==> *res.unwrap() == self.buf().sref()[idx(self.lay(), $n0 as int, $n1 as int, $n2 as int)],
//@end
//@fn src/flat.rs get_mut_sample ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ at body.start
    proof { if inb(self.inner.layout, $n0 as int, $n1 as int, $n2 as int) { lemma_need(self.inner.layout, $n0 as int, $n1 as int, $n2 as int); } }
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), old(self).lay().channels == P::cc(), need(old(self).lay()) <= usize::MAX,
    ensures res.is_some() <==> inb(old(self).lay(), $n0 as int, $n1 as int, $n2 as int),
        res.is_some() ==> *res.unwrap() == old(self).buf().smut()[idx(old(self).lay(), $n0 as int, $n1 as int, $n2 as int)],
        res.is_some() ==> final(self).lay() == old(self).lay() && final(self).buf().smut() == old(self).buf().smut().update(idx(old(self).lay(), $n0 as int, $n1 as int, $n2 as int), *final(res.unwrap())),
//@end
//@fn src/flat.rs image_slice ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsRef<[P::Subpixel]>` => `AsRef<P::Subpixel>`
//@ subst? `&self.samples().as_ref()[..$A]` => `vx_upto(self.samples().as_ref(), $A)`
//@ subst? `&self.inner.samples.as_ref()[..$A]` => `vx_upto(self.inner.samples.as_ref(), $A)`
//@ spec
    requires need(self.lay()) <= self.buf().sref().len(), self.lay().channels == P::cc(), need(self.lay()) <= usize::MAX,
    ensures res@ == self.buf().sref().subrange(0, need(self.lay())),
//@end
//@fn src/flat.rs image_mut_slice ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ subst? `&mut self.inner.samples.as_mut()[..$A]` => `vx_upto_mut(self.inner.samples.as_mut(), $A)`
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), old(self).lay().channels == P::cc(), need(old(self).lay()) <= usize::MAX,
    ensures res@ == old(self).buf().smut().subrange(0, need(old(self).lay())),
//@end
//@fn src/flat.rs shrink_to ctx="impl < Buffer , P : Pixel > View < Buffer , P >" vis=pub
//@ at body.end
    proof { lemma_shrink(old(self).inner.layout, self.inner.layout); }
//@ spec
    ensures final(self).buf() == old(self).buf(), final(self).lay() == (SampleLayout { width: smin(old(self).lay().width as int, $n0 as int) as u32, height: smin(old(self).lay().height as int, $n1 as int) as u32, ..old(self).lay() }),
        need(final(self).lay()) <= need(old(self).lay()), final(self).lay().channels == old(self).lay().channels,
//@end
}
impl<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel> ViewMut<Buffer, P> {
//@fn src/flat.rs into_inner ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ spec
    ensures res.layout == self.lay(), res.samples == self.buf(),
//@end
//@fn src/flat.rs flat ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ spec
    ensures res.layout == self.lay(), res.samples == self.buf(),
//@end
//@fn src/flat.rs samples ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ spec
    ensures *res == self.buf(),
//@end
//@fn src/flat.rs min_length ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ spec
    requires need(self.lay()) <= usize::MAX,
    ensures res == need(self.lay()),
//@end
//@fn src/flat.rs get_sample ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsRef<[P::Subpixel]>` => `AsRef<P::Subpixel>`
//@ at body.start
    proof { if inb(self.inner.layout, $n0 as int, $n1 as int, $n2 as int) { lemma_need(self.inner.layout, $n0 as int, $n1 as int, $n2 as int); } }
//@ spec
    requires need(self.lay()) <= self.buf().sref().len(), self.lay().channels == P::cc(), need(self.lay()) <= usize::MAX,
    ensures res.is_some() <==> inb(self.lay(), $n0 as int, $n1 as int, $n2 as int),
        res.is_some() ==> *res.unwrap() == self.buf().sref()[idx(self.lay(), $n0 as int, $n1 as int, $n2 as int)],
//@end
//@fn src/flat.rs get_mut_sample ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ at body.start
    proof { if inb(self.inner.layout, $n0 as int, $n1 as int, $n2 as int) { lemma_need(self.inner.layout, $n0 as int, $n1 as int, $n2 as int); } }
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), old(self).lay().channels == P::cc(), need(old(self).lay()) <= usize::MAX,
    ensures res.is_some() <==> inb(old(self).lay(), $n0 as int, $n1 as int, $n2 as int),
        res.is_some() ==> *res.unwrap() == old(self).buf().smut()[idx(old(self).lay(), $n0 as int, $n1 as int, $n2 as int)],
        res.is_some() ==> final(self).lay() == old(self).lay() && final(self).buf().smut() == old(self).buf().smut().update(idx(old(self).lay(), $n0 as int, $n1 as int, $n2 as int), *final(res.unwrap())),
//@end
//@fn src/flat.rs image_slice ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsRef<[P::Subpixel]>` => `AsRef<P::Subpixel>`
//@ subst? `&self.samples().as_ref()[..$A]` => `vx_upto(self.samples().as_ref(), $A)`
//@ subst? `&self.inner.samples.as_ref()[..$A]` => `vx_upto(self.inner.samples.as_ref(), $A)`
//@ spec
    requires need(self.lay()) <= self.buf().sref().len(), self.lay().channels == P::cc(), need(self.lay()) <= usize::MAX,
    ensures res@ == self.buf().sref().subrange(0, need(self.lay())),
//@end
//@fn src/flat.rs image_mut_slice ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" ret=res vis=pub
//@ sigsubst? `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ subst? `&mut self.inner.samples.as_mut()[..$A]` => `vx_upto_mut(self.inner.samples.as_mut(), $A)`
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), old(self).lay().channels == P::cc(), need(old(self).lay()) <= usize::MAX,
    ensures res@ == old(self).buf().smut().subrange(0, need(old(self).lay())),
//@end
//@fn src/flat.rs shrink_to ctx="impl < Buffer , P : Pixel > ViewMut < Buffer , P >" vis=pub
//@ at body.end
    proof { lemma_shrink(old(self).inner.layout, self.inner.layout); }
//@ spec
    ensures final(self).buf() == old(self).buf(), final(self).lay() == (SampleLayout { width: smin(old(self).lay().width as int, $n0 as int) as u32, height: smin(old(self).lay().height as int, $n1 as int) as u32, ..old(self).lay() }),
        need(final(self).lay()) <= need(old(self).lay()), final(self).lay().channels == old(self).lay().channels,
//@end
}
impl<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel> FView<Buffer, P> {
//@fn src/flat.rs dimensions ctx="GenericImageView for View < Buffer , P >" ret=res vis=pub
//@ spec
    ensures res.0 == self.lay().width, res.1 == self.lay().height,
//@end
//@fn src/flat.rs get_pixel ctx="GenericImageView for View < Buffer , P >" ret=res vis=pub
//@ sigsubst `Self::Pixel` => `P`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `[Zero::zero(); 256]` => `vx_array256(Zero::zero())`
//@ subst? `buffer.iter_mut().enumerate().take(channels).for_each(|(c, to)| {$A});` => `for c in 0..channels { let to = &mut buffer[c]; $A }`
//@ subst? `&buffer[..$A]` => `vx_upto(&buffer, $A)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    // the pixel's channels are the samples the layout denotes; outside the bounds it does not return
    requires need(self.lay()) <= self.buf().sref().len(), need(self.lay()) <= usize::MAX, self.lay().channels == P::cc(),
    ensures $n0 < self.lay().width, $n1 < self.lay().height, res.chans().len() == P::cc(),
        forall|c: int| 0 <= c < P::cc() ==> #[trigger] res.chans()[c] == self.buf().sref()[idx(self.lay(), c, $n0 as int, $n1 as int)],
//@ loop 0 for
    invariant forall|k: int| 0 <= k < $v0 ==> #[trigger] buffer@[k] == self.buf().sref()[idx(self.lay(), k, $n0 as int, $n1 as int)],
//@ at loop0.start
    proof { lemma_need(self.inner.layout, $v0 as int, $n0 as int, $n1 as int); }
//@end
}
impl<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel> ViewMut<Buffer, P> {
//@fn src/flat.rs dimensions ctx="GenericImageView for ViewMut < Buffer , P >" ret=res vis=pub
//@ spec
    ensures res.0 == self.lay().width, res.1 == self.lay().height,
//@end
//@fn src/flat.rs get_pixel ctx="GenericImageView for ViewMut < Buffer , P >" ret=res vis=pub
//@ sigsubst `Self::Pixel` => `P`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `[Zero::zero(); 256]` => `vx_array256(Zero::zero())`
//@ subst? `buffer.iter_mut().enumerate().take(channels).for_each(|(c, to)| {$A});` => `for c in 0..channels { let to = &mut buffer[c]; $A }`
//@ subst? `&buffer[..$A]` => `vx_upto(&buffer, $A)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    // the pixel's channels are the samples the layout denotes; outside the bounds it does not return
    requires need(self.lay()) <= self.buf().sref().len(), need(self.lay()) <= usize::MAX, self.lay().channels == P::cc(),
    ensures $n0 < self.lay().width, $n1 < self.lay().height, res.chans().len() == P::cc(),
        forall|c: int| 0 <= c < P::cc() ==> #[trigger] res.chans()[c] == self.buf().sref()[idx(self.lay(), c, $n0 as int, $n1 as int)],
//@ loop 0 for
    invariant forall|k: int| 0 <= k < $v0 ==> #[trigger] buffer@[k] == self.buf().sref()[idx(self.lay(), k, $n0 as int, $n1 as int)],
//@ at loop0.start
    proof { lemma_need(self.inner.layout, $v0 as int, $n0 as int, $n1 as int); }
//@end
}
impl<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel> ViewMut<Buffer, P> {
//@fn src/flat.rs get_pixel_mut ctx="GenericImage for ViewMut < Buffer , P >" ret=res vis=pub
//@ sigsubst `Self::Pixel` => `P`
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `&mut self.inner.samples.as_mut()[$A]` => `vx_idx_mut(self.inner.samples.as_mut(), $A)`
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), need(old(self).lay()) <= usize::MAX, old(self).lay().channels == P::cc(), old(self).lay().channel_stride == 1,
    ensures $n0 < old(self).lay().width, $n1 < old(self).lay().height, final(self).lay() == old(self).lay(),
        ({ let b = idx(old(self).lay(), 0, $n0 as int, $n1 as int); let s = old(self).buf().smut();
           b + P::cc() <= s.len() && res.chans() == s.subrange(b, b + P::cc()) && final(self).buf().smut() == s.subrange(0, b) + final(res).chans() + s.subrange(b + P::cc(), s.len() as int) }),
//@ at body.start
    proof { if inb(self.inner.layout, 0, $n0 as int, $n1 as int) { lemma_need(self.inner.layout, 0, $n0 as int, $n1 as int); lemma_need(self.inner.layout, P::cc() - 1, $n0 as int, $n1 as int); } }
//@end
}
impl<Buffer, P: Pixel> ViewMut<Buffer, P> where Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel> {
//@fn src/flat.rs put_pixel ctx="GenericImage for ViewMut < Buffer , P >" vis=pub
//@ sigsubst `Self::Pixel` => `P`
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), need(old(self).lay()) <= usize::MAX, old(self).lay().channels == P::cc(), old(self).lay().channel_stride == 1,
    ensures $n0 < old(self).lay().width, $n1 < old(self).lay().height, final(self).lay() == old(self).lay(), put_at(*old(self), *final(self), $n0, $n1, $n2),
//@end
//@fn src/flat.rs blend_pixel ctx="GenericImage for ViewMut < Buffer , P >" vis=pub
//@ sigsubst `Self::Pixel` => `P`
//@ spec
    requires need(old(self).lay()) <= old(self).buf().smut().len(), need(old(self).lay()) <= usize::MAX, old(self).lay().channels == P::cc(), old(self).lay().channel_stride == 1,
    ensures $n0 < old(self).lay().width, $n1 < old(self).lay().height, final(self).lay() == old(self).lay(),
        exists|a: P| #[trigger] a.chans() == old(self).buf().smut().subrange(idx(old(self).lay(), 0, $n0 as int, $n1 as int), idx(old(self).lay(), 0, $n0 as int, $n1 as int) + P::cc())
            && put_at(*old(self), *final(self), $n0, $n1, a.spec_blend($n2)),
//@end
}
// storing a pixel changes the samples of that pixel and no other
pub open spec fn put_at<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel>(a: ViewMut<Buffer, P>, b: ViewMut<Buffer, P>, x: u32, y: u32, p: P) -> bool {
    let o = idx(a.lay(), 0, x as int, y as int); let s = a.buf().smut();
    b.buf().smut() == s.subrange(0, o) + p.chans() + s.subrange(o + P::cc(), s.len() as int)
}
impl<Buffer: AsRef<P::Subpixel> + AsMut<P::Subpixel>, P: Pixel> FView<Buffer, P> {
//@fn src/flat.rs try_upgrade ctx="impl < Buffer , P : Pixel > View < Buffer , P >" ret=res vis=pub
//@ sigsubst `AsMut<[P::Subpixel]>` => `AsMut<P::Subpixel>`
//@ spec
    // the upgrade hands over the same image, and only over layouts a mutable view may have
    ensures res matches Ok(vxv) ==> (vxv.lay() == self.lay() && vxv.buf() == self.buf() && injective(self.lay()) && self.lay().channel_stride == 1),
        res matches Err(vxe) ==> vxe.1 == self,
//@end
}
impl<Buffer> FlatSamples<Buffer> {
//@fn src/flat.rs index ctx="Index < \( u8 , u32 , u32 \) > for FlatSamples" as=vx_at ret=res vis=pub
//@ panics allow
//@ sigsubst `index` => `index<T>`
//@ sigsubst `(c, x, y): (u8, u32, u32)` => `c: u8, x: u32, y: u32`
//@ sigsubst `&Self::Output` => `&T where Buffer: AsRef<T>`
//@ subst? `self.index(c, x, y).unwrap_or_else($A)` => `vx_or_panic(self.index(c, x, y))`
//@ subst? `&self.samples[$A]` => `vx_at1(self.samples.as_ref(), $A)`
//@ spec
    ensures inb(self.layout, c as int, x as int, y as int), 0 <= idx(self.layout, c as int, x as int, y as int) < self.samples.sref().len(),
        *res == self.samples.sref()[idx(self.layout, c as int, x as int, y as int)],
//@end
//@fn src/flat.rs index_mut ctx="IndexMut < \( u8 , u32 , u32 \) > for FlatSamples" as=vx_at_mut ret=res vis=pub
//@ panics allow
//@ sigsubst `index_mut` => `index_mut<T>`
//@ sigsubst `(c, x, y): (u8, u32, u32)` => `c: u8, x: u32, y: u32`
//@ sigsubst `&mut Self::Output` => `&mut T where Buffer: AsMut<T>`
//@ subst? `self.index(c, x, y).unwrap_or_else($A)` => `vx_or_panic(self.index(c, x, y))`
//@ subst? `&mut self.samples[$A]` => `vx_at1_mut(self.samples.as_mut(), $A)`
//@ spec
    ensures inb(old(self).layout, c as int, x as int, y as int), 0 <= idx(old(self).layout, c as int, x as int, y as int) < old(self).samples.smut().len(),
        final(self).layout == old(self).layout, *res == old(self).samples.smut()[idx(old(self).layout, c as int, x as int, y as int)],
        final(self).samples.smut() == old(self).samples.smut().update(idx(old(self).layout, c as int, x as int, y as int), *final(res)),
//@end
//@fn src/flat.rs try_into_buffer ctx="impl < Buffer > FlatSamples < Buffer >" ret=res vis=pub
//@ panics forbid
//@ sigsubst `ImageBuffer<P, Buffer>` => `ImageBuffer<P, Buffer>`
//@ sigsubst `P: Pixel + 'static` => `P: Pixel`
//@ sigsubst `P::Subpixel: 'static,` => ``
//@ sigsubst `Deref<Target = [P::Subpixel]>` => `AsRef<P::Subpixel>`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `self.samples.deref().len()` => `self.samples.as_ref().len()`
//@ subst? `ImageBuffer::from_raw($A).unwrap_or_else($C)` => `vx_reached(ImageBuffer::from_raw($A))`
//@ spec
    // the conversion keeps every sample where both descriptions of the image say it is
    ensures res matches Ok(vxv) ==> (vxv.iw() == self.layout.width && vxv.ih() == self.layout.height && vxv.raw() == self.samples && self.layout.channels == P::cc()
            && (forall|c: int, x: int, y: int| inb(self.layout, c, x, y) ==> #[trigger] idx(self.layout, c, x, y) == (y * self.layout.width + x) * P::cc() + c)),
        res matches Err(vxe) ==> vxe.1 == self,
//@ at body.start
    proof { if self.layout.channels == P::cc() && self.layout.width_stride == self.layout.channels && self.layout.height_stride == self.layout.channels * self.layout.width { lemma_rmp(self.layout); } self.samples.ref_len(); }
//@end
}
impl<'buf, Subpixel> FlatSamples<&'buf [Subpixel]> {
//@fn src/flat.rs with_monocolor ret=res vis=pub
//@ sigsubst `crate::Primitive` => `Copy + Zero`
//@ subst? `P::CHANNEL_COUNT` => `P::channel_count()`
//@ spec
    // one pixel seen at every coordinate, and nothing beyond it is needed
    ensures res.layout.channels == P::cc(), res.layout.width == $n1, res.layout.height == $n2, res.samples@ == $n0.chans(), need(res.layout) <= P::cc(), res.samples@.len() == P::cc(),
        forall|c: int, x: int, y: int| inb(res.layout, c, x, y) ==> #[trigger] idx(res.layout, c, x, y) == c,
//@ at body.start
    proof { $n0.chans_len(); assert forall|x: int| #[trigger] (x * 0) == 0 by {} }
//@end
}
// a row-major packed layout addresses samples as an image buffer does, and needs exactly the samples it needs
pub proof fn lemma_rmp(l: SampleLayout)
    requires l.width_stride == l.channels, l.height_stride == l.channels * l.width,
    ensures l.channel_stride == 1 ==> (forall|c: int, x: int, y: int| inb(l, c, x, y) ==> #[trigger] idx(l, c, x, y) == (y * l.width + x) * l.channels + c),
        l.channel_stride == 1 ==> need(l) == (l.channels * l.width) * l.height,
{
    if l.channel_stride == 1 {
        assert forall|c: int, x: int, y: int| inb(l, c, x, y) implies #[trigger] idx(l, c, x, y) == (y * l.width + x) * l.channels + c by {
            assert(c * 1 + x * l.channels + y * (l.channels * l.width) == (y * l.width + x) * l.channels + c) by (nonlinear_arith);
        }
        if empty(l) { assert((l.channels * l.width) * l.height == 0) by (nonlinear_arith) requires l.channels == 0 || l.width == 0 || l.height == 0; }
        else {
            let c = l.channels as int; let w = l.width as int; let h = l.height as int;
            assert(inb(l, c - 1, w - 1, h - 1));
            assert(((h - 1) * w + (w - 1)) * c + (c - 1) + 1 == (c * w) * h) by (nonlinear_arith);
        }
    }
}
pub struct ImageBuffer<P: Pixel, Buffer> { w: u32, h: u32, data: Buffer, p: PhantomData<P> }
impl<P: Pixel, Buffer> ImageBuffer<P, Buffer> {
    pub closed spec fn iw(&self) -> u32 { self.w }
    pub closed spec fn ih(&self) -> u32 { self.h }
    pub closed spec fn raw(&self) -> Buffer { self.data }
    // the contract proved for it in the buffer unit (C01)
    #[verifier::external_body]
    pub fn from_raw(w: u32, h: u32, b: Buffer) -> (r: Option<ImageBuffer<P, Buffer>>) where Buffer: AsRef<P::Subpixel>
        ensures r.is_some() <==> (P::cc() * w) * h <= b.sref().len(), r.is_some() ==> r.unwrap().iw() == w && r.unwrap().ih() == h && r.unwrap().raw() == b,
    { unimplemented!() }
}
fn vx_reached<T>(o: Option<T>) -> (r: T) requires o.is_some() ensures o == Some(r) { o.unwrap() }
// where panicking is the documented answer
#[verifier::external_body]
fn vx_or_panic<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
#[verifier::external_body]
fn vx_at1<T>(s: &[T], i: usize) -> (r: &T) ensures i < s@.len(), *r == s@[i as int] { &s[i] }
#[verifier::external_body]
fn vx_at1_mut<T>(s: &mut [T], i: usize) -> (r: &mut T) ensures i < old(s)@.len(), *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)) { &mut s[i] }
// a smaller view stays inside the same buffer
pub proof fn lemma_shrink(a: SampleLayout, b: SampleLayout)
    requires b.channels <= a.channels, b.width <= a.width, b.height <= a.height, b.channel_stride == a.channel_stride, b.width_stride == a.width_stride, b.height_stride == a.height_stride,
    ensures need(b) <= need(a)
{
    if !empty(b) { lemma_need(a, b.channels - 1, b.width - 1, b.height - 1); assert(idx(a, b.channels - 1, b.width - 1, b.height - 1) == idx(b, b.channels - 1, b.width - 1, b.height - 1)); }
    else if !empty(a) { lemma_need(a, 0, 0, 0); }
}
} // verus!
fn main() {}
