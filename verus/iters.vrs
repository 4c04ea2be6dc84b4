#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use core::ops::Range;
verus! {
//@include buffer_core.vrs
//@include buffer_len.vrs
//@fn src/buffer.rs inner_pixels ret=res
//@ subst? `&self.data[..$A]` => `vx_idx(&self.data, 0..$A)`
//@ spec
    requires self.fits(), P::cc() <= 255, 
    ensures res@ == self.samples().subrange(0, need::<P>(self.w(), self.h())),
//@ at body.start
    proof { lemma_need_nonneg::<P>(self.width, self.height); assert(self.data.len() <= usize::MAX); }
//@end
//@fn src/buffer.rs pixels ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact` => `vx_chunks_exact`
//@ spec
    requires self.fits(), 1 <= P::cc() <= 255,
    ensures res.all_of(*self), 
//@ at body.start
    proof { lemma_need_nonneg::<P>(self.width, self.height); lemma_pixel_chunks::<P>(self.data@.subrange(0, need::<P>(self.width, self.height)), self.width, self.height); lemma_blocks_len(self.data@.subrange(0, need::<P>(self.width, self.height)), P::cc() as int);
        assert forall|x: int, y: int| 0 <= x < self.w() && 0 <= y < self.h() implies self.data@.subrange(0, need::<P>(self.width, self.height)).subrange(idx::<P>(self.width, x, y), idx::<P>(self.width, x, y) + P::cc()) == #[trigger] self.at(x, y) by {
            lemma_in::<P>(self.width, self.height, x, y);
            assert(self.data@.subrange(0, need::<P>(self.width, self.height)).subrange(idx::<P>(self.width, x, y), idx::<P>(self.width, x, y) + P::cc()) =~= self.at(x, y));
        } }
//@end
//@fn src/buffer.rs rows ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    requires self.fits(), 1 <= P::cc() <= 255,
    ensures res.all_of(*self),
//@ at body.start
    proof { assert(self.data.len() <= usize::MAX); }
//@end
//@fn src/buffer.rs enumerate_pixels ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    requires self.fits(), 1 <= P::cc() <= 255,
    ensures res.inner().all_of(*self), res.px() == 0, res.py() == 0, res.wf(), res.wd() == self.w(),
//@end
//@fn src/buffer.rs enumerate_rows ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    requires self.fits(), 1 <= P::cc() <= 255,
    ensures res.inner().all_of(*self), res.py() == 0, res.wd() == self.w(),
//@end
//@fn src/buffer.rs inner_pixels_mut ret=res
//@ subst? `&mut self.data[..$A]` => `vx_idx_mut(&mut self.data, 0..$A)`
//@ spec
    requires old(self).fits(), P::cc() <= 255,
    ensures res@ == old(self).samples().subrange(0, need::<P>(old(self).w(), old(self).h())),
//@ at body.start
    proof { lemma_need_nonneg::<P>(self.width, self.height); assert(self.data.len() <= usize::MAX); }
//@end
//@fn src/buffer.rs pixels_mut ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact_mut` => `vx_chunks_exact_mut`
//@ spec
    requires old(self).fits(), 1 <= P::cc() <= 255,
    ensures res.all_of(*old(self)),
//@ at body.start
    proof { lemma_need_nonneg::<P>(self.width, self.height); lemma_pixel_chunks::<P>(self.data@.subrange(0, need::<P>(self.width, self.height)), self.width, self.height); lemma_blocks_len(self.data@.subrange(0, need::<P>(self.width, self.height)), P::cc() as int);
        assert forall|x: int, y: int| 0 <= x < self.w() && 0 <= y < self.h() implies self.data@.subrange(0, need::<P>(self.width, self.height)).subrange(idx::<P>(self.width, x, y), idx::<P>(self.width, x, y) + P::cc()) == #[trigger] self.at(x, y) by {
            lemma_in::<P>(self.width, self.height, x, y);
            assert(self.data@.subrange(0, need::<P>(self.width, self.height)).subrange(idx::<P>(self.width, x, y), idx::<P>(self.width, x, y) + P::cc()) =~= self.at(x, y));
        } }
//@end
//@fn src/buffer.rs rows_mut ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ at body.start
    proof { assert(self.data.len() <= usize::MAX); }
//@ spec
    requires old(self).fits(), 1 <= P::cc() <= 255,
    ensures res.all_of(*old(self)),
//@end
//@fn src/buffer.rs enumerate_pixels_mut ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    requires old(self).fits(), 1 <= P::cc() <= 255,
    ensures res.inner().all_of(*old(self)), res.px() == 0, res.py() == 0, res.wf(), res.wd() == old(self).w(),
//@end
//@fn src/buffer.rs enumerate_rows_mut ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    requires old(self).fits(), 1 <= P::cc() <= 255,
    ensures res.inner().all_of(*old(self)), res.py() == 0, res.wd() == old(self).w(),
//@end
}
pub proof fn lemma_need_nonneg<P: Pixel>(w: u32, h: u32) ensures need::<P>(w, h) >= 0, need::<P>(w, h) == (w * h) * P::cc(), need::<P>(w, h) == (P::cc() * w) * h, w == 0 || h == 0 ==> need::<P>(w, h) == 0,
    P::cc() * w >= 0, w * h >= 0
{
    let c = P::cc() as int;
    assert((c * w) * h == (w * h) * c) by (nonlinear_arith);
    assert(c * w >= 0) by (nonlinear_arith) requires c >= 0, w >= 0;
    assert((c * w) * h >= 0) by (nonlinear_arith) requires c * w >= 0, h >= 0;
    assert(w * h >= 0) by (nonlinear_arith) requires w >= 0, h >= 0;
    if w == 0 { assert((c * w) * h == 0) by (nonlinear_arith) requires w == 0; }
    if h == 0 { assert((c * w) * h == 0) by (nonlinear_arith) requires h == 0; }
}
// core::slice::ChunksExact as documented: the sequence of consecutive blocks of exactly n samples, the rest left out
pub open spec fn blocks<T>(s: Seq<T>, n: int) -> Seq<Seq<T>> { Seq::new((s.len() as int / n) as nat, |k: int| s.subrange(k * n, k * n + n)) }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct ChunksExact<'a, T> { c: core::slice::ChunksExact<'a, T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct ChunksExactMut<'a, T> { c: core::slice::ChunksExactMut<'a, T> }
impl<'a, T> ChunksExact<'a, T> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<T>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        ensures old(self).rem().len() == 0 ==> r.is_none() && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r.is_some() && r.unwrap()@ == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1)
    { self.c.next() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a [T]>)
        ensures old(self).rem().len() == 0 ==> r.is_none() && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r.is_some() && r.unwrap()@ == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last()
    { self.c.next_back() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rem().len() { self.c.len() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.rem() == self.rem() { unimplemented!() }
}
impl<'a, T> ChunksExactMut<'a, T> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<T>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut [T]>)
        ensures old(self).rem().len() == 0 ==> r.is_none() && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r.is_some() && r.unwrap()@ == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1)
    { self.c.next() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a mut [T]>)
        ensures old(self).rem().len() == 0 ==> r.is_none() && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r.is_some() && r.unwrap()@ == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last()
    { self.c.next_back() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rem().len() { self.c.len() }
}
pub trait VxChunks<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: ChunksExact<'a, T>) requires n > 0 ensures r.rem() == blocks(self.vx_seq(), n as int);
    fn vx_chunks_exact_mut<'a>(&'a mut self, n: usize) -> (r: ChunksExactMut<'a, T>) requires n > 0 ensures r.rem() == blocks(old(self).vx_seq(), n as int);
}
impl<T> VxChunks<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: ChunksExact<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_chunks_exact_mut<'a>(&'a mut self, n: usize) -> (r: ChunksExactMut<'a, T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_no_chunks<'a, T>(n: usize) -> (r: ChunksExact<'a, T>) requires n > 0 ensures r.rem() == Seq::<Seq<T>>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_chunks_mut<'a, T>(n: usize) -> (r: ChunksExactMut<'a, T>) requires n > 0 ensures r.rem() == Seq::<Seq<T>>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_get_mut_s<'a, T>(v: &'a mut [T], r: Range<usize>) -> (o: Option<&'a mut [T]>)
    ensures o.is_some() <==> r.start <= r.end && r.end <= old(v)@.len(),
        o.is_some() ==> o.unwrap()@ == old(v)@.subrange(r.start as int, r.end as int)
{ v.get_mut(r) }

// the blocks of cc samples of the needed samples are the pixels in row-major order: block k is pixel (k % w, k / w)
pub proof fn lemma_pixel_chunks<P: Pixel>(s: Seq<P::Subpixel>, w: u32, h: u32)
    requires s.len() == need::<P>(w, h), P::cc() >= 1
    ensures blocks(s, P::cc() as int).len() == w * h,
        forall|x: int, y: int| 0 <= x < w && 0 <= y < h ==> 0 <= y * w + x < w * h && blocks(s, P::cc() as int)[#[trigger] (y * w + x)] == s.subrange(idx::<P>(w, x, y), idx::<P>(w, x, y) + P::cc())
{
    let c = P::cc() as int;
    lemma_need_nonneg::<P>(w, h);
    assert(((w * h) * c) / c == w * h) by (nonlinear_arith) requires c >= 1;
    assert forall|x: int, y: int| 0 <= x < w && 0 <= y < h implies 0 <= y * w + x < w * h && blocks(s, c)[#[trigger] (y * w + x)] == s.subrange(idx::<P>(w, x, y), idx::<P>(w, x, y) + c) by {
        lemma_in::<P>(w, h, x, y);
    }
}
// one row: its blocks are the pixels of the row
pub proof fn lemma_row_chunks<P: Pixel>(s: Seq<P::Subpixel>, w: u32, h: u32)
    requires s.len() >= need::<P>(w, h), P::cc() >= 1, w > 0
    ensures blocks(s.subrange(0, need::<P>(w, h)), P::cc() * w).len() == h,
        forall|y: int| 0 <= y < h ==> #[trigger] blocks(s.subrange(0, need::<P>(w, h)), P::cc() * w)[y] == s.subrange(idx::<P>(w, 0, y), idx::<P>(w, 0, y) + P::cc() * w)
            && 0 <= idx::<P>(w, 0, y) && idx::<P>(w, 0, y) + P::cc() * w <= need::<P>(w, h)
{
    let c = P::cc() as int; let n = c * w;
    lemma_need_nonneg::<P>(w, h);
    assert(n >= 1) by (nonlinear_arith) requires n == c * w, c >= 1, w >= 1;
    assert((n * h) / n == h) by (nonlinear_arith) requires n >= 1;
    let t = s.subrange(0, need::<P>(w, h));
    assert forall|y: int| 0 <= y < h implies #[trigger] blocks(t, n)[y] == s.subrange(idx::<P>(w, 0, y), idx::<P>(w, 0, y) + n) && 0 <= idx::<P>(w, 0, y) && idx::<P>(w, 0, y) + n <= need::<P>(w, h) by {
        assert((y * w + 0) * c == y * n) by (nonlinear_arith) requires n == c * w;
        assert(0 <= y * n) by (nonlinear_arith) requires 0 <= y, n >= 1;
        assert(y * n + n <= n * h) by (nonlinear_arith) requires y + 1 <= h, n >= 1;
        assert(t.subrange(y * n, y * n + n) =~= s.subrange(y * n, y * n + n));
    }
}
pub proof fn lemma_row_pixels<P: Pixel>(s: Seq<P::Subpixel>, w: u32, y: int)
    requires P::cc() >= 1, 0 <= idx::<P>(w, 0, y), idx::<P>(w, 0, y) + P::cc() * w <= s.len()
    ensures ({ let row = s.subrange(idx::<P>(w, 0, y), idx::<P>(w, 0, y) + P::cc() * w);
        blocks(row, P::cc() as int).len() == w && forall|x: int| 0 <= x < w ==> #[trigger] blocks(row, P::cc() as int)[x] == s.subrange(idx::<P>(w, x, y), idx::<P>(w, x, y) + P::cc()) })
{
    let c = P::cc() as int;
    let row = s.subrange(idx::<P>(w, 0, y), idx::<P>(w, 0, y) + c * w);
    assert(c * w >= 0) by (nonlinear_arith) requires c >= 1, w >= 0;
    assert((c * w) / c == w) by (nonlinear_arith) requires c >= 1;
    assert forall|x: int| 0 <= x < w implies #[trigger] blocks(row, c)[x] == s.subrange(idx::<P>(w, x, y), idx::<P>(w, x, y) + c) by {
        assert((y * w + x) * c == (y * w + 0) * c + x * c) by (nonlinear_arith);
        assert(0 <= x * c && x * c + c <= c * w) by (nonlinear_arith) requires 0 <= x, x + 1 <= w, c >= 1;
        assert(row.subrange(x * c, x * c + c) =~= s.subrange(idx::<P>(w, x, y), idx::<P>(w, x, y) + c));
    }
}
//@item src/buffer.rs struct Pixels
//@item src/buffer.rs struct PixelsMut
//@item src/buffer.rs struct Rows
//@item src/buffer.rs struct RowsMut
//@item src/buffer.rs struct EnumeratePixels
//@item src/buffer.rs struct EnumeratePixelsMut
//@item src/buffer.rs struct EnumerateRows
//@item src/buffer.rs struct EnumerateRowsMut

impl<'a, P: Pixel> Pixels<'a, P> {
    // the samples of the pixels still to come
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.chunks.rem() }
    pub open spec fn wf(&self) -> bool { forall|k: int| 0 <= k < self.rem().len() ==> #[trigger] self.rem()[k].len() == P::cc() }
    // all pixels of the image, in row-major order
    pub open spec fn all_of(&self, b: ImageBuffer<P>) -> bool { self.wf() && self.rem().len() == b.w() * b.h() && forall|x: int, y: int| 0 <= x < b.w() && 0 <= y < b.h() ==> 0 <= y * b.w() + x < b.w() * b.h() && self.rem()[#[trigger] (y * b.w() + x)] == b.at(x, y) }
//@fn src/buffer.rs next ctx="Iterator for Pixels <" ret=res vis=pub
//@ closure 0 (&'a [P::Subpixel]) -> (cr: &'a P)
    requires $p0@.len() == P::cc() ensures cr.chans() == $p0@
//@ spec
    requires old(self).wf(),
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().chans() == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
        final(self).wf(),
//@end
//@fn src/buffer.rs next_back ctx="Iterator for Pixels <" ret=res vis=pub
//@ closure 0 (&'a [P::Subpixel]) -> (cr: &'a P)
    requires $p0@.len() == P::cc() ensures cr.chans() == $p0@
//@ spec
    requires old(self).wf(),
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().chans() == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last(),
        final(self).wf(),
//@end
//@fn src/buffer.rs len ctx="Iterator for Pixels <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for Pixels <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
//@fn src/buffer.rs clone ctx="Clone for Pixels <" ret=res vis=pub
//@ spec
    ensures res.rem() == self.rem(),
//@end
}
impl<'a, P: Pixel> Rows<'a, P> {
    // the samples of the rows still to come
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.pixels.rem() }
    pub open spec fn all_of(&self, b: ImageBuffer<P>) -> bool { self.covers(b.samples(), b.w(), b.h()) }
    pub open spec fn covers(&self, s: Seq<P::Subpixel>, w: u32, h: u32) -> bool { self.rem().len() == (if w == 0 { 0 } else { h as int }) && forall|y: int| 0 <= y < self.rem().len() ==> #[trigger] self.rem()[y] == s.subrange(idx::<P>(w, 0, y), idx::<P>(w, 0, y) + P::cc() * w) && 0 <= idx::<P>(w, 0, y) && idx::<P>(w, 0, y) + P::cc() * w <= need::<P>(w, h) }
//@fn src/buffer.rs with_image ctx="Rows <" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact` => `vx_chunks_exact`
//@ subst? `[].vx_chunks_exact(1)` => `vx_no_chunks(1)`
//@ subst? `pixels.get(..$A)` => `vx_get(pixels, 0..$A)`
//@ at body.start
    proof { lemma_need_nonneg::<P>($n1, $n2); let c = P::cc() as int;
        assert(c * $n1 <= 0xff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= c <= 0xff, 0 <= $n1 <= 0xffff_ffff;
        assert($n1 * c == c * $n1) by (nonlinear_arith);
        assert(($n1 * c) * $n2 == (c * $n1) * $n2) by (nonlinear_arith);
        if $n1 > 0 { lemma_row_chunks::<P>($n0@, $n1, $n2); assert(c * $n1 >= 1) by (nonlinear_arith) requires c >= 1, $n1 >= 1; } else { assert(c * $n1 == 0) by (nonlinear_arith) requires $n1 == 0; } }
//@ spec
    requires $n0@.len() >= need::<P>($n1, $n2), $n0@.len() <= usize::MAX, 1 <= P::cc() <= 255,
    ensures res.covers($n0@, $n1, $n2),
//@end
//@fn src/buffer.rs next ctx="Iterator for Rows <" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact` => `vx_chunks_exact`
//@ spec
    requires 1 <= P::cc() <= 255,
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().rem() == blocks(old(self).rem()[0], P::cc() as int) && res.unwrap().wf() && final(self).rem() == old(self).rem().skip(1),
//@ at body.start
    proof { if self.rem().len() > 0 { lemma_blocks_len(self.rem()[0], P::cc() as int); } }
//@end
//@fn src/buffer.rs next_back ctx="Iterator for Rows <" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact` => `vx_chunks_exact`
//@ spec
    requires 1 <= P::cc() <= 255,
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().rem() == blocks(old(self).rem().last(), P::cc() as int) && res.unwrap().wf() && final(self).rem() == old(self).rem().drop_last(),
//@ at body.start
    proof { if self.rem().len() > 0 { lemma_blocks_len(self.rem().last(), P::cc() as int); } }
//@end
//@fn src/buffer.rs len ctx="Iterator for Rows <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for Rows <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
//@fn src/buffer.rs clone ctx="Clone for Rows <" ret=res vis=pub
//@ spec
    ensures res.rem() == self.rem(),
//@end
}
impl<'a, P: Pixel> EnumeratePixels<'a, P> {
    pub closed spec fn inner(&self) -> Pixels<'a, P> { self.pixels }
    // position of the next item, counted in row-major order
    pub closed spec fn pos(&self) -> int { self.y * self.width + self.x }
    pub closed spec fn wd(&self) -> u32 { self.width }
    pub closed spec fn px(&self) -> u32 { self.x }
    pub closed spec fn py(&self) -> u32 { self.y }
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.pixels.rem() }
    pub closed spec fn wf(&self) -> bool { self.pixels.wf() && self.x <= self.width }
//@fn src/buffer.rs next ctx="Iterator for EnumeratePixels <" ret=res vis=pub
//@ closure 0 (&'a P) -> (cr: (u32, u32, &'a P))
    ensures cr.0 == x && cr.1 == y && cr.2 == $p0
//@ at body.start
    proof { if self.width > 0 { lemma_divmod(self.x as int, self.y as int, self.width as int); } }
//@ spec
    requires old(self).wf(), old(self).wd() > 0, old(self).py() < u32::MAX,
    ensures final(self).wd() == old(self).wd(), final(self).wf(), final(self).pos() == old(self).pos() + 1,
        old(self).rem().len() == 0 ==> res.is_none(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().0 == old(self).pos() % (old(self).wd() as int) && res.unwrap().1 == old(self).pos() / (old(self).wd() as int)
            && res.unwrap().2.chans() == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
//@ at body.end
//@end
//@fn src/buffer.rs len ctx="Iterator for EnumeratePixels <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for EnumeratePixels <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
//@fn src/buffer.rs clone ctx="Clone for EnumeratePixels <" ret=res vis=pub
//@ spec
    ensures res.rem() == self.rem(), res.px() == self.px(), res.py() == self.py(), res.wd() == self.wd(),
//@end
}
impl<'a, P: Pixel> EnumerateRows<'a, P> {
    pub closed spec fn inner(&self) -> Rows<'a, P> { self.rows }
    pub closed spec fn py(&self) -> u32 { self.y }
    pub closed spec fn wd(&self) -> u32 { self.width }
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.rows.rem() }
//@fn src/buffer.rs next ctx="Iterator for EnumerateRows <" ret=res vis=pub
//@ closure 0 (Pixels<'a, P>) -> (cr: (u32, EnumeratePixels<'a, P>))
    ensures cr.0 == y && cr.1.px() == 0 && cr.1.py() == y && cr.1.wd() == self.wd() && cr.1.rem() == $p0.rem() && ($p0.wf() ==> cr.1.wf())
//@ spec
    requires 1 <= P::cc() <= 255,
    ensures final(self).wd() == old(self).wd(),
        final(self).py() == (if old(self).py() < u32::MAX { (old(self).py() + 1) as u32 } else { 0 }),
        old(self).rem().len() == 0 ==> res.is_none(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().0 == old(self).py() && res.unwrap().1.py() == old(self).py() && res.unwrap().1.px() == 0 && res.unwrap().1.wd() == old(self).wd()
            && res.unwrap().1.rem() == blocks(old(self).rem()[0], P::cc() as int) && res.unwrap().1.wf() && final(self).rem() == old(self).rem().skip(1),
//@end
//@fn src/buffer.rs len ctx="Iterator for EnumerateRows <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for EnumerateRows <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
//@fn src/buffer.rs clone ctx="Clone for EnumerateRows <" ret=res vis=pub
//@ spec
    ensures res.rem() == self.rem(), res.py() == self.py(), res.wd() == self.wd(),
//@end
}

impl<'a, P: Pixel> PixelsMut<'a, P> {
    // the samples of the pixels still to come
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.chunks.rem() }
    pub open spec fn wf(&self) -> bool { forall|k: int| 0 <= k < self.rem().len() ==> #[trigger] self.rem()[k].len() == P::cc() }
    // all pixels of the image, in row-major order
    pub open spec fn all_of(&self, b: ImageBuffer<P>) -> bool { self.wf() && self.rem().len() == b.w() * b.h() && forall|x: int, y: int| 0 <= x < b.w() && 0 <= y < b.h() ==> 0 <= y * b.w() + x < b.w() * b.h() && self.rem()[#[trigger] (y * b.w() + x)] == b.at(x, y) }
//@fn src/buffer.rs next ctx="Iterator for PixelsMut <" ret=res vis=pub
//@ closure 0 (&'a mut [P::Subpixel]) -> (cr: &'a mut P)
    requires old($p0)@.len() == P::cc() ensures cr.chans() == old($p0)@
//@ spec
    requires old(self).wf(),
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().chans() == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
        final(self).wf(),
//@end
//@fn src/buffer.rs next_back ctx="Iterator for PixelsMut <" ret=res vis=pub
//@ closure 0 (&'a mut [P::Subpixel]) -> (cr: &'a mut P)
    requires old($p0)@.len() == P::cc() ensures cr.chans() == old($p0)@
//@ spec
    requires old(self).wf(),
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().chans() == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last(),
        final(self).wf(),
//@end
//@fn src/buffer.rs len ctx="Iterator for PixelsMut <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for PixelsMut <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
}
impl<'a, P: Pixel> RowsMut<'a, P> {
    // the samples of the rows still to come
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.pixels.rem() }
    pub open spec fn all_of(&self, b: ImageBuffer<P>) -> bool { self.covers(b.samples(), b.w(), b.h()) }
    pub open spec fn covers(&self, s: Seq<P::Subpixel>, w: u32, h: u32) -> bool { self.rem().len() == (if w == 0 { 0 } else { h as int }) && forall|y: int| 0 <= y < self.rem().len() ==> #[trigger] self.rem()[y] == s.subrange(idx::<P>(w, 0, y), idx::<P>(w, 0, y) + P::cc() * w) && 0 <= idx::<P>(w, 0, y) && idx::<P>(w, 0, y) + P::cc() * w <= need::<P>(w, h) }
//@fn src/buffer.rs with_image ctx="RowsMut <" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact_mut` => `vx_chunks_exact_mut`
//@ subst? `[].vx_chunks_exact_mut(1)` => `vx_no_chunks_mut(1)`
//@ subst? `pixels.get_mut(..$A)` => `vx_get_mut_s(pixels, 0..$A)`
//@ at body.start
    proof { lemma_need_nonneg::<P>($n1, $n2); let c = P::cc() as int;
        assert(c * $n1 <= 0xff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= c <= 0xff, 0 <= $n1 <= 0xffff_ffff;
        assert($n1 * c == c * $n1) by (nonlinear_arith);
        assert(($n1 * c) * $n2 == (c * $n1) * $n2) by (nonlinear_arith);
        if $n1 > 0 { lemma_row_chunks::<P>($n0@, $n1, $n2); assert(c * $n1 >= 1) by (nonlinear_arith) requires c >= 1, $n1 >= 1; } else { assert(c * $n1 == 0) by (nonlinear_arith) requires $n1 == 0; } }
//@ spec
    requires old($n0)@.len() >= need::<P>($n1, $n2), old($n0)@.len() <= usize::MAX, 1 <= P::cc() <= 255,
    ensures res.covers(old($n0)@, $n1, $n2),
//@end
//@fn src/buffer.rs next ctx="Iterator for RowsMut <" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact_mut` => `vx_chunks_exact_mut`
//@ spec
    requires 1 <= P::cc() <= 255,
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().rem() == blocks(old(self).rem()[0], P::cc() as int) && res.unwrap().wf() && final(self).rem() == old(self).rem().skip(1),
//@ at body.start
    proof { if self.rem().len() > 0 { lemma_blocks_len(self.rem()[0], P::cc() as int); } }
//@end
//@fn src/buffer.rs next_back ctx="Iterator for RowsMut <" ret=res vis=pub
//@ subst? `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `chunks_exact_mut` => `vx_chunks_exact_mut`
//@ spec
    requires 1 <= P::cc() <= 255,
    ensures old(self).rem().len() == 0 ==> res.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().rem() == blocks(old(self).rem().last(), P::cc() as int) && res.unwrap().wf() && final(self).rem() == old(self).rem().drop_last(),
//@ at body.start
    proof { if self.rem().len() > 0 { lemma_blocks_len(self.rem().last(), P::cc() as int); } }
//@end
//@fn src/buffer.rs len ctx="Iterator for RowsMut <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for RowsMut <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
}
impl<'a, P: Pixel> EnumeratePixelsMut<'a, P> {
    pub closed spec fn inner(&self) -> PixelsMut<'a, P> { self.pixels }
    // position of the next item, counted in row-major order
    pub closed spec fn pos(&self) -> int { self.y * self.width + self.x }
    pub closed spec fn wd(&self) -> u32 { self.width }
    pub closed spec fn px(&self) -> u32 { self.x }
    pub closed spec fn py(&self) -> u32 { self.y }
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.pixels.rem() }
    pub closed spec fn wf(&self) -> bool { self.pixels.wf() && self.x <= self.width }
//@fn src/buffer.rs next ctx="Iterator for EnumeratePixelsMut <" ret=res vis=pub
//@ closure 0 (&'a mut P) -> (cr: (u32, u32, &'a mut P))
    ensures cr.0 == x && cr.1 == y && *cr.2 == *old($p0)
//@ at body.start
    proof { if self.width > 0 { lemma_divmod(self.x as int, self.y as int, self.width as int); } }
//@ spec
    requires old(self).wf(), old(self).wd() > 0, old(self).py() < u32::MAX,
    ensures final(self).wd() == old(self).wd(), final(self).wf(), final(self).pos() == old(self).pos() + 1,
        old(self).rem().len() == 0 ==> res.is_none(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().0 == old(self).pos() % (old(self).wd() as int) && res.unwrap().1 == old(self).pos() / (old(self).wd() as int)
            && res.unwrap().2.chans() == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
//@ at body.end
//@end
//@fn src/buffer.rs len ctx="Iterator for EnumeratePixelsMut <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for EnumeratePixelsMut <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
}
impl<'a, P: Pixel> EnumerateRowsMut<'a, P> {
    pub closed spec fn inner(&self) -> RowsMut<'a, P> { self.rows }
    pub closed spec fn py(&self) -> u32 { self.y }
    pub closed spec fn wd(&self) -> u32 { self.width }
    pub closed spec fn rem(&self) -> Seq<Seq<P::Subpixel>> { self.rows.rem() }
//@fn src/buffer.rs next ctx="Iterator for EnumerateRowsMut <" ret=res vis=pub
//@ closure 0 (PixelsMut<'a, P>) -> (cr: (u32, EnumeratePixelsMut<'a, P>))
    ensures cr.0 == y && cr.1.px() == 0 && cr.1.py() == y && cr.1.wd() == self.wd() && cr.1.rem() == $p0.rem() && ($p0.wf() ==> cr.1.wf())
//@ spec
    requires 1 <= P::cc() <= 255,
    ensures final(self).wd() == old(self).wd(),
        final(self).py() == (if old(self).py() < u32::MAX { (old(self).py() + 1) as u32 } else { 0 }),
        old(self).rem().len() == 0 ==> res.is_none(),
        old(self).rem().len() > 0 ==> res.is_some() && res.unwrap().0 == old(self).py() && res.unwrap().1.py() == old(self).py() && res.unwrap().1.px() == 0 && res.unwrap().1.wd() == old(self).wd()
            && res.unwrap().1.rem() == blocks(old(self).rem()[0], P::cc() as int) && res.unwrap().1.wf() && final(self).rem() == old(self).rem().skip(1),
//@end
//@fn src/buffer.rs len ctx="Iterator for EnumerateRowsMut <" ret=res vis=pub
//@ spec
    ensures res == self.rem().len(),
//@end
//@fn src/buffer.rs size_hint ctx="Iterator for EnumerateRowsMut <" ret=res vis=pub
//@ spec
    ensures res.0 == self.rem().len(), res.1 == Some(res.0),
//@end
}

pub proof fn lemma_blocks_len<T>(s: Seq<T>, n: int)
    requires n >= 1 ensures forall|k: int| 0 <= k < blocks(s, n).len() ==> #[trigger] blocks(s, n)[k].len() == n
{
    assert forall|k: int| 0 <= k < blocks(s, n).len() implies #[trigger] blocks(s, n)[k].len() == n by {
        assert(k * n >= 0 && k * n + n <= s.len()) by (nonlinear_arith) requires 0 <= k, k + 1 <= s.len() as int / n, n >= 1;
    }
}
pub proof fn lemma_divmod(x: int, y: int, w: int)
    requires w > 0, 0 <= x <= w, y >= 0
    ensures x < w ==> (y * w + x) % w == x && (y * w + x) / w == y,
        x == w ==> (y * w + x) % w == 0 && (y * w + x) / w == y + 1 && y * w + x == (y + 1) * w
{
    if x < w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x); }
    else { assert(y * w + w == (y + 1) * w) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((y + 1) * w, w, y + 1, 0); }
}
} // verus!
fn main() {}
