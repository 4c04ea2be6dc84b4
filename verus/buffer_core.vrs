#[verifier::external_body]
pub fn vx_nondet() -> bool { unimplemented!() }
global size_of usize == 8;
//@include panics.vrs
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [core::option::Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o.is_some() ==> f.requires((o.unwrap(),)) ensures o.is_none() ==> !r, o.is_some() ==> f.ensures((o.unwrap(),), r);
// slice::get / get_mut with a range, and indexing by a range, as documented by core
#[verifier::external_body]
pub fn vx_get<T>(v: &[T], r: Range<usize>) -> (o: Option<&[T]>)
    ensures o.is_some() <==> r.start <= r.end && r.end <= v@.len(), o.is_some() ==> o.unwrap()@ == v@.subrange(r.start as int, r.end as int)
{ v.get(r) }
#[verifier::external_body]
pub fn vx_idx<T>(v: &Vec<T>, r: Range<usize>) -> (o: &[T])
    requires r.start <= r.end, r.end <= v@.len(),
    ensures o@ == v@.subrange(r.start as int, r.end as int)
{ &v[r] }
#[verifier::external_body]
pub fn vx_idx_mut<T>(v: &mut Vec<T>, r: Range<usize>) -> (o: &mut [T])
    requires r.start <= r.end, r.end <= old(v)@.len(),
    ensures o@ == old(v)@.subrange(r.start as int, r.end as int),
        final(o)@.len() == r.end - r.start,
        final(v)@ == old(v)@.subrange(0, r.start as int) + final(o)@ + old(v)@.subrange(r.end as int, old(v)@.len() as int),
{ &mut v[r] }
#[verifier::external_body]
pub fn vx_get_mut<T>(v: &mut Vec<T>, r: Range<usize>) -> (o: Option<&mut [T]>)
    ensures o.is_some() <==> r.start <= r.end && r.end <= old(v)@.len(),
        o.is_none() ==> final(v)@ == old(v)@,
        o.is_some() ==> o.unwrap()@ == old(v)@.subrange(r.start as int, r.end as int)
            && final(o.unwrap())@.len() == r.end - r.start
            && final(v)@ == old(v)@.subrange(0, r.start as int) + final(o.unwrap())@ + old(v)@.subrange(r.end as int, old(v)@.len() as int),
{ v.get_mut(r) }

// pixels are views of CHANNEL_COUNT samples
pub trait Pixel: Copy + Clone {
    type Subpixel;
    spec fn cc() -> nat;
    spec fn chans(&self) -> Seq<Self::Subpixel>;
    fn channel_count() -> (r: u8) ensures r == Self::cc();
    fn from_slice(s: &[Self::Subpixel]) -> (r: &Self)
        requires s@.len() == Self::cc() ensures r.chans() == s@;
    fn from_slice_mut(s: &mut [Self::Subpixel]) -> (r: &mut Self)
        requires old(s)@.len() == Self::cc() ensures r.chans() == old(s)@, final(s)@ == final(r).chans();
    spec fn spec_blend(self, other: Self) -> Self;
    fn blend(&mut self, other: &Self) ensures *final(self) == old(self).spec_blend(*other);
    proof fn chans_len(&self) ensures self.chans().len() == Self::cc();
}
pub struct PhantomData;
pub struct ImageBuffer<P: Pixel> { width: u32, height: u32, _phantom: core::marker::PhantomData<P>, data: Vec<P::Subpixel> }

pub open spec fn need<P: Pixel>(w: u32, h: u32) -> int { (P::cc() * w) * h }
pub open spec fn idx<P: Pixel>(w: u32, x: int, y: int) -> int { (y * w + x) * P::cc() }

// C01: an in-bounds block lies inside the needed samples
pub proof fn lemma_small(w: u32, x: u32, y: u32)
    ensures 0 <= y as int * w as int <= 0xffff_ffff * 0xffff_ffff, y * w + x <= 0xffff_ffff_ffff_ffff
{
    assert(0 <= y as int * w as int <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= y <= 0xffff_ffff, 0 <= w <= 0xffff_ffff;
}
pub proof fn lemma_in<P: Pixel>(w: u32, h: u32, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h
    ensures 0 <= y * w + x < w * h, 0 <= idx::<P>(w, x, y), idx::<P>(w, x, y) + P::cc() <= need::<P>(w, h), y * w >= 0, y * w <= w * h
{
    let c = P::cc() as int;
    assert(0 <= y * w <= w * (h - 1)) by (nonlinear_arith) requires 0 <= y <= h - 1, w >= 0;
    assert(w * (h - 1) == w * h - w) by (nonlinear_arith);
    assert((y * w + x) * c + c == (y * w + x + 1) * c) by (nonlinear_arith);
    assert((y * w + x + 1) * c <= (w * h) * c) by (nonlinear_arith) requires y * w + x + 1 <= w * h, c >= 0;
    assert((w * h) * c == (c * w) * h) by (nonlinear_arith);
    assert((y * w + x) * c >= 0) by (nonlinear_arith) requires y * w + x >= 0, c >= 0;
}
// C01: blocks of distinct coordinates are disjoint
pub proof fn lemma_disjoint<P: Pixel>(w: u32, h: u32, x: int, y: int, x2: int, y2: int)
    requires 0 <= x < w, 0 <= y < h, 0 <= x2 < w, 0 <= y2 < h, x != x2 || y != y2
    ensures idx::<P>(w, x, y) + P::cc() <= idx::<P>(w, x2, y2) || idx::<P>(w, x2, y2) + P::cc() <= idx::<P>(w, x, y)
{
    let c = P::cc() as int; let a = y * w + x; let b = y2 * w + x2;
    if y < y2 { assert(a + 1 <= b) by (nonlinear_arith) requires a == y * w + x, b == y2 * w + x2, 0 <= x < w, 0 <= x2, y + 1 <= y2; }
    else if y2 < y { assert(b + 1 <= a) by (nonlinear_arith) requires a == y * w + x, b == y2 * w + x2, 0 <= x2 < w, 0 <= x, y2 + 1 <= y; }
    if a < b { assert(a * c + c <= b * c) by (nonlinear_arith) requires a + 1 <= b, c >= 0; }
    else { assert(b * c + c <= a * c) by (nonlinear_arith) requires b + 1 <= a, c >= 0; }
}
impl<P: Pixel> ImageBuffer<P> {
    pub closed spec fn fits(&self) -> bool { need::<P>(self.width, self.height) <= self.data@.len() }
    pub closed spec fn w(&self) -> u32 { self.width }
    pub closed spec fn h(&self) -> u32 { self.height }
    pub closed spec fn samples(&self) -> Seq<P::Subpixel> { self.data@ }
    // the samples of pixel (x, y)
    pub open spec fn at(&self, x: int, y: int) -> Seq<P::Subpixel> { self.samples().subrange(idx::<P>(self.w(), x, y), idx::<P>(self.w(), x, y) + P::cc()) }
