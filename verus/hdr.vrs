#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include chunks.vrs
#[derive(Debug)]
pub enum ImageError { IoError, Other }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body]
pub fn vx_err() -> (e: ImageError) { unimplemented!() }
#[verifier::external_body]
pub fn vx_err2(a: usize, b: usize) -> (e: ImageError) { unimplemented!() }
// ---- the packet format: a count of 1..128 and as many bytes, or 128 + count (1..127) and the byte to repeat ----
pub open spec fn rep(c: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| c) }
#[verifier::opaque]
pub open spec fn hx(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else {
        let n = s[0] as int; let used = if n > 128 { 1 } else { n };
        if n == 0 || s.len() < 1 + used { None }
        else { match hx(s.skip(1 + used)) { None => None, Some(t) => Some((if n > 128 { rep(s[1], n - 128) } else { s.subrange(1, 1 + n) }) + t) } }
    }
}
proof fn lemma_append(s: Seq<u8>, t: Seq<u8>)
    requires hx(s).is_some(), hx(t).is_some() ensures hx(s + t) == Some(hx(s).unwrap() + hx(t).unwrap()) decreases s.len()
{
    reveal(hx);
    if s.len() == 0 { assert(s + t =~= t); assert(hx(s).unwrap() + hx(t).unwrap() =~= hx(t).unwrap()); }
    else {
        let n = s[0] as int; let used = if n > 128 { 1 } else { n };
        lemma_append(s.skip(1 + used), t);
        assert((s + t).skip(1 + used) =~= s.skip(1 + used) + t);
        assert((s + t).subrange(1, 1 + used) =~= s.subrange(1, 1 + used));
        let h = if n > 128 { rep(s[1], n - 128) } else { s.subrange(1, 1 + n) };
        assert(h + (hx(s.skip(1 + used)).unwrap() + hx(t).unwrap()) =~= (h + hx(s.skip(1 + used)).unwrap()) + hx(t).unwrap());
    }
}
proof fn lemma_lit(p: Seq<u8>) requires 1 <= p.len() <= 128 ensures hx(seq![p.len() as u8] + p) == Some(p)
{
    reveal_with_fuel(hx, 2); let s = seq![p.len() as u8] + p;
    assert(s.skip(1 + p.len() as int) =~= Seq::<u8>::empty()); assert(s.subrange(1, 1 + p.len() as int) =~= p); assert(p + Seq::<u8>::empty() =~= p);
}
proof fn lemma_run(c: u8, n: int) requires 1 <= n <= 127 ensures hx(seq![(128 + n) as u8, c]) == Some(rep(c, n))
{ reveal_with_fuel(hx, 2); let s = seq![(128 + n) as u8, c]; assert(s.skip(2) =~= Seq::<u8>::empty()); assert(rep(c, n) + Seq::<u8>::empty() =~= rep(c, n)); }
// ---- the encoder ----
//@item src/codecs/hdr/encoder.rs enum RunOrNot vis=pub
pub use self::RunOrNot::{Norun, Run};
//@item src/codecs/hdr/encoder.rs const RUN_MAX_LEN vis=pub
//@item src/codecs/hdr/encoder.rs const NORUN_MAX_LEN vis=pub
//@item src/codecs/hdr/encoder.rs struct RunIterator vis=pub
//@item src/codecs/hdr/encoder.rs struct NorunCombineIterator vis=pub
// `data[from..].iter().take_while(|&&v| v == cv).take(max).count()`
#[verifier::external_body]
pub fn vx_run_count(data: &[u8], from: usize, cv: u8, max: usize) -> (r: usize)
    requires from <= data@.len(),
    ensures r <= max, from + r <= data@.len(), forall|k: int| from <= k < from + r ==> data@[k] == cv, from + r < data@.len() && r < max ==> data@[from + r] != cv,
{ data[from..].iter().take_while(|&&v| v == cv).take(max).count() }
// the piece names the bytes of data from p on
pub open spec fn piece(x: RunOrNot, data: Seq<u8>, p: int) -> bool {
    match x {
        RunOrNot::Run(c, n) => 1 <= n <= 127 && p + n <= data.len() && data.subrange(p, p + n) == rep(c, n as int),
        RunOrNot::Norun(i, n) => i == p && 1 <= n <= 128 && p + n <= data.len(),
    }
}
pub open spec fn plen(x: RunOrNot) -> int { match x { RunOrNot::Run(c, n) => n as int, RunOrNot::Norun(i, n) => n as int } }
impl<'a> RunIterator<'a> {
    pub closed spec fn d(&self) -> Seq<u8> { self.data@ }
    pub closed spec fn pos(&self) -> int { self.curidx as int }
    pub closed spec fn wf(&self) -> bool { self.curidx <= self.data@.len() }
//@fn src/codecs/hdr/encoder.rs new ctx="impl < 'a > RunIterator" ret=res vis=pub
//@ spec
    ensures res.wf(), res.d() == $n0@, res.pos() == 0,
//@end
//@fn src/codecs/hdr/encoder.rs next ctx="Iterator for RunIterator" ret=res vis=pub
//@ sigsubst `Option<Self::Item>` => `Option<RunOrNot>`
//@ subst? `self.data[self.curidx..].iter().take_while(|&&v| v == cv).take($A).count()` => `vx_run_count(self.data, self.curidx, cv, $A)`
//@ panics forbid
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).d() == old(self).d(), res.is_none() <==> old(self).pos() == old(self).d().len(),
        res matches None ==> final(self).pos() == old(self).pos(),
        res matches Some(x) ==> piece(x, old(self).d(), old(self).pos()) && final(self).pos() == old(self).pos() + plen(x) && (x matches RunOrNot::Norun(i, n) ==> n <= 2),
//@ at before `self.curidx += crun`
    proof { assert(self.data@.subrange(self.curidx as int, self.curidx + crun) =~= rep(cv, crun as int)); }
//@end
}
impl<'a> NorunCombineIterator<'a> {
    pub closed spec fn d(&self) -> Seq<u8> { self.runiter.d() }
    // where the next piece starts
    pub closed spec fn pos(&self) -> int { self.runiter.pos() - (match self.prev { None => 0, Some(x) => plen(x) }) }
    pub closed spec fn wf(&self) -> bool { self.runiter.wf() && self.pos() >= 0 && (self.prev matches Some(x) ==> piece(x, self.d(), self.pos()) && (x matches RunOrNot::Norun(i, n) ==> n < 128)) }
    pub closed spec fn left(&self) -> int { self.runiter.d().len() - self.runiter.pos() }
//@fn src/codecs/hdr/encoder.rs new ctx="impl < 'a > NorunCombineIterator" ret=res vis=pub
//@ spec
    ensures res.wf(), res.d() == $n0@, res.pos() == 0,
//@end
//@fn src/codecs/hdr/encoder.rs next ctx="Iterator for NorunCombineIterator" ret=res vis=pub
//@ sigsubst `Option<Self::Item>` => `Option<RunOrNot>`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).d() == old(self).d(), res.is_none() ==> old(self).pos() == old(self).d().len(),
        res matches Some(x) ==> piece(x, old(self).d(), old(self).pos()) && final(self).pos() == old(self).pos() + plen(x),
//@ loop 0 loop
    invariant self.wf(), self.d() == old(self).d(), self.pos() == old(self).pos(),
    decreases self.left(),
//@end
}
//@fn src/codecs/hdr/encoder.rs rle_compress
//@ panics forbid
//@ subst? `for rnr in NorunCombineIterator::new(data) {$A}` => `let mut vxit = NorunCombineIterator::new(data); loop { let rnr = match vxit.next() { Some(x) => x, None => { break; } }; $A }`
//@ subst? `rle.extend_from_slice(&data[$A..$B])` => `vx_extend(rle, vx_idx(data, $A, $B))`
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ spec
    // whatever was in the buffer before, it now holds packets that expand to the data
    ensures $n0@.len() > 0 ==> hx(final($n1)@) == Some($n0@), $n0@.len() == 0 ==> final($n1)@ == seq![0u8],
//@ at loop0.before
    proof { reveal(hx); assert($n1@ =~= Seq::<u8>::empty()); assert(data@.subrange(0, 0) =~= Seq::<u8>::empty()); }
//@ loop 0 loop
    invariant_except_break vxit.wf(), vxit.d() == data@, 0 <= vxit.pos() <= data@.len(), hx(rle@) == Some(data@.subrange(0, vxit.pos())),
    ensures hx(rle@) == Some(data@),
    decreases data@.len() - vxit.pos(),
//@ at loop0.start
    let ghost (p0, r0) = (vxit.pos(), rle@);
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//@ at loop0.end
    proof {
        let p1 = vxit.pos(); let x = data@.subrange(p0, p1);
        assert(data@.subrange(0, p0) + x =~= data@.subrange(0, p1));
        match rnr {
            RunOrNot::Run(c, n) => { lemma_run(c, n as int); lemma_append(r0, seq![(128 + n) as u8, c]); assert(rle@ =~= r0 + seq![(128 + n) as u8, c]); }
            RunOrNot::Norun(i, n) => { lemma_lit(x); lemma_append(r0, seq![n as u8] + x); assert(rle@ =~= r0 + (seq![n as u8] + x)); }
        }
    }
//@end
// ---- the decoder ----
// reading packets until `need` bytes are there; a packet that is too long, or missing data, is an error
#[verifier::opaque]
pub open spec fn rdc(s: Seq<u8>, need: int) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
    if need <= 0 { Some((Seq::empty(), s)) }
    else if s.len() == 0 { None }
    else {
        let n = s[0] as int;
        let (k, used) = if n > 128 { (n - 128, 1int) } else { (n, n) };
        if k > need || s.len() < 1 + used { None }
        else { match rdc(s.skip(1 + used), need - k) { None => None, Some((t, q)) => Some(((if n > 128 { rep(s[1], k) } else { s.subrange(1, 1 + n) }) + t, q)) } }
    }
}
// decompressing what was compressed gives the same bytes and leaves what follows
proof fn decompress_inverts_compress(s: Seq<u8>, t: Seq<u8>)
    requires hx(s).is_some() ensures rdc(s + t, hx(s).unwrap().len() as int) == Some((hx(s).unwrap(), t)) decreases s.len()
{
    reveal(hx); reveal(rdc);
    if s.len() == 0 { assert(s + t =~= t); }
    else {
        let n = s[0] as int; let used = if n > 128 { 1 } else { n };
        decompress_inverts_compress(s.skip(1 + used), t);
        assert((s + t).skip(1 + used) =~= s.skip(1 + used) + t);
        assert((s + t).subrange(1, 1 + used) =~= s.subrange(1, 1 + used));
    }
}
//@fn src/codecs/hdr/decoder.rs read_byte ret=res
//@ panics forbid
//@ subst? `r.read_exact(&mut buf[..])?;` => `vx_read1(r, &mut buf)?;`
//@ spec
    ensures res.is_ok() <==> old($n0).rest().len() >= 1, res.is_ok() ==> res.unwrap() == old($n0).rest()[0] && final($n0).rest() == old($n0).rest().skip(1),
//@end
// `r.read_exact(&mut buf[..])` for an array
#[verifier::external_body]
pub fn vx_read1<R: Read, const N: usize>(r: &mut R, buf: &mut [u8; N]) -> (x: IoResult<()>)
    ensures x.is_ok() <==> old(r).rest().len() >= N, x.is_ok() ==> final(buf)@ == old(r).rest().subrange(0, N as int) && final(r).rest() == old(r).rest().skip(N as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_zeros(n: usize) -> (v: Vec<u8>) ensures v@.len() == n { unimplemented!() }
// the callback of decode_component, as a store into the component's plane
pub fn vx_put(plane: &mut Vec<u8>, at: usize, v: u8) requires at < old(plane)@.len() ensures final(plane)@ == old(plane)@.update(at as int, v) { plane.set(at, v); }
//@fn src/codecs/hdr/decoder.rs decode_component ret=res
//@ panics forbid
//@ sigsubst `S: FnMut(usize, u8)` => ` `
//@ sigsubst `mut set_component: S` => `plane: &mut Vec<u8>`
//@ subst? `set_component($A, $B)` => `vx_put(plane, $A, $B)`
//@ subst? `let mut buf = [0; $A];` => `let mut buf = vx_zeros($A);`
//@ subst? `for (offset, &value) in buf[$A..$B].iter().enumerate() {$C}` => `let vxa: usize = $A; let vxb: usize = $B; for offset in 0..vxb - vxa { let value = buf[vxa + offset]; $C }`
//@ subst? `DecoderError::WrongScanlineLength($A, $B).into()` => `vx_err2($A, $B)`
//@ slices own=buf
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old(plane)@.len() == $n1, $n1 < usize::MAX - 256,
    ensures final(plane)@.len() == old(plane)@.len(), res.is_ok() <==> rdc(old($n0).rest(), $n1 as int).is_some(),
        res.is_ok() ==> final(plane)@ == rdc(old($n0).rest(), $n1 as int).unwrap().0 && final($n0).rest() == rdc(old($n0).rest(), $n1 as int).unwrap().1,
//@ at body.start
    let ghost r00 = r.rest();
    proof { reveal(rdc); }
//@ at loop0.before
    proof { match rdc(r00, width as int) { None => {}, Some((t, q)) => { assert(plane@.subrange(0, 0) + t =~= t); } } }
//@ loop 0 while
    invariant pos <= width, plane@.len() == width, buf@.len() == 128,
        rdc(r00, width as int) == (match rdc(r.rest(), width - pos) { None => None, Some((t, q)) => Some((plane@.subrange(0, pos as int) + t, q)) }),
    decreases r.rest().len(),
//@ at loop0.start
    let ghost (r0, pl0, pos0) = (r.rest(), plane@, pos as int);
    let ghost n = r0[0] as int;
//@ loop 1 for it=it1
    invariant plane@.len() == width, rl as int == n, n <= 128, pos == pos0, pos + n <= width, r0.len() >= 1 + n, buf@.len() == 128,
        forall|k: int| 0 <= k < n ==> (#[trigger] buf@[k]) == r0[1 + k],
        forall|k: int| 0 <= k < width ==> (#[trigger] plane@[k]) == (if pos0 <= k < pos0 + $v1 { r0[1 + k - pos0] } else { pl0[k] }),
//@ loop 2 for it=it2
    invariant plane@.len() == width, rl as int == n - 128, n > 128, pos == pos0, pos + n - 128 <= width, value == r0[1],
        forall|k: int| 0 <= k < width ==> (#[trigger] plane@[k]) == (if pos0 <= k < pos0 + $v2 { r0[1] } else { pl0[k] }),
//@ at loop0.end
    proof {
        let (k, used) = if n > 128 { (n - 128, 1int) } else { (n, n) };
        assert(r0.skip(1).skip(used) =~= r0.skip(1 + used));
        let h = if n > 128 { rep(r0[1], k) } else { r0.subrange(1, 1 + n) };
        assert(plane@.subrange(0, pos as int) =~= pl0.subrange(0, pos0) + h);
        match rdc(r.rest(), width - pos) { None => {}, Some((t, q)) => { assert(pl0.subrange(0, pos0) + (h + t) =~= (pl0.subrange(0, pos0) + h) + t); } }
    }
//@ at loop0.after
    proof { assert(plane@.subrange(0, width as int) =~= plane@); assert(plane@ + Seq::<u8>::empty() =~= plane@); }
//@end
// ---- whole pixels: plain, or repeated by markers (1, 1, 1, count), successive markers counting in base 256 ----
//@item src/codecs/hdr/decoder.rs struct Rgbe8Pixel vis=pub attrs="#[derive(Copy, Clone)]" sub="pub(crate)=>pub"
pub open spec fn px(s: Seq<u8>) -> Rgbe8Pixel { Rgbe8Pixel { c: [s[0], s[1], s[2]], e: s[3] } }
pub open spec fn marker(s: Seq<u8>) -> bool { s[0] == 1 && s[1] == 1 && s[2] == 1 }
pub open spec fn satmul(a: int, b: int) -> int { if a * b > usize::MAX { usize::MAX as int } else { a * b } }
#[verifier::opaque]
pub open spec fn oldr(s: Seq<u8>, prev: Rgbe8Pixel, mult: int, need: int) -> Option<(Seq<Rgbe8Pixel>, Seq<u8>)> decreases s.len() {
    if need <= 0 { Some((Seq::empty(), s)) }
    else if s.len() < 4 { None }
    else if marker(s) {
        let rl = satmul(s[3] as int, mult);
        if rl > need { None } else { match oldr(s.skip(4), prev, satmul(mult, 256), need - rl) { None => None, Some((t, q)) => Some((Seq::new(rl as nat, |i: int| prev) + t, q)) } }
    } else { match oldr(s.skip(4), px(s), 1, need - 1) { None => None, Some((t, q)) => Some((seq![px(s)] + t, q)) } }
}
pub fn vx_eq3(a: [u8; 3], b: [u8; 3]) -> (r: bool) ensures r == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]) { a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }
#[verifier::external_body]
pub fn vx_fill<T: Copy>(v: &mut [T], a: usize, b: usize, x: T)
    requires a <= b <= old(v)@.len(), ensures final(v)@ == old(v)@.subrange(0, a as int) + Seq::new((b - a) as nat, |i: int| x) + old(v)@.skip(b as int) { for e in &mut v[a..b] { *e = x; } }
//@fn src/codecs/hdr/decoder.rs read_rgbe ret=res
//@ panics forbid
//@ subst? `r.read_exact(&mut buf[..])?;` => `vx_read1(r, &mut buf)?;`
//@ spec
    ensures res.is_ok() <==> old($n0).rest().len() >= 4, res.is_ok() ==> res.unwrap() == px(old($n0).rest()) && final($n0).rest() == old($n0).rest().skip(4),
//@ at before `Ok(Rgbe8Pixel`
    proof { assert([buf[0], buf[1], buf[2]]@ =~= px(old($n0).rest()).c@); }
//@end
//@fn src/codecs/hdr/decoder.rs rl_marker ret=res
//@ panics forbid
//@ subst? `pix.c == $A` => `vx_eq3(pix.c, $A)`
//@ spec
    ensures res.is_some() <==> ($n0.c[0] == 1 && $n0.c[1] == 1 && $n0.c[2] == 1), res matches Some(n) ==> n == $n0.e,
//@end
//@fn src/codecs/hdr/decoder.rs decode_old_rle ret=res
//@ panics forbid
//@ subst? `fn rl_marker(pix: Rgbe8Pixel) -> Option<usize> {$A}` => ` `
//@ subst? `DecoderError::FirstPixelRlMarker.into()` => `vx_err()`
//@ subst? `DecoderError::WrongScanlineLength($A, $B).into()` => `vx_err2($A, $B)`
//@ subst? `for b in &mut buf[$A..$B] { *b = $C; }` => `vx_fill(buf, $A, $B, $C);`
//@ subst? `let mut x_off = 1;` => `let mut x_off: usize = 1;`
//@ subst? `let mut rl_mult = 1;` => `let mut rl_mult: usize = 1;`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old($n2)@.len() > 0, old($n2)@.len() < usize::MAX - 256,
    ensures final($n2)@.len() == old($n2)@.len(),
        res.is_ok() <==> !($n1.c[0] == 1 && $n1.c[1] == 1 && $n1.c[2] == 1) && oldr(old($n0).rest(), $n1, 1, old($n2)@.len() - 1).is_some(),
        res.is_ok() ==> ({ let (t, q) = oldr(old($n0).rest(), $n1, 1, old($n2)@.len() - 1).unwrap(); final($n2)@ == seq![$n1] + t && final($n0).rest() == q }),
//@ at loop0.before
    let ghost all = oldr(r.rest(), fb, 1, width - 1);
    proof { match all { None => {}, Some((t, q)) => { assert(buf@.subrange(0, 1) =~= seq![fb]); } } }
//@ loop 0 while
    invariant 1 <= x_off <= width, buf@.len() == width, rl_mult >= 1,
        all == (match oldr(r.rest(), prev_pixel, rl_mult as int, width - x_off) { None => None, Some((t, q)) => Some((buf@.subrange(1, x_off as int) + t, q)) }), buf@[0] == fb,
    decreases r.rest().len(),
//@ at loop0.start
    let ghost (r0, b0, x0, m0, p0) = (r.rest(), buf@, x_off as int, rl_mult as int, prev_pixel);
    proof { reveal(oldr); }
//@ at loop0.end
    proof {
        let h = if marker(r0) { Seq::new(satmul(r0[3] as int, m0) as nat, |i: int| p0) } else { seq![px(r0)] };
        assert(buf@.subrange(1, x_off as int) =~= b0.subrange(1, x0) + h);
        match oldr(r.rest(), prev_pixel, rl_mult as int, width - x_off) { None => {}, Some((t, q)) => { assert(b0.subrange(1, x0) + (h + t) =~= (b0.subrange(1, x0) + h) + t); } }
    }
//@ at loop0.after
    proof { reveal(oldr); assert(buf@ =~= seq![fb] + (buf@.subrange(1, width as int) + Seq::<Rgbe8Pixel>::empty())); }
//@end
// a scanline: the marker (2, 2, below 128, _) announces four component planes
pub open spec fn planes(s: Seq<u8>, w: int) -> Option<(Seq<Rgbe8Pixel>, Seq<u8>)> {
    match rdc(s, w) { None => None, Some((r, s1)) => match rdc(s1, w) { None => None, Some((g, s2)) => match rdc(s2, w) { None => None, Some((b, s3)) => match rdc(s3, w) { None => None,
        Some((e, s4)) => Some((Seq::new(w as nat, |i: int| Rgbe8Pixel { c: [r[i], g[i], b[i]], e: e[i] }), s4)) } } } }
}
pub open spec fn scanline(s: Seq<u8>, w: int) -> Option<(Seq<Rgbe8Pixel>, Seq<u8>)> {
    if s.len() < 4 { None }
    else if s[0] == 2 && s[1] == 2 && s[2] < 128 { planes(s.skip(4), w) }
    else if marker(s) { None }
    else { match oldr(s.skip(4), px(s), 1, w - 1) { None => None, Some((t, q)) => Some((seq![px(s)] + t, q)) } }
}
pub open spec fn with_c(p: Rgbe8Pixel, ch: int, v: u8) -> Rgbe8Pixel {
    if ch == 0 { Rgbe8Pixel { c: [v, p.c[1], p.c[2]], e: p.e } } else if ch == 1 { Rgbe8Pixel { c: [p.c[0], v, p.c[2]], e: p.e } }
    else if ch == 2 { Rgbe8Pixel { c: [p.c[0], p.c[1], v], e: p.e } } else { Rgbe8Pixel { c: p.c, e: v } }
}
// decode_component with the callback `|offset, value| buf[offset].<channel> = value` (its contract is proved above)
#[verifier::external_body]
pub fn vx_component<R: Read>(r: &mut R, width: usize, buf: &mut [Rgbe8Pixel], ch: usize) -> (res: ImageResult<()>)
    requires old(buf)@.len() == width, ch < 4, width < usize::MAX - 256,
    ensures final(buf)@.len() == width, res.is_ok() <==> rdc(old(r).rest(), width as int).is_some(),
        res.is_ok() ==> ({ let (t, q) = rdc(old(r).rest(), width as int).unwrap(); final(r).rest() == q && forall|k: int| 0 <= k < width ==> #[trigger] final(buf)@[k] == with_c(old(buf)@[k], ch as int, t[k]) }) { unimplemented!() }
proof fn lemma_rdc_len(s: Seq<u8>, need: int) requires need >= 0 ensures rdc(s, need) matches Some((t, q)) ==> t.len() == need decreases s.len()
{
    reveal(rdc);
    if need > 0 && s.len() > 0 {
        let n = s[0] as int; let (k, used) = if n > 128 { (n - 128, 1int) } else { (n, n) };
        if !(k > need || s.len() < 1 + used) { lemma_rdc_len(s.skip(1 + used), need - k); }
    }
}
//@fn src/codecs/hdr/decoder.rs read_scanline ret=res
//@ panics forbid
//@ subst? `decode_component(r, width, |offset, value| buf[offset].c[$A] = value)?` => `vx_component(r, width, buf, $A)?`
//@ subst? `decode_component(r, width, |offset, value| buf[offset].e = value)?` => `vx_component(r, width, buf, 3)?`
//@ spec
    requires old($n1)@.len() > 0, old($n1)@.len() < usize::MAX - 256,
    ensures final($n1)@.len() == old($n1)@.len(), res.is_ok() <==> scanline(old($n0).rest(), old($n1)@.len() as int).is_some(),
        res.is_ok() ==> final($n1)@ == scanline(old($n0).rest(), old($n1)@.len() as int).unwrap().0 && final($n0).rest() == scanline(old($n0).rest(), old($n1)@.len() as int).unwrap().1,
//@ at before? `Ok(())`
    proof {
        let s = old($n0).rest(); let w = old($n1)@.len() as int;
        if s[0] == 2 && s[1] == 2 && s[2] < 128 { assert(buf@ =~= scanline(s, w).unwrap().0); }
    }
//@end
} // verus!
fn main() {}
