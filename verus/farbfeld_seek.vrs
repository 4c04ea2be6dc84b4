#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include bytes.vrs
// `r.read_exact(&mut buf)` for an array
#[verifier::external_body]
pub fn vx_read1<R: Read, const N: usize>(r: &mut R, buf: &mut [u8; N]) -> (x: IoResult<()>)
    ensures final(r).data() == old(r).data(), final(r).past() == old(r).past(), x.is_ok() <==> old(r).rest().len() >= N, x.is_ok() ==> final(buf)@ == old(r).rest().subrange(0, N as int) && final(r).rest() == old(r).rest().skip(N as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fill(to: &mut [u8], b: &[u8]) -> (x: IoResult<()>)
    requires b@.len() <= old(to)@.len(), ensures x.is_ok(), final(to)@ == b@ + old(to)@.skip(b@.len() as int) { unimplemented!() }
pub open spec fn conv(s: Seq<u8>, a: bool, b: bool) -> Seq<u8> { Seq::new((s.len() / 2 * 2) as nat, |i: int| b16(v16(s, i / 2 * 2, a) as u16, b)[i % 2]) }
pub assume_specification [i64::wrapping_neg] (a: i64) -> (r: i64) ensures r == if a == i64::MIN { i64::MIN as int } else { -a as int };
#[verifier::external_body] pub fn vx_io_err() -> (e: IoError) { unimplemented!() }
// `i64::try_from(x).ok()`, `Option::ok_or_else`, `expect`
pub fn vx_i64(x: u64) -> (r: Option<i64>) ensures r == (if x <= i64::MAX { Some(x as i64) } else { None::<i64> }) { if x <= i64::MAX as u64 { Some(x as i64) } else { None } }
pub fn vx_i64_or_max(x: u64) -> (r: i64) ensures r == (if x <= i64::MAX { x as int } else { i64::MAX as int }) { if x <= i64::MAX as u64 { x as i64 } else { i64::MAX } }
pub fn vx_ok_or<T>(o: Option<T>) -> (r: IoResult<T>) ensures r.is_ok() <==> o.is_some(), o matches Some(x) ==> r == Ok::<T, IoError>(x) { match o { Some(x) => Ok(x), None => Err(vx_io_err()) } }
pub fn vx_expect<T>(o: Option<T>) -> (r: T) requires o.is_some() ensures Some(r) == o { match o { Some(x) => x, None => vx_unreachable() } }
//@fn src/codecs/farbfeld.rs consume_channel ret=res
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `from.read_exact(&mut ibuf)?` => `vx_read1(from, &mut ibuf)?`
//@ subst? `to.write_all($A)?` => `vx_fill(to, $A)?`
//@ bytes
//@ panics forbid
//@ spec
    requires old($n1)@.len() == 2,
    ensures final($n1)@.len() == 2, res.is_ok() <==> old($n0).rest().len() >= 2, final($n0).data() == old($n0).data(), final($n0).past() == old($n0).past(),
        res.is_ok() ==> final($n0).rest() == old($n0).rest().skip(2) && final($n1)@ == b16(v16(old($n0).rest(), 0, false) as u16, ne()),
//@end
//@fn src/codecs/farbfeld.rs cache_byte ret=res
//@ sigsubst `io::Result<u8>` => `IoResult<u8>`
//@ panics forbid
//@ spec
    ensures res.is_ok() <==> old($n0).rest().len() >= 2, final($n0).data() == old($n0).data(), final($n0).past() == old($n0).past(),
        res.is_ok() ==> final($n0).rest() == old($n0).rest().skip(2) && seq![res.unwrap(), final($n1).unwrap()] == b16(v16(old($n0).rest(), 0, false) as u16, ne()) && final($n1).is_some(),
//@end
// a seek to `Start(n)` goes n bytes past the start of the samples, counted from where the reader is; None where no i64 can say it
//@fn src/codecs/farbfeld.rs parse_offset ret=res
//@ subst? `i64::try_from($A).unwrap_or(i64::MAX)` => `vx_i64_or_max($A)`
//@ subst? `i64::try_from($A).ok()` => `vx_i64($A)`
//@ panics forbid
//@ spec
    requires $n0 <= i64::MAX / 4, $n1 <= i64::MAX / 4, !($n2 is End),
    ensures $n2 matches SeekFrom::Start(o) ==> (o <= i64::MAX ==> res == Some((o - $n0) as i64)) && (o > i64::MAX ==> res.is_none()),
        $n2 matches SeekFrom::Current(o) ==> (o >= $n0 ==> res == Some(o)),
//@end
//@item src/codecs/farbfeld.rs struct FarbfeldReader vis=pub
//@item src/codecs/farbfeld.rs struct FarbfeldDecoder vis=pub
impl<R: Read + Seek> FarbfeldReader<R> {
    pub closed spec fn offset(&self) -> int { self.current_offset as int }
    pub closed spec fn file(&self) -> Seq<u8> { self.inner.data() }
    pub closed spec fn src(&self) -> Seq<u8> { self.inner.rest() }
    pub closed spec fn size(&self) -> int { 2 * (self.width * self.height) }
    pub closed spec fn ready(&self) -> bool { self.cached_byte.is_none() && !self.inner.past() }
    // where the samples start in the file: the reader stands `offset` bytes behind it
    pub closed spec fn start(&self) -> int { self.inner.data().len() - self.inner.rest().len() - self.current_offset }
    pub open spec fn on(&self) -> bool { self.ready() && 0 <= self.start() && self.start() + self.offset() <= self.file().len() && self.src() == self.file().skip(self.start() + self.offset())
        && self.offset() <= i64::MAX / 4 && self.size() <= i64::MAX / 4 && self.file().len() <= i64::MAX }
    pub open spec fn pending(&self) -> Seq<u8> { conv(self.src(), false, ne()) }
    // `read_exact` of std: `read` (contract under C18) until the buffer is full
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>)
        requires old(buf)@.len() % 2 == 0,
        ensures final(buf)@.len() == old(buf)@.len(), final(self).file() == old(self).file(), final(self).start() == old(self).start(), final(self).size() == old(self).size(),
            r.is_ok() ==> old(buf)@.len() <= old(self).pending().len() && final(buf)@ == old(self).pending().subrange(0, old(buf)@.len() as int) && final(self).offset() == old(self).offset() + old(buf)@.len() && (old(self).on() && final(self).offset() <= i64::MAX / 4 ==> final(self).on()),
    { unimplemented!() }
//@fn src/codecs/farbfeld.rs seek ctx="Seek for FarbfeldReader" ret=res vis=pub
//@ sigsubst `io::Result<u64>` => `IoResult<u64>`
//@ subst `fn parse_offset($A) -> Option<i64> {$B}` => ` `
//@ subst? `parse_offset($A).ok_or_else(|| $B)?` => `vx_ok_or(parse_offset($A))?`
//@ subst? `if offset_from_current < 0 {$A} else {$B}.expect($C)` => `vx_expect(if offset_from_current < 0 {$A} else {$B})`
//@ panics forbid
//@ at body.start
    proof { assert(0 <= self.width as int * self.height as int <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= self.width <= 0xffff_ffff, 0 <= self.height <= 0xffff_ffff; }
//@ spec
    requires old(self).on(), $n0 matches SeekFrom::Start(n) ==> n % 2 == 0 && old(self).start() + n <= old(self).file().len(), $n0 matches SeekFrom::Current(n) ==> n == 0 && old(self).offset() == 0, !($n0 is End),
    ensures final(self).file() == old(self).file(), final(self).size() == old(self).size(), $n0 matches SeekFrom::Start(n) ==> n <= i64::MAX / 4 ==> res.is_ok() && final(self).on() && final(self).start() == old(self).start() && final(self).offset() == n,
        $n0 is Current ==> res == Ok::<u64, IoError>(0) && final(self).on() && final(self).start() == old(self).start() && final(self).offset() == 0,
//@end
}
// the two callbacks of read_rect: one scanline is one sample of two bytes
impl<R: Read + Seek> FarbfeldDecoder<R> {
    pub closed spec fn rd(&self) -> FarbfeldReader<R> { self.reader }
}
//@fn src/codecs/farbfeld.rs read_rect closure=#0 as=rect_seek ret=res vis=pub
//@ sig `fn rect_seek<R: Read + Seek>(s: &mut FarbfeldDecoder<R>, scanline: u64) -> IoResult<()>`
//@ subst? `$A.map(|_| ())` => `match $A { Ok(_) => Ok(()), Err(e) => Err(e) }`
//@ panics forbid
//@ spec
    requires old(s).rd().on(), scanline <= i64::MAX / 8, old(s).rd().start() + 2 * scanline <= old(s).rd().file().len(),
    ensures res.is_ok(), final(s).rd().on(), final(s).rd().file() == old(s).rd().file(), final(s).rd().start() == old(s).rd().start(), final(s).rd().offset() == 2 * scanline,
//@end
//@fn src/codecs/farbfeld.rs read_rect closure=#2 as=rect_read ret=res vis=pub
//@ sig `fn rect_read<R: Read + Seek>(s: &mut FarbfeldDecoder<R>, buf: &mut [u8]) -> IoResult<()>`
//@ panics forbid
//@ spec
    requires old(s).rd().on(), old(buf)@.len() == 2, old(s).rd().offset() % 2 == 0,
    ensures final(buf)@.len() == 2, res.is_ok() ==> final(s).rd().offset() == old(s).rd().offset() + 2 && final(s).rd().start() == old(s).rd().start() && final(s).rd().file() == old(s).rd().file()
        && old(s).rd().src().len() >= 2 && final(buf)@ == b16(v16(old(s).rd().src(), 0, false) as u16, ne()),
//@end
}
fn main() {}
