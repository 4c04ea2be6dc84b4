#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include chunks.vrs
#[derive(Debug)]
pub enum ImageError { IoError, Decoding, Unsupported }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
//@include bytes.vrs
//@include colortypes.vrs
// `s.try_into().unwrap()`
#[verifier::external_body]
pub fn vx_arr<const N: usize>(s: &[u8]) -> (r: [u8; N]) requires s@.len() == N ensures r@ == s@ { s.try_into().unwrap() }
// `r.read_exact(&mut buf)` for an array
#[verifier::external_body]
pub fn vx_read1<R: Read, const N: usize>(r: &mut R, buf: &mut [u8; N]) -> (x: IoResult<()>)
    ensures x.is_ok() <==> old(r).rest().len() >= N, x.is_ok() ==> final(buf)@ == old(r).rest().subrange(0, N as int) && final(r).rest() == old(r).rest().skip(N as int) { unimplemented!() }
// `to.write_all(b)` where `to` is a slice: the first bytes are overwritten
#[verifier::external_body]
pub fn vx_fill(to: &mut [u8], b: &[u8]) -> (x: IoResult<()>)
    requires b@.len() <= old(to)@.len(), ensures x.is_ok(), final(to)@ == b@ + old(to)@.skip(b@.len() as int) { unimplemented!() }
// samples of one buffer in the other byte order: from order a to order b
pub open spec fn conv(s: Seq<u8>, a: bool, b: bool) -> Seq<u8> { Seq::new((s.len() / 2 * 2) as nat, |i: int| b16(v16(s, i / 2 * 2, a) as u16, b)[i % 2]) }
pub open spec fn magic() -> Seq<u8> { seq![0x66u8, 0x61u8, 0x72u8, 0x62u8, 0x66u8, 0x65u8, 0x6cu8, 0x64u8] }
// ---- encoder ----
//@item src/codecs/farbfeld.rs struct FarbfeldEncoder vis=pub
impl<W: Write> FarbfeldEncoder<W> {
    pub closed spec fn o(&self) -> Seq<u8> { self.w.out() }
//@fn src/codecs/farbfeld.rs encode_impl ret=res
//@ sigsubst `mut self` => `&mut self`
//@ forvec 0 `data.chunks_exact($A)` => `vx_chunks_exact(data, $A)`
//@ subst? `channel.try_into().unwrap()` => `vx_arr::<2>(channel)`
//@ bytes
//@ panics forbid
//@ at body.start
    let ghost o0 = self.w.out();
//@ at before `let vxi0`
    let ghost h = o0 + magic() + b32($n1, false) + b32($n2, false);
    assert(self.w.out() =~= h) by { assert((&[0x66u8, 0x61u8, 0x72u8, 0x62u8, 0x66u8, 0x65u8, 0x6cu8, 0x64u8])@ =~= magic()); }
//@ loop 0 forvec
    invariant vxi0@.len() == $n0@.len() / 2, vxk0 <= vxi0@.len(), forall|k: int| 0 <= k < vxi0@.len() ==> (#[trigger] vxi0@[k])@ == $n0@.subrange(k * 2, k * 2 + 2),
        h == o0 + magic() + b32($n1, false) + b32($n2, false), self.w.out() == h + conv($n0@, ne(), false).subrange(0, 2 * vxk0),
    decreases vxi0@.len() - vxk0
//@ at loop0.end
    proof {
        let k = vxk0 - 1; let c = conv($n0@, ne(), false); let ch = vxi0@[k]@;
        assert(ch[0] == $n0@[2 * k] && ch[1] == $n0@[2 * k + 1]);
        assert(c[2 * k] == b16(v16($n0@, 2 * k, ne()) as u16, false)[0] && c[2 * k + 1] == b16(v16($n0@, 2 * k, ne()) as u16, false)[1]);
        assert(self.w.out() =~= h + c.subrange(0, 2 * vxk0));
    }
//@ at loop0.after
    proof { assert(conv($n0@, ne(), false).subrange(0, 2 * vxk0) =~= conv($n0@, ne(), false)); }
//@ spec
    ensures res.is_ok() ==> final(self).o() == old(self).o() + magic() + b32($n1, false) + b32($n2, false) + conv($n0@, ne(), false),
//@end
}
impl<W: Write> FarbfeldEncoder<W> {
//@fn src/codecs/farbfeld.rs encode ret=res vis=pub
//@ sigsubst `self` => `&mut self`
//@ panics allow
//@ spec
    requires $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> $n0@.len() == 8 * ($n1 * $n2) && final(self).o() == old(self).o() + magic() + b32($n1, false) + b32($n2, false) + conv($n0@, ne(), false),
//@ at body.start
    proof { assert(0 <= $n1 as int * $n2 as int <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= $n1 <= 0xffff_ffff, 0 <= $n2 <= 0xffff_ffff; }
//@end
//@fn src/codecs/farbfeld.rs write_image ret=res vis=pub
//@ sigsubst `self` => `&mut self`
//@ subst? `return Err(ImageError::$A)` => `return Err(vx_err())`
//@ panics allow
//@ spec
    requires $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> $n3 == ExtendedColorType::Rgba16 && $n0@.len() == 8 * ($n1 * $n2) && final(self).o() == old(self).o() + magic() + b32($n1, false) + b32($n2, false) + conv($n0@, ne(), false),
//@end
}
// ---- what is written is read back ----
proof fn lemma_b16(v: u16, le: bool) ensures b16(v, le).len() == 2, v16(b16(v, le), 0, le) == v {}
proof fn lemma_b32(v: u32) ensures b32(v, false).len() == 4, v32(b32(v, false), 0, false) == v {}
proof fn lemma_v16(s: Seq<u8>, p: int, le: bool) requires 0 <= p, p + 2 <= s.len() ensures 0 <= v16(s, p, le) <= 65535, b16(v16(s, p, le) as u16, le) == seq![s[p], s[p + 1]]
{ assert(b16(v16(s, p, le) as u16, le) =~= seq![s[p], s[p + 1]]); }
pub proof fn round_trip(data: Seq<u8>, w: u32, h: u32)
    requires data.len() == 8 * (w * h), data.len() <= u64::MAX
    ensures ({ let f = magic() + b32(w, false) + b32(h, false) + conv(data, ne(), false);
        f.len() >= 16 && f.subrange(0, 8) == magic() && v32(f, 8, false) == w && v32(f, 12, false) == h && v32(f, 8, false) * v32(f, 12, false) * 8 <= u64::MAX
        && conv(f.skip(16), false, ne()) == data })
{
    let c = conv(data, ne(), false); let f = magic() + b32(w, false) + b32(h, false) + c;
    lemma_b32(w); lemma_b32(h);
    assert(f.subrange(0, 8) =~= magic()); assert(f.skip(16) =~= c);
    assert(v32(f, 8, false) == v32(b32(w, false), 0, false)); assert(v32(f, 12, false) == v32(b32(h, false), 0, false));
    assert(w * h >= 0) by (nonlinear_arith) requires w >= 0, h >= 0;
    let d = conv(c, false, ne());
    assert(data.len() % 2 == 0); assert(c.len() == data.len());
    assert forall|i: int| 0 <= i < data.len() implies #[trigger] d[i] == data[i] by {
        let k = i / 2 * 2; lemma_v16(data, k, ne()); let x = v16(data, k, ne()) as u16;
        assert(c[k] == b16(v16(data, k / 2 * 2, ne()) as u16, false)[k % 2] && c[k + 1] == b16(v16(data, (k + 1) / 2 * 2, ne()) as u16, false)[(k + 1) % 2]);
        lemma_b16(x, false); assert(v16(c, k, false) == x);
        assert(d[i] == b16(v16(c, k, false) as u16, ne())[i % 2]);
        assert(seq![data[k], data[k + 1]][i % 2] == data[i]);
    }
    assert(d =~= data);
}
// ---- decoder ----
//@item src/codecs/farbfeld.rs struct FarbfeldReader vis=pub
//@fn src/utils/mod.rs check_dimension_overflow ret=res vis=pub
//@ bytes
//@ panics forbid
//@ at body.start
    proof { assert(0 <= $n0 as int * $n1 as int <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= $n0 <= 0xffff_ffff, 0 <= $n1 <= 0xffff_ffff; lemma_over($n0 as int * $n1 as int, $n2 as int); }
//@ spec
    requires $n2 > 0,
    ensures res <==> $n0 as int * $n1 as int * $n2 as int > u64::MAX,
//@end
proof fn lemma_over(a: int, b: int) requires a >= 0, b > 0 ensures a > 0xffff_ffff_ffff_ffffint / b <==> a * b > 0xffff_ffff_ffff_ffff
{
    let m = 0xffff_ffff_ffff_ffffint; let q = m / b;
    assert(m == q * b + m % b && 0 <= m % b < b) by (nonlinear_arith) requires b > 0, q == m / b;
    if a > q { assert(a * b >= q * b + b) by (nonlinear_arith) requires a >= q + 1, b > 0; }
    else { assert(a * b <= q * b) by (nonlinear_arith) requires a <= q, b > 0; }
}
//@fn src/codecs/farbfeld.rs read_dimm ret=res
//@ subst? `from.read_exact(&mut buf).map_err($A)?` => `vx_read_or(from, &mut buf)?`
//@ bytes
//@ panics forbid
//@ spec
    ensures res.is_ok() <==> old($n0).rest().len() >= 4, res.is_ok() ==> res.unwrap() == v32(old($n0).rest(), 0, false) && final($n0).rest() == old($n0).rest().skip(4),
//@end
#[verifier::external_body]
pub fn vx_err() -> (e: ImageError) { unimplemented!() }
// `read_exact(..).map_err(..)`: only whether it failed matters
#[verifier::external_body]
pub fn vx_read_or<R: Read, const N: usize>(r: &mut R, buf: &mut [u8; N]) -> (x: ImageResult<()>)
    ensures x.is_ok() <==> old(r).rest().len() >= N, x.is_ok() ==> final(buf)@ == old(r).rest().subrange(0, N as int) && final(r).rest() == old(r).rest().skip(N as int) { unimplemented!() }
proof fn lemma_conv_skip(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), k % 2 == 0 ensures conv(s.skip(k), false, ne()) == conv(s, false, ne()).skip(k)
{
    let a = conv(s.skip(k), false, ne()); let b = conv(s, false, ne()).skip(k);
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by {
        assert(i / 2 * 2 + k == (i + k) / 2 * 2 && i % 2 == (i + k) % 2);
        assert(v16(s.skip(k), i / 2 * 2, false) == v16(s, (i + k) / 2 * 2, false));
    }
    assert(a =~= b);
}
impl<R: Read> FarbfeldReader<R> {
    pub closed spec fn dim(&self) -> (u32, u32) { (self.width, self.height) }
    pub closed spec fn offset(&self) -> int { self.current_offset as int }
    pub closed spec fn src(&self) -> Seq<u8> { self.inner.rest() }
    pub closed spec fn cached(&self) -> Option<u8> { self.cached_byte }
    // the samples still to come, in memory order
    pub open spec fn pending(&self) -> Seq<u8> { (match self.cached() { Some(c) => seq![c], None => Seq::empty() }) + conv(self.src(), false, ne()) }
//@fn src/codecs/farbfeld.rs new ctx="impl < R : Read > FarbfeldReader" ret=res vis=pub
//@ subst `fn read_dimm<R: Read>(from: &mut R) -> ImageResult<u32> {$A}` => ` `
//@ subst? `buffered_read.read_exact(&mut magic).map_err($A)?` => `vx_read_or(&mut buffered_read, &mut magic)?`
//@ subst? `&magic != $A {` => `!vx_same(&magic, $A) {`
//@ subst? `return Err(ImageError::$A)` => `return Err(vx_err())`
//@ subst? `crate::utils::check_dimension_overflow` => `check_dimension_overflow`
//@ bytes
//@ panics forbid
//@ at body.start
    let ghost s0 = $n0.rest();
//@ spec
    ensures res.is_ok() <==> $n0.rest().len() >= 16 && $n0.rest().subrange(0, 8) == magic() && v32($n0.rest(), 8, false) * v32($n0.rest(), 12, false) * 8 <= u64::MAX,
        res matches Ok(d) ==> d.dim() == (v32($n0.rest(), 8, false) as u32, v32($n0.rest(), 12, false) as u32) && d.src() == $n0.rest().skip(16) && d.cached().is_none() && d.offset() == 0,
//@end
//@fn src/codecs/farbfeld.rs read ctx="Read for FarbfeldReader" ret=res vis=pub
//@ sigsubst `io::Result<usize>` => `IoResult<usize>`
//@ subst? `for channel_out in buf.chunks_exact_mut(2) {$B}` => `let vxn = buf.len() / 2; for vxc in 0..vxn { let channel_out = vx_slice_mut(buf, 2 * vxc, 2 * vxc + 2); $B }`
//@ slices
//@ panics forbid
//@ at body.start
    let ghost r0 = self.inner.rest(); let ghost p0 = self.pending(); let ghost len0 = $n0@.len(); let ghost cv = conv(r0, false, ne());
//@ at before `if buf . len ( ) == 1`
    let ghost n1 = bytes_written as int; let ghost o1 = self.current_offset as int; let ghost len1 = buf@.len() as int;
//@ loop 0 for it=it
    invariant r0 == old(self).inner.rest(), len1 + n1 == old($n0)@.len(), n1 >= 0, self.cached_byte.is_none(), self.inner.rest() == r0.skip(2 * it.index@), 2 * it.index@ <= r0.len(), buf@.len() == len1, vxn == len1 / 2, len1 <= usize::MAX / 2, n1 <= 1,
        bytes_written == n1 + 2 * it.index@, self.current_offset == o1 + 2 * it.index@, o1 <= u64::MAX / 2, cv == conv(r0, false, ne()),
        buf@.subrange(0, 2 * it.index@) == cv.subrange(0, 2 * it.index@),
//@ at before `Ok ( bytes_written )`
    proof {
        let m: int = bytes_written - n1; let k: int = if len1 == 1 { 2 } else { m };
        lemma_conv_skip(r0, k);
        let p1 = self.pending(); let want = p0.skip(bytes_written as int);
        if len1 == 1 { assert(cv[0] == b16(v16(r0, 0, false) as u16, ne())[0] && cv[1] == b16(v16(r0, 0, false) as u16, ne())[1]); assert(seq![buf@[0], self.cached_byte.unwrap()][0] == cv[0] && seq![buf@[0], self.cached_byte.unwrap()][1] == cv[1]); assert(p1 =~= want); }
        else { assert(p1 =~= want); assert(buf@.subrange(0, m) =~= cv.subrange(0, m)); assert forall|i: int| 0 <= i < m implies #[trigger] buf@[i] == p0[i + n1] by { assert(buf@.subrange(0, m)[i] == cv.subrange(0, m)[i]); } }
    }
//@ at loop0.start
    let ghost b0 = buf@;
//@ at loop0.end
    proof {
        let k = 2 * $v0;
        assert(r0.skip(k).skip(2) =~= r0.skip(k + 2));
        assert(buf@.subrange(0, k + 2) =~= cv.subrange(0, k + 2)) by {
            assert(v16(r0.skip(k), 0, false) == v16(r0, k as int, false));
            assert forall|j: int| 0 <= j < k implies buf@[j] == cv[j] by { assert(buf@[j] == b0[j]); assert(b0.subrange(0, k as int)[j] == cv.subrange(0, k as int)[j]); }
        }
    }
//@ spec
    requires old($n0)@.len() > 0, old($n0)@.len() <= usize::MAX / 2, old(self).offset() < u64::MAX / 2,
    ensures res matches Ok(n) ==> n <= old($n0)@.len() && n <= old(self).pending().len(),
       res matches Ok(n) ==> final($n0)@.len() == old($n0)@.len() && forall|i: int| 0 <= i < n ==> #[trigger] final($n0)@[i] == old(self).pending()[i],
       res matches Ok(n) ==> final(self).pending() == old(self).pending().skip(n as int),
       res matches Ok(n) ==> final(self).offset() == old(self).offset() + n && final(self).dim() == old(self).dim(),
       // as much as was asked for, except that an odd byte may be left for the next call; it fails only where the file ends early
       res matches Ok(n) ==> 1 <= n && n >= old($n0)@.len() - 1,
       res.is_err() ==> old(self).src().len() <= old($n0)@.len(),
//@end
}
//@fn src/codecs/farbfeld.rs consume_channel ret=res
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `from.read_exact(&mut ibuf)?` => `vx_read1(from, &mut ibuf)?`
//@ subst? `to.write_all($A)?` => `vx_fill(to, $A)?`
//@ bytes
//@ panics forbid
//@ spec
    requires old($n1)@.len() == 2,
    ensures final($n1)@.len() == 2, res.is_ok() <==> old($n0).rest().len() >= 2,
        res.is_ok() ==> final($n0).rest() == old($n0).rest().skip(2) && final($n1)@ == b16(v16(old($n0).rest(), 0, false) as u16, ne()),
//@end
//@fn src/codecs/farbfeld.rs cache_byte ret=res
//@ sigsubst `io::Result<u8>` => `IoResult<u8>`
//@ panics forbid
//@ spec
    ensures res.is_ok() <==> old($n0).rest().len() >= 2,
        res.is_ok() ==> final($n0).rest() == old($n0).rest().skip(2) && seq![res.unwrap(), final($n1).unwrap()] == b16(v16(old($n0).rest(), 0, false) as u16, ne()) && final($n1).is_some(),
//@end
}
fn main() {}
