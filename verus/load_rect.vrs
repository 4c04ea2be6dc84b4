#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include slices.vrs
//@include chunk_mut.vrs
//@include colortypes.vrs
#[derive(Debug)]
pub struct IoError { pub k: u8 }
pub mod io { pub use super::IoResult as Result; }
pub type IoResult<T> = Result<T, IoError>;
#[derive(Debug)]
pub enum ImageError { IoError, Limits, Parameter }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body] pub fn vx_err() -> (e: ImageError) { ImageError::Limits }
pub fn vx_u64(a: usize) -> (r: u64) ensures r == a { a as u64 }
pub fn vx_sat_usize(a: u64) -> (r: usize) ensures r == a { a as usize }
pub fn vx_min(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn vx_is(a: Option<u64>, b: u64) -> (r: bool) ensures r <==> a == Some(b) { match a { Some(x) => x == b, None => false } }
pub fn vx_sat_sub(a: u64, b: u64) -> (r: u64) ensures r == if a < b { 0 } else { a - b } { if a < b { 0 } else { a - b } }
// `output.write_all(x).unwrap()` for `output: &mut [u8]`: the first bytes are overwritten, what is left is the new `output`
#[verifier::external_body]
pub fn vx_put<'a>(o: &'a mut [u8], x: &[u8]) -> (r: &'a mut [u8])
    requires x@.len() <= old(o)@.len(), ensures r@ == old(o)@.skip(x@.len() as int), final(r)@.len() == r@.len(), final(o)@ == x@ + final(r)@,
{ let (a, b) = o.split_at_mut(x.len()); a.copy_from_slice(x); b }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |k: int| 0u8) }
#[verifier::external_body]
pub fn vx_resize0(v: &mut Vec<u8>, n: usize) ensures final(v)@ == if n <= old(v)@.len() { old(v)@.subrange(0, n as int) } else { old(v)@ + zeros(n - old(v)@.len()) } { v.resize(n, 0) }
#[verifier::external_body]
pub fn vx_vec_mut(v: &mut Vec<u8>) -> (o: &mut [u8]) ensures o@ == old(v)@, final(o)@.len() == o@.len(), final(v)@ == final(o)@ { v }
// ---- what `load_rect` assumes of a decoder and its two callbacks: `img` is the whole decoded image, `sb` the bytes of one
// ---- scanline; seeking selects the scanline read next, reading yields that scanline and moves on
pub trait ImageDecoder: Sized {
    spec fn img(&self) -> Seq<u8>;
    spec fn sb(&self) -> int;
    spec fn pos(&self) -> int;
    spec fn dim(&self) -> (u32, u32);
    spec fn col(&self) -> ColorType;
    fn dimensions(&self) -> (r: (u32, u32)) ensures r == self.dim();
    fn color_type(&self) -> (r: ColorType) ensures r == self.col();
    fn vx_seek(&mut self, k: u64) -> (r: IoResult<()>)
        ensures final(self).img() == old(self).img(), final(self).sb() == old(self).sb(), final(self).dim() == old(self).dim(), final(self).col() == old(self).col(), r.is_ok() ==> final(self).pos() == k;
    fn vx_read(&mut self, b: &mut [u8]) -> (r: IoResult<()>)
        requires old(b)@.len() == old(self).sb(),
        ensures final(self).img() == old(self).img(), final(self).sb() == old(self).sb(), final(self).dim() == old(self).dim(), final(self).col() == old(self).col(), final(b)@.len() == old(b)@.len(),
            r.is_ok() ==> final(self).pos() == old(self).pos() + 1 && ((old(self).pos() + 1) * old(self).sb() <= old(self).img().len() ==>
                final(b)@ == old(self).img().subrange(old(self).pos() * old(self).sb(), (old(self).pos() + 1) * old(self).sb()));
}
pub open spec fn lines<D: ImageDecoder>(d: &D) -> bool { d.sb() > 0 && d.img().len() % (d.sb() as nat) == 0 && d.img().len() <= u64::MAX && d.pos() >= 0 }
pub open spec fn same<D: ImageDecoder>(a: &D, b: &D) -> bool { a.img() == b.img() && a.sb() == b.sb() && a.dim() == b.dim() && a.col() == b.col() }
// the scanline kept in the temporary buffer is the one it claims to be
pub open spec fn held(img: Seq<u8>, sb: int, t: Option<u64>, v: Seq<u8>) -> bool {
    t is Some ==> (t->0 + 1) * sb <= img.len() && v == img.subrange(t->0 * sb, (t->0 + 1) * sb) }
pub proof fn line(start: int, n: int, sb: int)
    requires sb > 0, 0 <= start < n, n % sb == 0,
    ensures (start / sb) * sb <= start < (start / sb) * sb + sb, start < (start / sb + 1) * sb <= n, (start / sb + 1) * sb == (start / sb) * sb + sb, 0 <= start / sb <= start, start / sb <= n / sb
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(start, sb); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, sb);
    vstd::arithmetic::div_mod::lemma_mod_bound(start, sb);
    let q = start / sb; let m = n / sb;
    assert(q * sb == sb * q && m * sb == sb * m && (q + 1) * sb == q * sb + sb) by (nonlinear_arith);
    assert(q < m) by (nonlinear_arith) requires q * sb <= start, start < n, n == m * sb, sb > 0;
    assert((q + 1) * sb <= m * sb) by (nonlinear_arith) requires q + 1 <= m, sb > 0;
    assert(0 <= q <= start) by (nonlinear_arith) requires q * sb <= start < q * sb + sb, sb > 0, start >= 0;
}
pub proof fn next(p: int, k: int, n: int, sb: int)
    requires sb > 0, p == k * sb, p < n, n % sb == 0,
    ensures p + sb <= n, p + sb == (k + 1) * sb
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, sb); let m = n / sb;
    assert(m * sb == sb * m && (k + 1) * sb == k * sb + sb) by (nonlinear_arith);
    assert(k < m) by (nonlinear_arith) requires k * sb < m * sb, sb > 0;
    assert((k + 1) * sb <= m * sb) by (nonlinear_arith) requires k + 1 <= m, sb > 0;
}
pub open spec fn cur(p: int, a: int, b: int) -> int { if p <= a { a } else if p <= b { p } else { b } }
pub proof fn catsub(s: Seq<u8>, a: int, b: int, c: int, x: Seq<u8>, r: Seq<u8>, f: Seq<u8>)
    requires 0 <= a <= b <= c <= s.len(), x == s.subrange(b, c), f == s.subrange(a, b) + (x + r),
    ensures f == s.subrange(a, c) + r
{ assert(f =~= s.subrange(a, c) + r); }
pub proof fn lines_all(n: int, sb: int)
    requires sb > 0, n % sb == 0,
    ensures forall|s: int| #![trigger (s / sb)] 0 <= s < n ==> 0 <= s / sb <= s && (s / sb) * sb <= s && s < (s / sb) * sb + sb && (s / sb + 1) * sb == (s / sb) * sb + sb && (s / sb + 1) * sb <= n
{
    assert forall|s: int| #![trigger (s / sb)] 0 <= s < n implies 0 <= s / sb <= s && (s / sb) * sb <= s && s < (s / sb) * sb + sb && (s / sb + 1) * sb == (s / sb) * sb + sb && (s / sb + 1) * sb <= n by { line(s, n, sb); }
}
//@fn src/image.rs load_rect closure=read_image_range as=read_image_range ret=res vis=pub
//@ sig `fn read_image_range<D: ImageDecoder>(decoder: &mut D, scanline_bytes: u64, current_scanline: &mut u64, tmp: &mut Vec<u8>, tmp_scanline: &mut Option<u64>, start0: u64, end: u64, output0: &mut [u8]) -> ImageResult<()>`
//@ subst? `seek_scanline(decoder, $A)` => `decoder.vx_seek($A)`
//@ subst? `read_scanline(decoder, &mut tmp)` => `decoder.vx_read(vx_vec_mut(tmp))`
//@ subst? `read_scanline(decoder, &mut output[..($A)])` => `decoder.vx_read(vx_slice_mut(output, 0, $A))`
//@ subst? `output = &mut output[$A..];` => `output = vx_from_mut(output, $A);`
//@ subst? `output.write_all(&tmp[$A..][..$B]).unwrap()` => `output = vx_put(output, vx_idx(vx_from(tmp.as_slice(), $A), 0, $B))`
//@ subst? `tmp.resize($A, 0u8)` => `vx_resize0(tmp, $A)`
//@ subst? `tmp_scanline == Some($A)` => `vx_is(tmp_scanline, $A)`
//@ subst? `start.saturating_sub($A)` => `vx_sat_sub(start, $A)`
//@ subst? `($A).min($B).min($C)` => `vx_min(vx_min($A, $B), $C)`
//@ subst? `current_scanline` => `(*current_scanline)`
//@ subst? `tmp_scanline` => `(*tmp_scanline)`
//@ spec
    requires lines(&*old(decoder)), scanline_bytes == old(decoder).sb(), start0 < end <= old(decoder).img().len(), old(output0)@.len() >= end - start0,
        *old(current_scanline) == old(decoder).pos(), *old(current_scanline) * old(decoder).sb() <= old(decoder).img().len(),
        held(old(decoder).img(), old(decoder).sb(), *old(tmp_scanline), old(tmp)@),
    ensures final(output0)@.len() == old(output0)@.len(), same(&*final(decoder), &*old(decoder)),
        res.is_ok() ==> final(output0)@ == old(decoder).img().subrange(start0 as int, end as int) + old(output0)@.skip(end - start0)
            && *final(current_scanline) == final(decoder).pos() && *final(current_scanline) * final(decoder).sb() <= final(decoder).img().len() && lines(&*final(decoder))
            && held(final(decoder).img(), final(decoder).sb(), *final(tmp_scanline), final(tmp)@),
//@ at body.start
    let mut start = start0; let mut output = output0;
    let ghost img = decoder.img(); let ghost sb = decoder.sb(); let ghost o0 = output@;
    proof { lines_all(img.len() as int, sb); }
//@ at before? `while position < end`
    proof { assert(sb >= 1); line(start as int, img.len() as int, sb); }
//@ loop 0 while
    invariant same(&*decoder, &*old(decoder)), img == decoder.img(), sb == decoder.sb(), lines(&*decoder), scanline_bytes == sb, o0.len() >= end - start0, o0 == old(output0)@,
        start0 <= start < end <= img.len(), position == *current_scanline * sb, *current_scanline == decoder.pos(), position <= img.len(), start < position + sb,
        held(img, sb, *tmp_scanline, tmp@),
        final(output0)@ == img.subrange(start0 as int, cur(position as int, start as int, end as int)) + final(output)@, output@ == o0.skip(cur(position as int, start as int, end as int) - start0),
    decreases if position < end { end - position } else { 0 },
//@ at loop0.start
    let ghost c = cur(position as int, start as int, end as int); let ghost fo = final(output)@; let ghost o1 = output@; let ghost p0 = *current_scanline as int;
    proof { next(position as int, p0, img.len() as int, sb); assert(p0 + 1 <= (p0 + 1) * sb) by (nonlinear_arith) requires sb >= 1, p0 >= 0; }
//@ at loop0.end
    proof {
        let c2 = cur(position as int, start as int, end as int);
        assert(fo =~= img.subrange(c, c2) + final(output)@);
        assert(final(output0)@ =~= img.subrange(start0 as int, c2) + final(output)@);
        assert(output@ =~= o0.skip(c2 - start0));
    }
//@end
// row k of the rectangle has its place in the buffer
pub open spec fn rowok(b: Seq<u8>, img: Seq<u8>, k: int, pitch: int, wb: int, off: int, rb: int) -> bool { forall|i: int| 0 <= i < wb ==> #[trigger] b[k * pitch + i] == img[off + k * rb + i] }
pub open spec fn padok(b: Seq<u8>, b0: Seq<u8>, k: int, pitch: int, wb: int) -> bool { forall|i: int| wb <= i < pitch && k * pitch + i < b0.len() ==> #[trigger] b[k * pitch + i] == b0[k * pitch + i] }
// the bytes of row k of the rectangle lie inside the image
pub proof fn span(x: int, y: int, w: int, h: int, bpp: int, dw: int, dh: int, rb: int, k: int)
    requires 0 <= x, 0 <= y, 0 < w, 0 < h, x + w <= dw, y + h <= dh, 0 <= k < h, 1 <= bpp <= 16, rb == bpp * dw, dw <= 0xffff_ffff, dh <= 0xffff_ffff,
    ensures (x + w) * bpp == x * bpp + w * bpp, 0 <= x * bpp <= 0xf_ffff_fff0, 0 < w * bpp, (x + w) * bpp <= rb <= 0xf_ffff_fff0, 0 <= (y + k) * rb, (y + k) * rb + rb <= rb * dh, (y + k) * rb == y * rb + k * rb, rb * dh <= 0xf_ffff_fff0 * 0xffff_ffff,
{
    assert((x + w) * bpp == x * bpp + w * bpp && 0 <= x * bpp && 0 < w * bpp) by (nonlinear_arith) requires 0 <= x, 0 < w, 1 <= bpp;
    assert((x + w) * bpp <= dw * bpp) by (nonlinear_arith) requires x + w <= dw, 1 <= bpp;
    assert(dw * bpp == rb && rb <= 0xf_ffff_fff0) by (nonlinear_arith) requires rb == bpp * dw, 1 <= bpp <= 16, 0 <= dw <= 0xffff_ffff;
    assert((y + k) * rb == y * rb + k * rb && 0 <= (y + k) * rb) by (nonlinear_arith) requires 0 <= y, 0 <= k, 0 <= rb;
    assert((y + k + 1) * rb == (y + k) * rb + rb && (y + k + 1) * rb <= rb * dh) by (nonlinear_arith) requires y + k + 1 <= dh, 0 <= rb;
    assert(rb * dh <= 0xf_ffff_fff0 * 0xffff_ffff) by (nonlinear_arith) requires 0 <= rb <= 0xf_ffff_fff0, 0 <= dh <= 0xffff_ffff;
}
pub proof fn rows(k: int, h: int, pt: int, wb: int)
    requires 0 <= k < h, 0 < wb <= pt, ensures 0 <= k * pt <= pt * (h - 1), (k + 1) * pt == k * pt + pt, k * pt + wb <= pt * (h - 1) + wb
{ assert(0 <= k * pt <= pt * (h - 1)) by (nonlinear_arith) requires 0 <= k <= h - 1, pt > 0; assert((k + 1) * pt == k * pt + pt) by (nonlinear_arith); }
pub proof fn nchk(len: int, pt: int, h: int, wb: int)
    requires pt > 0, wb > 0, h > 0, len >= pt * (h - 1) + wb, ensures (if len % pt == 0 { len / pt } else { len / pt + 1 }) >= h
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, pt); vstd::arithmetic::div_mod::lemma_mod_bound(len, pt); let q = len / pt;
    if len % pt == 0 { assert(q > h - 1) by (nonlinear_arith) requires pt * q > pt * (h - 1), pt > 0; }
    else { assert(q >= h - 1) by (nonlinear_arith) requires pt * q + pt > pt * (h - 1), pt > 0; }
}
pub proof fn ord(a: int, b: int, pt: int) requires a < b, pt > 0 ensures a * pt + pt <= b * pt
{ assert(a * pt + pt <= b * pt) by (nonlinear_arith) requires a + 1 <= b, pt > 0; }
// one row is written
pub proof fn step(b1: Seq<u8>, b2: Seq<u8>, b0: Seq<u8>, img: Seq<u8>, k: int, pt: int, wb: int, off: int, rb: int, st: int)
    requires 0 <= k, 0 < wb <= pt, b1.len() == b0.len(), b2.len() == b0.len(), k * pt + wb <= b0.len(), st == off + k * rb, 0 <= st, st + wb <= img.len(),
        forall|i: int| 0 <= i < b2.len() ==> #[trigger] b2[i] == (if k * pt <= i < k * pt + wb { img[st + i - k * pt] } else { b1[i] }),
        forall|j: int| 0 <= j < k ==> #[trigger] rowok(b1, img, j, pt, wb, off, rb), forall|j: int| 0 <= j ==> #[trigger] padok(b1, b0, j, pt, wb), forall|i: int| pt * k <= i < b0.len() ==> #[trigger] b1[i] == b0[i],
    ensures forall|j: int| 0 <= j < k + 1 ==> #[trigger] rowok(b2, img, j, pt, wb, off, rb), forall|j: int| 0 <= j ==> #[trigger] padok(b2, b0, j, pt, wb), forall|i: int| pt * (k + 1) <= i < b0.len() ==> #[trigger] b2[i] == b0[i],
{
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] rowok(b2, img, j, pt, wb, off, rb) by {
        if j < k { ord(j, k, pt); assert(rowok(b1, img, j, pt, wb, off, rb)); assert forall|i: int| 0 <= i < wb implies #[trigger] b2[j * pt + i] == img[off + j * rb + i] by { assert(0 <= j * pt) by (nonlinear_arith) requires 0 <= j, 0 < pt; assert(b1[j * pt + i] == img[off + j * rb + i]); } }
        else { assert(0 <= k * pt) by (nonlinear_arith) requires 0 <= k, 0 < pt; }
    }
    assert forall|j: int| 0 <= j implies #[trigger] padok(b2, b0, j, pt, wb) by {
        assert(padok(b1, b0, j, pt, wb)); if j < k { ord(j, k, pt); } else if j > k { ord(k, j, pt); }
        assert forall|i: int| wb <= i < pt && j * pt + i < b0.len() implies #[trigger] b2[j * pt + i] == b0[j * pt + i] by { assert(0 <= j * pt) by (nonlinear_arith) requires 0 <= j, 0 < pt; assert(b1[j * pt + i] == b0[j * pt + i]); }
    }
    assert(pt * (k + 1) == k * pt + pt && pt * k == k * pt && 0 <= k * pt) by (nonlinear_arith) requires 0 <= k, 0 < pt;
}
// the rectangle is a run of whole rows
pub proof fn whole(b: Seq<u8>, b0: Seq<u8>, img: Seq<u8>, rb: int, h: int, off: int)
    requires 0 < rb, 0 < h, 0 <= off, b.len() == b0.len(), rb * (h - 1) + rb <= b0.len(), off + rb * (h - 1) + rb <= img.len(),
        b == img.subrange(off, off + rb * (h - 1) + rb) + b0.skip(rb * (h - 1) + rb),
    ensures forall|k: int| 0 <= k < h ==> #[trigger] rowok(b, img, k, rb, rb, off, rb), forall|k: int| 0 <= k ==> #[trigger] padok(b, b0, k, rb, rb), forall|i: int| rb * (h - 1) + rb <= i < b0.len() ==> #[trigger] b[i] == b0[i],
{
    assert(rb * (h - 1) >= 0) by (nonlinear_arith) requires 0 < rb, 0 < h;
    assert forall|k: int| 0 <= k < h implies #[trigger] rowok(b, img, k, rb, rb, off, rb) by { rows(k, h, rb, rb); }
}
//@fn src/image.rs load_rect ret=res vis=pub
//@ sigsubst `<D, F1, F2, E>` => `<D: ImageDecoder>`
//@ sigsubst `mut seek_scanline: F1,` => ``
//@ sigsubst `mut read_scanline: F2,` => ``
//@ sigsubst `where D: ImageDecoder, F1: FnMut(&mut D, u64) -> io::Result<()>, F2: FnMut(&mut D, &mut [u8]) -> Result<(), E>, ImageError: From<E>,` => ``
//@ subst `let mut read_image_range = |$A| -> ImageResult<()> {$B};` => ``
//@ subst? `read_image_range($A)` => `read_image_range(decoder, scanline_bytes, &mut current_scanline, &mut tmp, &mut tmp_scanline, $A)`
//@ subst? `seek_scanline(decoder, $A)` => `decoder.vx_seek($A)`
//@ subst? `u64::try_from($A).unwrap()` => `vx_u64($A)`
//@ subst? `usize::try_from($A).unwrap_or(usize::MAX)` => `vx_sat_usize($A)`
//@ subst? `for (output_slice, row) in buf.chunks_mut($N).zip($A..($B)) {$C}` => `let vxe = ($B); let vxp = $N; let vxn = vx_nchunks(buf.len(), vxp); let mut vxk: usize = 0; let mut row = $A; while vxk < vxn && row < vxe { let output_slice = vx_chunk_mut(buf, vxp, vxk); $C vxk = vxk + 1; row = row + 1; }`
//@ subst? `return Err(ImageError::$A)` => `return Err(vx_err())`
//@ panics allow
//@ spec
    requires lines(&*old(decoder)), scanline_bytes == old(decoder).sb(), old(decoder).pos() == 0, old(decoder).img().len() == old(decoder).dim().0 * old(decoder).dim().1 * cbytes(old(decoder).col()),
        $n2 * $n3 * cbytes(old(decoder).col()) <= u64::MAX, row_pitch >= $n2 * cbytes(old(decoder).col()),
        $n3 > 0 ==> old(buf)@.len() >= row_pitch * ($n3 - 1) + $n2 * cbytes(old(decoder).col()),
    ensures final(buf)@.len() == old(buf)@.len(), same(&*final(decoder), &*old(decoder)),
        res.is_ok() ==> $n2 > 0 && $n3 > 0 && $n0 + $n2 <= old(decoder).dim().0 && $n1 + $n3 <= old(decoder).dim().1 && final(decoder).pos() == 0 && ({
            let bpp = cbytes(old(decoder).col()); let rb = bpp * old(decoder).dim().0;
            (forall|k: int| 0 <= k < $n3 ==> #[trigger] rowok(final(buf)@, old(decoder).img(), k, row_pitch as int, $n2 * bpp, $n0 * bpp + $n1 * rb, rb))
            && (forall|k: int| 0 <= k ==> #[trigger] padok(final(buf)@, old(buf)@, k, row_pitch as int, $n2 * bpp))
            && (forall|i: int| row_pitch * ($n3 - 1) + $n2 * bpp <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i])
        }),
//@ attrs
#[verifier::rlimit(100)]
//@ at body.start
    let ghost img = decoder.img(); let ghost bpp = cbytes(decoder.col()); let ghost rb = bpp * decoder.dim().0; let ghost b0 = buf@; let ghost wb = $n2 * bpp; let ghost off = $n0 * bpp + $n1 * rb; let ghost pt = row_pitch as int; let ghost d0 = decoder.dim(); let ghost (gx, gy, gw, gh) = ($n0 as int, $n1 as int, $n2 as int, $n3 as int);
    proof {
        assert($n2 * $n3 <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= $n2 <= 0xffff_ffff, 0 <= $n3 <= 0xffff_ffff;
        assert(rb * d0.1 == img.len()) by (nonlinear_arith) requires rb == bpp * d0.0, img.len() == d0.0 * d0.1 * bpp;
    }
//@ at before? `if x == 0 && width == u64::from(dimensions.0)`
    proof { span(gx, gy, gw, gh, bpp, d0.0 as int, d0.1 as int, rb, 0); span(gx, gy, gw, gh, bpp, d0.0 as int, d0.1 as int, rb, gh - 1); rows(0, gh, pt, wb); assert((gh - 1) * rb == rb * (gh - 1)) by (nonlinear_arith); assert(gw == d0.0 ==> wb == rb) by (nonlinear_arith) requires wb == gw * bpp, rb == bpp * d0.0; assert(pt == rb ==> pt * (gh - 1) == rb * (gh - 1)); }
//@ at before? `let vxe`
    proof { assert(forall|k: int| 0 <= k ==> #[trigger] padok(buf@, b0, k, pt, wb)); rows(0, gh, pt, wb); }
//@ at before? `Ok(decoder.vx_seek(0)?)`
    proof { if x == 0 && gw == d0.0 && pt == rb { whole(buf@, b0, img, pt, gh, off); } }
//@ loop 0 while
    invariant same(&*decoder, &*old(decoder)), lines(&*decoder), img == decoder.img(), scanline_bytes == decoder.sb(), d0 == decoder.dim(), bpp == cbytes(decoder.col()), bytes_per_pixel == bpp, row_bytes == rb, rb == bpp * d0.0, b0 == old(buf)@,
        x == gx, y == gy, width == gw, height == gh, 0 < gw, 0 < gh, 0 <= gx, 0 <= gy, gx + gw <= d0.0, gy + gh <= d0.1, off == gx * bpp + gy * rb, wb == gw * bpp, pt == row_pitch, pt == vxp, pt >= wb, vxe == gy + gh, img.len() == rb * d0.1, b0.len() >= pt * (gh - 1) + wb,
        vxn == (if b0.len() % (pt as nat) == 0 { b0.len() / (pt as nat) } else { (b0.len() / (pt as nat) + 1) as nat }),
        row == gy + vxk, vxk <= gh, buf@.len() == b0.len(), current_scanline == decoder.pos(), current_scanline * decoder.sb() <= img.len(), held(img, decoder.sb(), tmp_scanline, tmp@),
        forall|k: int| 0 <= k < vxk ==> #[trigger] rowok(buf@, img, k, pt, wb, off, rb),
        forall|k: int| 0 <= k ==> #[trigger] padok(buf@, b0, k, pt, wb),
        forall|i: int| pt * vxk <= i < b0.len() ==> #[trigger] buf@[i] == b0[i],
    decreases vxe - row,
//@ at loop0.start
    let ghost b1 = buf@; let ghost k0 = vxk as int;
    proof { span(gx, gy, gw, gh, bpp, d0.0 as int, d0.1 as int, rb, k0); rows(k0, gh, pt, wb); }
//@ at loop0.end
    proof { step(b1, buf@, b0, img, k0, pt, wb, off, rb, (gx * bpp + (gy + k0) * rb) as int); }
//@ at loop0.after
    proof { nchk(b0.len() as int, pt, gh, wb); rows(gh - 1, gh, pt, wb); assert(vxk == gh);
        assert forall|i: int| pt * (gh - 1) + wb <= i < b0.len() implies #[trigger] buf@[i] == b0[i] by {
            assert(padok(buf@, b0, gh - 1, pt, wb)); assert((gh - 1) * pt == pt * (gh - 1) && pt * gh == pt * (gh - 1) + pt) by (nonlinear_arith);
            if i < pt * gh { let j = i - (gh - 1) * pt; assert(buf@[(gh - 1) * pt + j] == b0[(gh - 1) * pt + j]); }
        }
    }
//@end
// ---- incremental reading: the callback is a source that hands out one scanline per call, fewer bytes only at the very end
pub trait LineSrc: Sized {
    // the bytes the source has still to deliver, and the bytes of one scanline
    spec fn left(&self) -> Seq<u8>;
    spec fn sb(&self) -> int;
    fn line(&mut self, b: &mut [u8]) -> (r: io::Result<usize>)
        requires old(b)@.len() == old(self).sb(),
        ensures final(b)@.len() == old(b)@.len(), final(self).sb() == old(self).sb(),
            r.is_ok() ==> ({ let n = r.unwrap() as int; n == (if old(self).left().len() < old(self).sb() { old(self).left().len() as int } else { old(self).sb() })
                && final(b)@.subrange(0, n) == old(self).left().subrange(0, n) && final(self).left() == old(self).left().skip(n) });
}
//@item src/image.rs struct ImageReadBuffer vis=pub
impl ImageReadBuffer {
    // bytes taken from the source but not yet handed out
    pub closed spec fn kept(&self) -> Seq<u8> { self.buffer@.skip(self.consumed as int) }
    pub closed spec fn taken(&self) -> int { self.offset as int }
    pub closed spec fn total(&self) -> int { self.total_bytes as int }
    pub closed spec fn wf(&self) -> bool { self.consumed <= self.buffer@.len() && self.offset <= self.total_bytes && self.scanline_bytes > 0
        && (self.buffer@.len() == 0 || self.buffer@.len() == self.scanline_bytes || (self.offset == self.total_bytes && self.buffer@.len() <= self.scanline_bytes)) }
    pub closed spec fn sb(&self) -> int { self.scanline_bytes as int }
//@fn src/image.rs new ctx="impl ImageReadBuffer" ret=res vis=pub
//@ subst? `usize::try_from($A).unwrap()` => `vx_sat_usize($A)`
//@ spec
    requires $n0 > 0,
    ensures res.wf(), res.kept() == Seq::<u8>::empty(), res.taken() == 0, res.total() == $n1, res.sb() == $n0,
//@ at body.start
    proof { assert(Seq::<u8>::empty().skip(0) =~= Seq::<u8>::empty()); }
//@end
//@fn src/image.rs read ctx="impl ImageReadBuffer" ret=res vis=pub
//@ sigsubst `read<F>` => `read<F: LineSrc>`
//@ sigsubst `mut read_scanline: F` => `read_scanline: &mut F`
//@ sigsubst `where F: FnMut(&mut [u8]) -> io::Result<usize>,` => ``
//@ subst? `read_scanline(&mut buf[..$A])` => `read_scanline.line(vx_slice_mut(buf, 0, $A))`
//@ subst? `read_scanline(&mut self.buffer[..])` => `read_scanline.line(vx_vec_mut(&mut self.buffer))`
//@ subst? `u64::try_from($A).unwrap()` => `vx_u64($A)`
//@ subst? `self.buffer.resize($A, 0)` => `vx_resize0(&mut self.buffer, $A)`
//@ subst? `buf.copy_from_slice(&self.buffer[$A..][..$B])` => `vx_copy_all(buf, vx_idx(vx_from(self.buffer.as_slice(), $A), 0, $B))`
//@ subst? `buf[..$C].copy_from_slice(&self.buffer[$A..][..$B])` => `vx_copy_into(buf, 0, $C, vx_idx(vx_from(self.buffer.as_slice(), $A), 0, $B))`
//@ panics forbid
//@ spec
    requires old(self).wf(), old(self).sb() == old(read_scanline).sb(), old(read_scanline).left().len() == old(self).total() - old(self).taken(), old(buf)@.len() <= isize::MAX,
    ensures final(buf)@.len() == old(buf)@.len(),
        res.is_ok() ==> ({ let n = res.unwrap() as int; let all = old(self).kept() + old(read_scanline).left();
            n <= old(buf)@.len() && n <= all.len() && final(self).wf() && final(self).sb() == old(self).sb() && final(read_scanline).sb() == old(read_scanline).sb() && final(self).total() == old(self).total()
            && final(read_scanline).left().len() == final(self).total() - final(self).taken()
            // the bytes handed out are the next ones of the image, and exactly they are gone; none only at the end
            && final(buf)@.subrange(0, n) == all.subrange(0, n) && final(self).kept() + final(read_scanline).left() == all.skip(n)
            && (n == 0 ==> all.len() == 0 || old(buf)@.len() == 0) }),
//@end
}
}
fn main() {}
