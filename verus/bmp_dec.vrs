#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::bits::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include chunks.vrs
//@include chunk_mut.vrs
//@include colortypes.vrs
#[derive(Debug)]
pub enum ImageError { IoError, Decoding, Unsupported }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body]
pub fn vx_err() -> (e: ImageError) { unimplemented!() }
// ---- bit fields ----
pub open spec fn bit(m: u32, i: u32) -> bool { (m >> i) & 1 == 1 }
// the set bits of m are exactly the n bits from lo up
pub open spec fn is_run(m: u32, lo: int, n: int) -> bool { 0 <= lo && 1 <= n && lo + n <= 32 && forall|i: u32| 0 <= i < 32 ==> (#[trigger] bit(m, i) <==> lo <= i < lo + n) }
pub open spec fn ones(m: u32, k: int) -> int decreases k { if k <= 0 { 0 } else { ones(m, k - 1) + if bit(m, (k - 1) as u32) { 1int } else { 0 } } }
// documented behaviour of u32::count_ones
pub assume_specification[u32::count_ones](m: u32) -> (r: u32) ensures r == ones(m, 32);
proof fn lemma_ones(m: u32, lo: int, n: int, k: int)
    requires 0 <= lo, 0 <= n, lo + n <= 32, 0 <= k <= 32,
        forall|i: u32| 0 <= i < lo ==> !#[trigger] bit(m, i), forall|i: u32| lo <= i < lo + n ==> #[trigger] bit(m, i),
    ensures k <= lo ==> ones(m, k) == 0, lo <= k <= lo + n ==> ones(m, k) == k - lo, lo + n <= k ==> ones(m, k) >= n,
        lo + n <= k && ones(m, k) == n ==> forall|i: u32| lo + n <= i < k ==> !#[trigger] bit(m, i),
        lo + n <= k && ones(m, k) != n ==> exists|i: u32| lo + n <= i < k && #[trigger] bit(m, i),
    decreases k
{ if k > 0 { lemma_ones(m, lo, n, k - 1); } }
// a run has one position and one length
proof fn lemma_run_unique(m: u32, a: int, n: int, b: int, k: int) requires is_run(m, a, n), is_run(m, b, k) ensures a == b, n == k
{
    assert(bit(m, a as u32)); assert(bit(m, b as u32)); assert(bit(m, (a + n - 1) as u32)); assert(bit(m, (b + k - 1) as u32));
    assert(a + n < 32 ==> !bit(m, (a + n) as u32)); assert(b + k < 32 ==> !bit(m, (b + k) as u32));
}
// widening an n-bit value to 8 bits, rounding to nearest
pub open spec fn widen(v: int, n: int) -> int { (510 * v + (pow2(n) - 1)) / (2 * (pow2(n) - 1)) }
pub open spec fn pow2(n: int) -> int { if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else if n == 4 { 16 } else if n == 5 { 32 } else if n == 6 { 64 } else if n == 7 { 128 } else { 256 } }
//@item src/codecs/bmp/decoder.rs struct Bitfield
//@item src/codecs/bmp/decoder.rs struct Bitfields
//@table src/codecs/bmp/decoder.rs static LOOKUP_TABLE_3_BIT_TO_8_BIT as=lut3 type="Seq<u8>"
//@table src/codecs/bmp/decoder.rs static LOOKUP_TABLE_4_BIT_TO_8_BIT as=lut4 type="Seq<u8>"
//@table src/codecs/bmp/decoder.rs static LOOKUP_TABLE_5_BIT_TO_8_BIT as=lut5 type="Seq<u8>"
//@table src/codecs/bmp/decoder.rs static LOOKUP_TABLE_6_BIT_TO_8_BIT as=lut6 type="Seq<u8>"
spec fn table_ok(t: Seq<u8>, n: int, k: int) -> bool decreases k { k <= 0 || (t[k - 1] == widen(k - 1, n) && table_ok(t, n, k - 1)) }
proof fn lemma_table(t: Seq<u8>, n: int, k: int) requires table_ok(t, n, k) ensures forall|i: int| 0 <= i < k ==> #[trigger] t[i] == widen(i, n) decreases k { if k > 0 { lemma_table(t, n, k - 1); } }
proof fn table_widen3() ensures lut3().len() == 8, table_ok(lut3(), 3, 8) { assert(lut3().len() == 8 && table_ok(lut3(), 3, 8)) by (compute_only); }
proof fn table_widen4() ensures lut4().len() == 16, table_ok(lut4(), 4, 16) { assert(lut4().len() == 16 && table_ok(lut4(), 4, 16)) by (compute_only); }
proof fn table_widen5() ensures lut5().len() == 32, table_ok(lut5(), 5, 32) { assert(lut5().len() == 32 && table_ok(lut5(), 5, 32)) by (compute_only); }
proof fn table_widen6() ensures lut6().len() == 64, table_ok(lut6(), 6, 64) { assert(lut6().len() == 64 && table_ok(lut6(), 6, 64)) by (compute_only); }
// documented behaviour of slice::reverse
#[verifier::external_body]
pub fn vx_reverse(v: &mut [u8]) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[old(v)@.len() - 1 - i] { v.reverse() }
// indexing a lookup table
#[verifier::external_body]
fn vx_lut3(i: usize) -> (r: u8) requires i < lut3().len() ensures r == lut3()[i as int] { unimplemented!() }
#[verifier::external_body]
fn vx_lut4(i: usize) -> (r: u8) requires i < lut4().len() ensures r == lut4()[i as int] { unimplemented!() }
#[verifier::external_body]
fn vx_lut5(i: usize) -> (r: u8) requires i < lut5().len() ensures r == lut5()[i as int] { unimplemented!() }
#[verifier::external_body]
fn vx_lut6(i: usize) -> (r: u8) requires i < lut6().len() ensures r == lut6()[i as int] { unimplemented!() }
spec fn fval(f: Bitfield, data: u32) -> u32 { (data >> f.shift) & ((pow2(f.len as int) - 1) as u32) }
spec fn fok(f: Bitfield) -> bool { f.len <= 8 && f.shift + f.len <= 32 }
// the field of a mask: up to 8 bits as they are, of a longer one the top 8
spec fn field_of(f: Bitfield, m: u32, max: int) -> bool {
    if m == 0 { f.shift == 0 && f.len == 0 } else { exists|lo: int, n: int| #[trigger] is_run(m, lo, n) && lo + n <= max && f.len == (if n > 8 { 8 } else { n }) && f.shift + f.len == lo + n }
}
proof fn lemma_fval(v: u32) ensures (v & 1) * 0xff == widen((v & 1) as int, 1), (v & 3) * 0x55 == widen((v & 3) as int, 2),
    (((v & 0x7f) << 1) | ((v & 0x7f) >> 6)) == widen((v & 0x7f) as int, 7), (v & 0xff) == widen((v & 0xff) as int, 8),
    v & 1 < 2, v & 3 < 4, v & 7 < 8, v & 15 < 16, v & 31 < 32, v & 63 < 64, v & 127 < 128, v & 255 < 256,
    (v & 1) * 0xff <= 255, (v & 3) * 0x55 <= 255, (((v & 0x7f) << 1) | ((v & 0x7f) >> 6)) <= 255,
{
    assert(v & 1 < 2 && v & 3 < 4 && v & 7 < 8 && v & 15 < 16 && v & 31 < 32 && v & 63 < 64 && v & 127 < 128 && v & 255 < 256) by (bit_vector);
    let b: int = (v & 3) as int; assert(widen(b, 2) == (510 * b + 3) / 6); assert((510 * b + 3) / 6 == 85 * b);
    let a: int = (v & 1) as int; assert(widen(a, 1) == (510 * a + 1) / 2); assert((510 * a + 1) / 2 == 255 * a);
    let e: int = (v & 0xff) as int; assert(widen(e, 8) == (510 * e + 255) / 510); assert((510 * e + 255) / 510 == e);
    let c: int = (v & 0x7f) as int; assert(widen(c, 7) == (510 * c + 127) / 254); assert((510 * c + 127) / 254 == 2 * c + c / 64);
    let w = v & 0x7f; assert(w < 128 ==> ((w << 1) | (w >> 6)) == 2 * w + w / 64) by (bit_vector);
}
impl Bitfield {
//@fn src/codecs/bmp/decoder.rs from_mask ctx="impl Bitfield$" ret=res
//@ subst? `DecoderError::$E.into()` => `vx_err()`
//@ panics forbid
//@ at body.start
    proof { axiom_u32_trailing_zeros($n0); }
//@ at after `let mut len = ( ! ( mask >> shift ) ) . trailing_zeros ( ) ;`
    let ghost lo = shift; let ghost n = len; let ghost y = !($n0 >> lo);
    proof {
        let m = $n0;
        axiom_u32_trailing_zeros(y);
        assert forall|i: u32| 0 <= i < lo implies !#[trigger] bit(m, i) by { assert((m >> i) & 1 == 0); }
        assert(lo + n <= 32) by {
            if n > 0 && lo > 0 { let j = (n - 1) as u32; assert((y >> j) & 1 == 0); assert(y == !(m >> lo) && (y >> j) & 1 == 0 && j < 32 && lo < 32 && m >= 0 ==> add(lo, j) < 32) by (bit_vector); }
        }
        assert forall|i: u32| lo <= i < lo + n implies #[trigger] bit(m, i) by {
            let j = (i - lo) as u32; assert((y >> j) & 1 == 0);
            assert(lo <= i && i < 32 && j == sub(i, lo) && y == !(m >> lo) && (y >> j) & 1 == 0 ==> (m >> i) & 1 == 1) by (bit_vector);
        }
        assert(lo + n < 32 ==> !bit(m, (lo + n) as u32)) by {
            let i = (lo + n) as u32;
            if lo + n < 32 { assert((y >> n) & 1 == 1); assert(i < 32 && i == add(lo, n) && lo < 32 && n < 32 && y == !(m >> lo) && (y >> n) & 1 == 1 ==> (m >> i) & 1 == 0) by (bit_vector); }
        }
        assert(n >= 1) by { if n == 0 { assert(y == !(m >> lo) && (m >> lo) & 1 == 1 ==> (y >> 0) & 1 == 0) by (bit_vector); } }
        lemma_ones(m, lo as int, n as int, 32);
        if n == ones(m, 32) { assert(is_run(m, lo as int, n as int)); }
        assert forall|a: int, k: int| #[trigger] is_run(m, a, k) implies a == lo && k == n && n == ones(m, 32) by {
            assert(bit(m, lo)); assert(bit(m, a as u32)); assert(a == lo);
            if k < n { assert(bit(m, (lo + k) as u32)); } if k > n { assert(bit(m, (lo + n) as u32)); }
            lemma_ones(m, a, k, 32);
        }
    }
//@ spec
    requires $n1 <= 32,
    ensures res.is_ok() ==> field_of(res.unwrap(), $n0, $n1 as int) && fok(res.unwrap()) && (res.unwrap().len == 0 <==> $n0 == 0),
        res.is_err() ==> $n0 != 0 && forall|lo: int, n: int| #[trigger] is_run($n0, lo, n) ==> lo + n > $n1,
//@end
//@fn src/codecs/bmp/decoder.rs read ctx="impl Bitfield$" ret=res
//@ subst? `LOOKUP_TABLE_3_BIT_TO_8_BIT[$A]` => `vx_lut3($A)`
//@ subst? `LOOKUP_TABLE_4_BIT_TO_8_BIT[$A]` => `vx_lut4($A)`
//@ subst? `LOOKUP_TABLE_5_BIT_TO_8_BIT[$A]` => `vx_lut5($A)`
//@ subst? `LOOKUP_TABLE_6_BIT_TO_8_BIT[$A]` => `vx_lut6($A)`
//@ panics forbid
//@ at body.start
    proof {
        lemma_fval($n0 >> self.shift);
        table_widen3(); table_widen4(); table_widen5(); table_widen6();
        lemma_table(lut3(), 3, 8); lemma_table(lut4(), 4, 16); lemma_table(lut5(), 5, 32); lemma_table(lut6(), 6, 64);
    }
//@ spec
    requires 1 <= self.len <= 8, self.shift + self.len <= 32,
    ensures res == widen(fval(*self, $n0) as int, self.len as int),
//@end
}
impl Bitfields {
//@fn src/codecs/bmp/decoder.rs from_mask ctx="impl Bitfields$" ret=res
//@ subst? `DecoderError::$E($A).into()` => `vx_err()`
//@ panics forbid
//@ spec
    requires $n4 <= 32,
    ensures res.is_ok() ==> ({ let f = res.unwrap(); field_of(f.r, $n0, $n4 as int) && field_of(f.g, $n1, $n4 as int) && field_of(f.b, $n2, $n4 as int) && field_of(f.a, $n3, $n4 as int)
        && fok(f.r) && fok(f.g) && fok(f.b) && fok(f.a) && f.r.len > 0 && f.g.len > 0 && f.b.len > 0 && (f.a.len == 0 <==> $n3 == 0) }),
//@end
}
//@fn src/codecs/bmp/decoder.rs num_bytes ret=res
//@ panics forbid
//@ at body.start
    proof { if $n0 > 0 && $n1 > 0 { assert($n2 * $n0 > usize::MAX ==> $n2 * $n0 * $n1 > usize::MAX) by (nonlinear_arith) requires $n1 > 0, $n0 > 0; } }
//@ spec
    ensures res.is_some() <==> $n0 > 0 && $n1 > 0 && $n2 * $n0 * $n1 <= usize::MAX, res.is_some() ==> res.unwrap() == $n2 * $n0 * $n1,
//@end
//@fn src/codecs/bmp/decoder.rs check_for_overflow ret=res
//@ subst? `.ok_or_else($B)` => `.ok_or(vx_err())`
//@ subst? `.map(|_| ())` => `.map(|vxu: usize| -> (cr: ()) {})`
//@ panics forbid
//@ spec
    ensures res.is_ok() <==> $n0 > 0 && $n1 > 0 && $n2 * $n0 * $n1 <= usize::MAX,
//@end
// `F: FnMut(&mut [u8]) -> io::Result<()>`: what it returned for each call so far
pub trait RowFn: Sized {
    spec fn outs(&self) -> Seq<Seq<u8>>;
    spec fn ins(&self) -> Seq<Seq<u8>>;
    fn call(&mut self, row: &mut [u8]) -> (r: IoResult<()>)
        ensures final(row)@.len() == old(row)@.len(), final(self).outs() == old(self).outs().push(final(row)@), final(self).ins() == old(self).ins().push(old(row)@);
}
spec fn rowk(td: bool, h: int, y: int) -> int { if td { y } else { h - 1 - y } }
#[verifier::opaque]
spec fn row_is(buf: Seq<u8>, rw: int, y: int, row: Seq<u8>) -> bool { 0 <= y * rw && y * rw + rw <= buf.len() && buf.subrange(y * rw, y * rw + rw) == row }
// replacing one row leaves the others
proof fn lemma_put(a: Seq<u8>, b: Seq<u8>, rw: int, h: int, y: int, row: Seq<u8>)
    requires 0 <= y < h, rw > 0, a.len() == rw * h, row.len() == rw, b == a.subrange(0, y * rw) + row + a.subrange(y * rw + rw, a.len() as int), 0 <= y * rw, y * rw + rw <= a.len(),
    ensures b.len() == a.len(), row_is(b, rw, y, row), forall|z: int, r: Seq<u8>| 0 <= z < h && z != y && #[trigger] row_is(a, rw, z, r) ==> row_is(b, rw, z, r)
{
    reveal(row_is);
    assert(b.subrange(y * rw, y * rw + rw) =~= row);
    assert forall|z: int, r: Seq<u8>| 0 <= z < h && z != y && #[trigger] row_is(a, rw, z, r) implies row_is(b, rw, z, r) by {
        if z < y { assert(z * rw + rw <= y * rw) by (nonlinear_arith) requires z + 1 <= y, rw > 0; } else { assert(y * rw + rw <= z * rw) by (nonlinear_arith) requires y + 1 <= z, rw > 0; }
        assert(b.subrange(z * rw, z * rw + rw) =~= a.subrange(z * rw, z * rw + rw));
    }
}
#[verifier::opaque]
spec fn row_same(a: Seq<u8>, b: Seq<u8>, rw: int, y: int) -> bool { a.len() == b.len() && a.subrange(y * rw, y * rw + rw) == b.subrange(y * rw, y * rw + rw) }
spec fn row_of(b: Seq<u8>, rw: int, y: int) -> Seq<u8> { b.subrange(y * rw, y * rw + rw) }
proof fn lemma_rowpos(rw: int, h: int, y: int) requires 0 <= y < h, rw > 0 ensures 0 <= y * rw, y * rw + rw <= rw * h
{ assert(0 <= y * rw) by (nonlinear_arith) requires y >= 0, rw > 0; assert(y * rw + rw <= rw * h) by (nonlinear_arith) requires y + 1 <= h, rw > 0; }
//@fn src/codecs/bmp/decoder.rs with_rows ret=res
//@ sigsubst `<F>` => `<F: RowFn>`
//@ sigsubst `where $W,` => ``
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `func(row)` => `func.call(row)`
//@ subst? `for row in buffer.chunks_mut($N).rev() {$B}` => `let vxn = vx_nchunks(buffer.len(), $N); for vxk in 0..vxn { let vxy = vxn - 1 - vxk; let row = vx_chunk_mut(buffer, $N, vxy); $B }`
//@ subst? `for row in buffer.chunks_mut($N) {$B}` => `let vxn = vx_nchunks(buffer.len(), $N); for vxk in 0..vxn { let vxy = vxk; let row = vx_chunk_mut(buffer, $N, vxy); $B }`
//@ sigsubst `mut func: F` => `func: &mut F`
//@ panics allow
//@ attrs
#[verifier::loop_isolation(false)]
//@ at body.start
    let ghost rw = $n3 * $n1; let ghost h = $n2 as int; let ghost b0 = $n0@; let ghost f0 = func; let ghost nn = func.outs().len(); let ghost ni = func.ins().len();
    let ghost outs0 = func.outs(); let ghost ins0 = func.ins();
    proof { assert($n3 * $n1 > 0) by (nonlinear_arith) requires $n3 > 0, $n1 > 0; assert(rw <= rw * h) by (nonlinear_arith) requires rw > 0, h > 0; }
//@ at before `if ! top_down`
    proof { assert(buffer@.len() == rw * h); assert((rw * h) % rw == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(h, rw); assert(rw * h == h * rw) by (nonlinear_arith); } assert(rw * h / rw == h) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(h, rw); } reveal(row_same); }
//@ loop 0 for it=it
    invariant buffer@.len() == rw * h, func.outs().len() == nn + it.index@, func.ins().len() == ni + it.index@, func.outs().subrange(0, nn as int) == outs0, func.ins().subrange(0, ni as int) == ins0,
        forall|k: int| 0 <= k < it.index@ ==> row_is(buffer@, rw, #[trigger] rowk(top_down, h, k), func.outs()[nn + k]) && row_is(b0, rw, rowk(top_down, h, k), func.ins()[ni + k]),
        forall|k: int| it.index@ <= k < h ==> #[trigger] row_same(buffer@, b0, rw, rowk(top_down, h, k)),
//@ at loop0.start
    let ghost bb = buffer@; let ghost fo = func.outs(); let ghost fi = func.ins();
    proof { lemma_rowpos(rw, h, rowk(top_down, h, it.index@)); assert(row_same(bb, b0, rw, rowk(top_down, h, it.index@))); }
//@ at loop0.end
    proof {
        lemma_put(bb, buffer@, rw, h, rowk(top_down, h, it.index@), func.outs().last());
        assert(func.outs().subrange(0, nn as int) =~= outs0); assert(func.ins().subrange(0, ni as int) =~= ins0);
        reveal(row_is); reveal(row_same);
        assert(func.ins().last() == row_of(bb, rw, rowk(top_down, h, it.index@)));
        assert forall|k: int| 0 <= k < it.index@ + 1 implies row_is(buffer@, rw, #[trigger] rowk(top_down, h, k), func.outs()[nn + k]) && row_is(b0, rw, rowk(top_down, h, k), func.ins()[ni + k]) by {
            if k < it.index@ { assert(row_is(bb, rw, rowk(top_down, h, k), fo[nn + k])); assert(fo[nn + k] == func.outs()[nn + k]); assert(fi[ni + k] == func.ins()[ni + k]); }
        }
        assert forall|k: int| it.index@ + 1 <= k < h implies #[trigger] row_same(buffer@, b0, rw, rowk(top_down, h, k)) by {
            lemma_rowpos(rw, h, rowk(top_down, h, k)); assert(row_same(bb, b0, rw, rowk(top_down, h, k)));
            assert(row_is(bb, rw, rowk(top_down, h, k), row_of(bb, rw, rowk(top_down, h, k))));
        }
    }
//@ loop 1 for it=it
    invariant buffer@.len() == rw * h, func.outs().len() == nn + it.index@, func.ins().len() == ni + it.index@, func.outs().subrange(0, nn as int) == outs0, func.ins().subrange(0, ni as int) == ins0,
        forall|k: int| 0 <= k < it.index@ ==> row_is(buffer@, rw, #[trigger] rowk(top_down, h, k), func.outs()[nn + k]) && row_is(b0, rw, rowk(top_down, h, k), func.ins()[ni + k]),
        forall|k: int| it.index@ <= k < h ==> #[trigger] row_same(buffer@, b0, rw, rowk(top_down, h, k)),
//@ at loop1.start
    let ghost bb = buffer@; let ghost fo = func.outs(); let ghost fi = func.ins();
    proof { lemma_rowpos(rw, h, rowk(top_down, h, it.index@)); assert(row_same(bb, b0, rw, rowk(top_down, h, it.index@))); }
//@ at loop1.end
    proof {
        lemma_put(bb, buffer@, rw, h, rowk(top_down, h, it.index@), func.outs().last());
        assert(func.outs().subrange(0, nn as int) =~= outs0); assert(func.ins().subrange(0, ni as int) =~= ins0);
        reveal(row_is); reveal(row_same);
        assert(func.ins().last() == row_of(bb, rw, rowk(top_down, h, it.index@)));
        assert forall|k: int| 0 <= k < it.index@ + 1 implies row_is(buffer@, rw, #[trigger] rowk(top_down, h, k), func.outs()[nn + k]) && row_is(b0, rw, rowk(top_down, h, k), func.ins()[ni + k]) by {
            if k < it.index@ { assert(row_is(bb, rw, rowk(top_down, h, k), fo[nn + k])); assert(fo[nn + k] == func.outs()[nn + k]); assert(fi[ni + k] == func.ins()[ni + k]); }
        }
        assert forall|k: int| it.index@ + 1 <= k < h implies #[trigger] row_same(buffer@, b0, rw, rowk(top_down, h, k)) by {
            lemma_rowpos(rw, h, rowk(top_down, h, k)); assert(row_same(bb, b0, rw, rowk(top_down, h, k)));
            assert(row_is(bb, rw, rowk(top_down, h, k), row_of(bb, rw, rowk(top_down, h, k))));
        }
    }
//@ spec
    requires $n1 > 0, $n2 > 0, $n3 > 0, ($n3 * $n1) * $n2 <= usize::MAX,
    ensures res.is_ok() ==> ({ let rw = $n3 * $n1; let h = $n2 as int; let a = old($n5).outs(); let b = final($n5).outs(); let i0 = old($n5).ins(); let i1 = final($n5).ins();
        // the k-th call got the k-th row of the file's order, and left it in its place
        &&& old($n0)@.len() == rw * h && final($n0)@.len() == rw * h && b.len() == a.len() + h && b.subrange(0, a.len() as int) == a && i1.len() == i0.len() + h && i1.subrange(0, i0.len() as int) == i0
        &&& forall|k: int| 0 <= k < h ==> row_is(final($n0)@, rw, #[trigger] rowk($n4, h, k), b[a.len() + k]) && row_is(old($n0)@, rw, rowk($n4, h, k), i1[i0.len() + k]) }),
//@end
//@item src/codecs/bmp/decoder.rs enum ImageType attrs="#[derive(PartialEq, Eq, Structural, Copy, Clone)]"
//@item src/codecs/bmp/decoder.rs enum BMPHeaderType attrs="#[derive(PartialEq, Eq, Structural)]"
//@item src/codecs/bmp/decoder.rs enum FormatFullBytes attrs="#[derive(PartialEq, Eq, Structural)]"
//@item src/codecs/bmp/decoder.rs struct BmpDecoder
// ---- where the samples of pixel (x, y) are in the file, and what they are ----
ghost enum Src { Pal(int, Seq<[u8; 3]>), Idx, Rgb24, Rgb32, Rgba32, F888, B16(Bitfields), B32(Bitfields) }
spec fn spb(s: Src) -> int { match s { Src::Pal(_, _) => 1, Src::Idx => 1, Src::Rgb24 => 3, Src::B16(_) => 2, _ => 4 } }
// rows take a multiple of four bytes
spec fn stride(s: Src, w: int) -> int { match s { Src::Pal(b, _) => (b * w + 31) / 32 * 4, _ => (w * spb(s) + 3) / 4 * 4 } }
spec fn full_of(f: FormatFullBytes) -> Src { match f { FormatFullBytes::RGB24 => Src::Rgb24, FormatFullBytes::RGB32 => Src::Rgb32, FormatFullBytes::RGBA32 => Src::Rgba32, FormatFullBytes::Format888 => Src::F888 } }
spec fn fch(b: Bitfields, c: int) -> Bitfield { if c == 0 { b.r } else if c == 1 { b.g } else if c == 2 { b.b } else { b.a } }
spec fn fields_ok(b: Bitfields) -> bool { fok(b.r) && fok(b.g) && fok(b.b) && fok(b.a) && b.r.len > 0 && b.g.len > 0 && b.b.len > 0 }
spec fn fsample(b: Bitfields, v: int, c: int) -> int { let f = fch(b, c); if f.len == 0 { 255 } else { widen(fval(f, v as u32) as int, f.len as int) } }
#[verifier::opaque]
spec fn sample(s: Src, d: Seq<u8>, p: int, c: int) -> int {
    match s {
        Src::Pal(_, _) => 0,
        Src::Idx => d[p] as int,
        Src::Rgb24 => if c < 3 { d[p + 2 - c] as int } else { 255 },
        Src::Rgb32 => if c < 3 { d[p + 2 - c] as int } else { 255 },
        Src::Rgba32 => if c < 3 { d[p + 2 - c] as int } else { d[p + 3] as int },
        Src::F888 => if c < 3 { d[p + 3 - c] as int } else { 255 },
        Src::B16(b) => fsample(b, v16(d, p, true), c),
        Src::B32(b) => fsample(b, v32(d, p, true), c),
    }
}
spec fn per(b: int) -> int { if b == 8 { 1 } else if b == 4 { 2 } else if b == 2 { 4 } else { 8 } }
// the j-th index in byte v
spec fn ival(b: int, v: int, j: int) -> int {
    if b == 8 { v } else if b == 4 { if j == 0 { v / 16 } else { v % 16 } }
    else if b == 2 { if j == 0 { v / 64 } else if j == 1 { v / 16 % 4 } else if j == 2 { v / 4 % 4 } else { v % 4 } }
    else { if j == 0 { v / 128 } else if j == 1 { v / 64 % 2 } else if j == 2 { v / 32 % 2 } else if j == 3 { v / 16 % 2 } else if j == 4 { v / 8 % 2 } else if j == 5 { v / 4 % 2 } else if j == 6 { v / 2 % 2 } else { v % 2 } }
}
// sample c of the pixel x of a row stored from p on
spec fn smp(s: Src, d: Seq<u8>, p: int, x: int, c: int) -> int {
    match s { Src::Pal(b, pal) => if c < 3 { pal[ival(b, d[p + x / per(b)] as int, x % per(b))]@[c] as int } else { 255 }, _ => sample(s, d, p + x * spb(s), c) }
}
proof fn lemma_full_px(f: FormatFullBytes, d: Seq<u8>, q: int, px: Seq<u8>, n: int)
    requires n == 3 || n == 4, px.len() == n, f == FormatFullBytes::RGBA32 ==> n == 4,
        ({ let e = if f == FormatFullBytes::Format888 { q + 1 } else { q }; px[0] == d[e + 2] && px[1] == d[e + 1] && px[2] == d[e] }),
        n == 4 ==> px[3] == (if f == FormatFullBytes::RGBA32 { d[q + 3] } else { 255 }),
    ensures forall|c: int| 0 <= c < n ==> #[trigger] px[c] == sample(full_of(f), d, q, c)
{ reveal(sample); }
spec fn sv(s: Seq<u8>, i: int, v: int) -> bool { 0 <= i < s.len() && s[i] == v }
#[verifier::opaque]
spec fn row_ok(row: Seq<u8>, n: int, s: Src, d: Seq<u8>, p: int, k: int) -> bool { forall|x: int, c: int| 0 <= x < k && 0 <= c < n ==> #[trigger] sv(row, x * n + c, smp(s, d, p, x, c)) }
// the image in `buf` is the one stored from `off` on: file row k is row k, or counted from the bottom
#[verifier::opaque]
spec fn img_ok(buf: Seq<u8>, w: int, h: int, n: int, td: bool, s: Src, d: Seq<u8>, off: int, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> #[trigger] row_here(buf, w, h, n, td, s, d, off, j)
}
spec fn row_here(buf: Seq<u8>, w: int, h: int, n: int, td: bool, s: Src, d: Seq<u8>, off: int, j: int) -> bool {
    let y = rowk(td, h, j); 0 <= y * (n * w) && y * (n * w) + n * w <= buf.len() && row_ok(row_of(buf, n * w, y), n, s, d, off + j * stride(s, w), w)
}
proof fn lemma_row_push(row: Seq<u8>, row2: Seq<u8>, px: Seq<u8>, n: int, s: Src, d: Seq<u8>, p: int, k: int, w: int)
    requires n == 3 || n == 4, !(s is Pal), 0 <= k < w, row.len() == n * w, px.len() == n, 0 <= k * n, k * n + n <= row.len(), row2 == row.subrange(0, k * n) + px + row.subrange(k * n + n, row.len() as int), row_ok(row, n, s, d, p, k),
        forall|c: int| 0 <= c < n ==> #[trigger] px[c] == sample(s, d, p + k * spb(s), c)
    ensures row_ok(row2, n, s, d, p, k + 1)
{
    reveal(row_ok);
    assert forall|x: int, c: int| 0 <= x < k + 1 && 0 <= c < n implies #[trigger] sv(row2, x * n + c, smp(s, d, p, x, c)) by {
        if x < k { assert(sv(row, x * n + c, smp(s, d, p, x, c))); assert(x * n + n <= k * n && 0 <= x * n) by (nonlinear_arith) requires 0 <= x, x + 1 <= k, n > 0; }
        else { assert(row2[k * n + c] == px[c]); }
    }
}
proof fn lemma_img_push(a: Seq<u8>, b: Seq<u8>, row: Seq<u8>, w: int, h: int, n: int, td: bool, s: Src, d: Seq<u8>, off: int, k: int)
    requires n > 0, w > 0, 0 <= k < h, a.len() == (n * w) * h, row.len() == n * w, img_ok(a, w, h, n, td, s, d, off, k), row_ok(row, n, s, d, off + k * stride(s, w), w),
        ({ let y = rowk(td, h, k); let rw = n * w; 0 <= y * rw && y * rw + rw <= a.len() && b == a.subrange(0, y * rw) + row + a.subrange(y * rw + rw, a.len() as int) }),
    ensures b.len() == a.len(), img_ok(b, w, h, n, td, s, d, off, k + 1)
{
    reveal(img_ok); let rw = n * w; assert(rw > 0) by (nonlinear_arith) requires n > 0, w > 0, rw == n * w;
    lemma_put(a, b, rw, h, rowk(td, h, k), row); reveal(row_is);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] row_here(b, w, h, n, td, s, d, off, j) by {
        if j < k { assert(row_here(a, w, h, n, td, s, d, off, j)); assert(row_is(a, rw, rowk(td, h, j), row_of(a, rw, rowk(td, h, j)))); assert(row_is(b, rw, rowk(td, h, j), row_of(a, rw, rowk(td, h, j)))); }
        else { assert(row_is(b, rw, rowk(td, h, k), row)); }
    }
}
impl<R: Read + Seek> BmpDecoder<R> {
    spec fn nc(&self) -> int { if self.indexed_color { 1 } else if self.add_alpha_channel { 4 } else { 3 } }
    spec fn same(&self, o: &Self) -> bool { self.width == o.width && self.height == o.height && self.top_down == o.top_down && self.reader.data() == o.reader.data() }
//@fn src/codecs/bmp/decoder.rs num_channels ret=res
//@ panics forbid
//@ spec
    ensures res == self.nc(),
//@end
//@fn src/codecs/bmp/decoder.rs read_32_bit_pixel_data ret=res
//@ subst? `let reader = &mut self.reader;` => ``
//@ subst? `reader.seek(` => `self.reader.seek(`
//@ subst? `reader.read_u32` => `self.reader.read_u32`
//@ subst? `with_rows($BUF, $W, $H, $N, $T, |row| {$B},)?` => `let vxh = ($H) as usize; let vxw = ($W) as usize; let vxn = ($N); let vxrw = vxn * vxw; for vxk in 0..vxh { let vxy = if $T { vxk } else { vxh - 1 - vxk }; let row = vx_slice_mut($BUF, vxy * vxrw, vxy * vxrw + vxrw); let vxr: IoResult<()> = {$B}; vxr?; }`
//@ subst? `for pixel in row.chunks_mut($N) {$B}` => `let vxpn = vx_nchunks(row.len(), $N); for vxx in 0..vxpn { let pixel = vx_chunk_mut(row, $N, vxx); $B }`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ at body.start
    let ghost s0 = *self; let ghost d = self.reader.data(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost n = self.nc(); let ghost td = self.top_down; let ghost off = self.data_offset as int;
    let ghost s = Src::B32(self.bitfields.unwrap()); let ghost st = stride(s, w); let ghost sb = spb(s); let ghost rw = n * w;
    proof {
        assert(0 < rw && rw <= rw * h && rw <= 4 * w) by (nonlinear_arith) requires 3 <= n <= 4, w > 0, h > 0, rw == n * w;
        assert(sb * w <= st && st <= sb * w + 3 && st > 0);
        reveal(img_ok); assert(img_ok($n0@, w, h, n, td, s, d, off, 0)); assert(0 * st == 0);
        assert(st <= h * st) by (nonlinear_arith) requires h > 0, st > 0;
    }
//@ loop 0 for it=it
    invariant vxw == w, vxh == h, vxn == n, vxrw == rw, self.same(&s0), self.bitfields == s0.bitfields, $n0@.len() == rw * h, img_ok($n0@, w, h, n, td, s, d, off, it.index@), at(self.reader.rest(), d, off + it.index@ * st), it.index@ > 0 ==> off + it.index@ * st <= d.len(),
    *bitfields == s0.bitfields.unwrap(),
//@ at loop0.start
    let ghost k = it.index@; let ghost bb = $n0@; let ghost p = off + k * st; let ghost y = rowk(td, h, k); let ghost mut rl = Seq::<u8>::empty();
    proof { lemma_rowpos(rw, h, y); assert(k * st + st <= h * st) by (nonlinear_arith) requires k + 1 <= h, st > 0; assert((k + 1) * st == k * st + st) by (nonlinear_arith); }
//@ at loop1.before
    proof {
        reveal(row_ok); assert(row_ok(row@, n, s, d, p, 0)); assert(row@.len() == rw); assert(rw == w * n) by (nonlinear_arith) requires rw == n * w; assert(rw % n == 0 && rw / n == w) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, n); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(w, n); }
    }
//@ loop 1 for it=it2
    invariant vxpn == w, row@.len() == rw, self.same(&s0), self.bitfields == s0.bitfields, row_ok(row@, n, s, d, p, it2.index@), at(self.reader.rest(), d, p + it2.index@ * sb), it2.index@ > 0 ==> p + it2.index@ * sb <= d.len(),
//@ at loop1.start
    let ghost x = it2.index@; let ghost q = p + x * sb; let ghost rr = row@;
    proof { assert(0 <= x * n && x * n + n <= rw) by (nonlinear_arith) requires 0 <= x, x + 1 <= w, n > 0, rw == n * w; assert(x * sb + sb <= st) by (nonlinear_arith) requires x + 1 <= w, sb * w <= st, sb > 0; assert(0 <= x * sb) by (nonlinear_arith) requires x >= 0, sb > 0; assert((x + 1) * sb == x * sb + sb) by (nonlinear_arith); }
//@ at before `pixel [ 0 ] =`
    proof { assert(data == v32(d, q, true)); }
//@ at loop1.end
    let ghost px = pixel@;
    proof { reveal(sample); assert(self.reader.rest() =~= d.skip(q + sb)); lemma_row_push(rr, row@, px, n, s, d, p, x, w); }
//@ at loop1.after
    proof { rl = row@; }
//@ at loop0.end
    proof { lemma_img_push(bb, $n0@, rl, w, h, n, td, s, d, off, k); }
//@ spec
    requires old(self).width > 0, old(self).height > 0, old(self).nc() >= 3, $n0@.len() == (old(self).nc() * old(self).width) * old(self).height, $n0@.len() <= usize::MAX,
        old(self).bitfields.is_some(), fields_ok(old(self).bitfields.unwrap()),
    ensures final(self).same(old(self)), final($n0)@.len() == old($n0)@.len(),
        ({ let s = Src::B32(old(self).bitfields.unwrap()); let d = old(self).reader.data(); let w = old(self).width as int; let h = old(self).height as int; let off = old(self).data_offset as int;
        &&& res.is_ok() <==> d.len() >= off + h * stride(s, w)
        &&& res.is_ok() ==> img_ok(final($n0)@, w, h, old(self).nc(), old(self).top_down, s, d, off, h) }),
//@end
//@fn src/codecs/bmp/decoder.rs read_16_bit_pixel_data ret=res
//@ subst? `let reader = &mut self.reader;` => ``
//@ subst? `let row_padding = &mut [0; $K][..$L];` => `let mut vxpad = [0u8; $K]; let vxpl: usize = $L;`
//@ subst? `reader.read_exact(row_padding)` => `self.reader.read_exact(vx_slice_mut(&mut vxpad, 0, vxpl))`
//@ subst? `reader.seek(` => `self.reader.seek(`
//@ subst? `reader.read_u16` => `self.reader.read_u16`
//@ subst? `with_rows($BUF, $W, $H, $N, $T, |row| {$B},)?` => `let vxh = ($H) as usize; let vxw = ($W) as usize; let vxn = ($N); let vxrw = vxn * vxw; for vxk in 0..vxh { let vxy = if $T { vxk } else { vxh - 1 - vxk }; let row = vx_slice_mut($BUF, vxy * vxrw, vxy * vxrw + vxrw); let vxr: IoResult<()> = {$B}; vxr?; }`
//@ subst? `for pixel in row.chunks_mut($N) {$B}` => `let vxpn = vx_nchunks(row.len(), $N); for vxx in 0..vxpn { let pixel = vx_chunk_mut(row, $N, vxx); $B }`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ at body.start
    let ghost s0 = *self; let ghost d = self.reader.data(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost n = self.nc(); let ghost td = self.top_down; let ghost off = self.data_offset as int;
    let ghost s = Src::B16(match $n1 { Some(b) => *b, None => self.bitfields.unwrap() }); let ghost st = stride(s, w); let ghost sb = spb(s); let ghost rw = n * w;
    proof {
        assert(0 < rw && rw <= rw * h && rw <= 4 * w) by (nonlinear_arith) requires 3 <= n <= 4, w > 0, h > 0, rw == n * w;
        assert(sb * w <= st && st <= sb * w + 3 && st > 0);
        reveal(img_ok); assert(img_ok($n0@, w, h, n, td, s, d, off, 0)); assert(0 * st == 0);
        assert(st <= h * st) by (nonlinear_arith) requires h > 0, st > 0;
    }
//@ loop 0 for it=it
    invariant vxw == w, vxh == h, vxn == n, vxrw == rw, self.same(&s0), self.bitfields == s0.bitfields, $n0@.len() == rw * h, img_ok($n0@, w, h, n, td, s, d, off, it.index@), at(self.reader.rest(), d, off + it.index@ * st), it.index@ > 0 ==> off + it.index@ * st <= d.len(),
    s == Src::B16(*bitfields), vxpl <= 2, vxpl == st - 2 * w, vxpad@.len() == 2,
//@ at loop0.start
    let ghost k = it.index@; let ghost bb = $n0@; let ghost p = off + k * st; let ghost y = rowk(td, h, k); let ghost mut rl = Seq::<u8>::empty();
    proof { lemma_rowpos(rw, h, y); assert(k * st + st <= h * st) by (nonlinear_arith) requires k + 1 <= h, st > 0; assert((k + 1) * st == k * st + st) by (nonlinear_arith); }
//@ at loop1.before
    proof {
        reveal(row_ok); assert(row_ok(row@, n, s, d, p, 0)); assert(row@.len() == rw); assert(rw == w * n) by (nonlinear_arith) requires rw == n * w; assert(rw % n == 0 && rw / n == w) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, n); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(w, n); }
    }
//@ loop 1 for it=it2
    invariant vxpn == w, row@.len() == rw, self.same(&s0), self.bitfields == s0.bitfields, row_ok(row@, n, s, d, p, it2.index@), at(self.reader.rest(), d, p + it2.index@ * sb), it2.index@ > 0 ==> p + it2.index@ * sb <= d.len(),
//@ at loop1.start
    let ghost x = it2.index@; let ghost q = p + x * sb; let ghost rr = row@;
    proof { assert(0 <= x * n && x * n + n <= rw) by (nonlinear_arith) requires 0 <= x, x + 1 <= w, n > 0, rw == n * w; assert(x * sb + sb <= st) by (nonlinear_arith) requires x + 1 <= w, sb * w <= st, sb > 0; assert(0 <= x * sb) by (nonlinear_arith) requires x >= 0, sb > 0; assert((x + 1) * sb == x * sb + sb) by (nonlinear_arith); }
//@ at before `pixel [ 0 ] =`
    proof { assert(data == v16(d, q, true)); }
//@ at loop1.end
    let ghost px = pixel@;
    proof { reveal(sample); assert(self.reader.rest() =~= d.skip(q + sb)); lemma_row_push(rr, row@, px, n, s, d, p, x, w); }
//@ at loop1.after
    proof { rl = row@; }
//@ at before `self . reader . read_exact ( vx_slice_mut ( & mut vxpad`
    let ghost pe = p + w * sb;
    proof { assert(w * sb == sb * w) by (nonlinear_arith); assert(pe + vxpl == p + st); if pe <= d.len() { if vxpl <= d.len() - pe { assert(d.skip(pe).skip(vxpl as int) =~= d.skip(p + st)); } } }
//@ at loop0.end
    proof { lemma_img_push(bb, $n0@, rl, w, h, n, td, s, d, off, k); }
//@ spec
    requires old(self).width > 0, old(self).height > 0, old(self).nc() >= 3, $n0@.len() == (old(self).nc() * old(self).width) * old(self).height, $n0@.len() <= usize::MAX,
        $n1.is_some() ==> fields_ok(*$n1.unwrap()), $n1.is_none() ==> old(self).bitfields.is_some() && fields_ok(old(self).bitfields.unwrap()),
    ensures final(self).same(old(self)), final($n0)@.len() == old($n0)@.len(),
        ({ let s = Src::B16(match $n1 { Some(b) => *b, None => old(self).bitfields.unwrap() }); let d = old(self).reader.data(); let w = old(self).width as int; let h = old(self).height as int; let off = old(self).data_offset as int;
        &&& res.is_ok() <==> d.len() >= off + h * stride(s, w)
        &&& res.is_ok() ==> img_ok(final($n0)@, w, h, old(self).nc(), old(self).top_down, s, d, off, h) }),
//@end
//@fn src/codecs/bmp/decoder.rs read_full_byte_pixel_data ret=res
//@ subst? `let reader = &mut self.reader;` => ``
//@ subst? `let row_padding = &mut [0; $K][..$L];` => `let mut vxpad = [0u8; $K]; let vxpl: usize = $L;`
//@ subst? `reader.read_exact(row_padding)` => `self.reader.read_exact(vx_slice_mut(&mut vxpad, 0, vxpl))`
//@ subst? `reader.read_u8()` => `self.reader.read_u8()`
//@ subst? `reader.read_exact(&mut pixel[$A..$B])` => `self.reader.read_exact(vx_slice_mut(pixel, $A, $B))`
//@ subst? `pixel[$A..$B].reverse()` => `vx_reverse(vx_slice_mut(pixel, $A, $B))`
//@ subst? `with_rows($BUF, $W, $H, $N, $T, |row| {$B},)?` => `let vxh = ($H) as usize; let vxw = ($W) as usize; let vxn = ($N); let vxrw = vxn * vxw; for vxk in 0..vxh { let vxy = if $T { vxk } else { vxh - 1 - vxk }; let row = vx_slice_mut($BUF, vxy * vxrw, vxy * vxrw + vxrw); let vxr: IoResult<()> = {$B}; vxr?; }`
//@ subst? `for pixel in row.chunks_mut($N) {$B}` => `let vxpn = vx_nchunks(row.len(), $N); for vxx in 0..vxpn { let pixel = vx_chunk_mut(row, $N, vxx); $B }`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ at body.start
    let ghost s0 = *self; let ghost d = self.reader.data(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost n = self.nc(); let ghost td = self.top_down; let ghost off = self.data_offset as int;
    let ghost s = full_of(*$n1); let ghost st = stride(s, w); let ghost sb = spb(s); let ghost rw = n * w;
    proof {
        assert(0 < rw && rw <= rw * h && rw <= 4 * w) by (nonlinear_arith) requires 3 <= n <= 4, w > 0, h > 0, rw == n * w;
        assert(sb * w <= st && st <= sb * w + 3 && st > 0);
        reveal(img_ok); assert(img_ok($n0@, w, h, n, td, s, d, off, 0)); assert(0 * st == 0);
        assert(st <= h * st) by (nonlinear_arith) requires h > 0, st > 0;
    }
//@ loop 0 for it=it
    invariant vxw == w, vxh == h, vxn == n, vxrw == rw, self.same(&s0), self.bitfields == s0.bitfields, $n0@.len() == rw * h, img_ok($n0@, w, h, n, td, s, d, off, it.index@), at(self.reader.rest(), d, off + it.index@ * st), it.index@ > 0 ==> off + it.index@ * st <= d.len(),
    vxpl <= 4, vxpl == st - sb * w, vxpad@.len() == 4, s == full_of(*format), *format == FormatFullBytes::RGBA32 ==> n == 4,
//@ at loop0.start
    let ghost k = it.index@; let ghost bb = $n0@; let ghost p = off + k * st; let ghost y = rowk(td, h, k); let ghost mut rl = Seq::<u8>::empty();
    proof { lemma_rowpos(rw, h, y); assert(k * st + st <= h * st) by (nonlinear_arith) requires k + 1 <= h, st > 0; assert((k + 1) * st == k * st + st) by (nonlinear_arith); }
//@ at loop1.before
    proof {
        reveal(row_ok); assert(row_ok(row@, n, s, d, p, 0)); assert(row@.len() == rw); assert(rw == w * n) by (nonlinear_arith) requires rw == n * w; assert(rw % n == 0 && rw / n == w) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, n); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(w, n); }
    }
//@ loop 1 for it=it2
    invariant vxpn == w, row@.len() == rw, self.same(&s0), self.bitfields == s0.bitfields, row_ok(row@, n, s, d, p, it2.index@), at(self.reader.rest(), d, p + it2.index@ * sb), it2.index@ > 0 ==> p + it2.index@ * sb <= d.len(),
//@ at loop1.start
    let ghost x = it2.index@; let ghost q = p + x * sb; let ghost rr = row@;
    proof { assert(0 <= x * n && x * n + n <= rw) by (nonlinear_arith) requires 0 <= x, x + 1 <= w, n > 0, rw == n * w; assert(x * sb + sb <= st) by (nonlinear_arith) requires x + 1 <= w, sb * w <= st, sb > 0; assert(0 <= x * sb) by (nonlinear_arith) requires x >= 0, sb > 0; assert((x + 1) * sb == x * sb + sb) by (nonlinear_arith); }
//@ at before `self . reader . read_exact ( vx_slice_mut ( pixel , 0 , 3 ) )`
    let ghost q1 = if *format == FormatFullBytes::Format888 { q + 1 } else { q };
    proof { if q + 1 <= d.len() { assert(d.skip(q).skip(1) =~= d.skip(q + 1)); } assert(at(self.reader.rest(), d, q1)); }
//@ at before `vx_reverse ( vx_slice_mut ( pixel , 0 , 3 ) )`
    let ghost p3 = pixel@;
    proof { assert(q1 + 3 <= d.len()); assert(d.skip(q1).skip(3) =~= d.skip(q1 + 3)); assert(p3[0] == d[q1] && p3[1] == d[q1 + 1] && p3[2] == d[q1 + 2]); assert(p3.len() == n); }
//@ at after `vx_reverse ( vx_slice_mut ( pixel , 0 , 3 ) ) ;`
    proof { assert(pixel@.len() == n); assert(pixel@[0] == d[q1 + 2] && pixel@[1] == d[q1 + 1] && pixel@[2] == d[q1]); }
//@ at before `if * format == FormatFullBytes :: RGBA32`
    let ghost q4 = if *format == FormatFullBytes::RGB32 { q1 + 4 } else { q1 + 3 };
    proof { if q1 + 4 <= d.len() { assert(d.skip(q1 + 3).skip(1) =~= d.skip(q1 + 4)); } assert(at(self.reader.rest(), d, q4)); }
//@ at loop1.end
    let ghost px = pixel@;
    proof { lemma_full_px(*format, d, q, px, n); assert(self.reader.rest() =~= d.skip(q + sb)); lemma_row_push(rr, row@, px, n, s, d, p, x, w); }
//@ at loop1.after
    proof { rl = row@; }
//@ at before `self . reader . read_exact ( vx_slice_mut ( & mut vxpad`
    let ghost pe = p + w * sb;
    proof { assert(w * sb == sb * w) by (nonlinear_arith); assert(pe + vxpl == p + st); if pe <= d.len() { if vxpl <= d.len() - pe { assert(d.skip(pe).skip(vxpl as int) =~= d.skip(p + st)); } } }
//@ at loop0.end
    proof { lemma_img_push(bb, $n0@, rl, w, h, n, td, s, d, off, k); }
//@ spec
    requires old(self).width > 0, old(self).height > 0, old(self).nc() >= 3, $n0@.len() == (old(self).nc() * old(self).width) * old(self).height, $n0@.len() <= usize::MAX,
        *$n1 == FormatFullBytes::RGBA32 ==> old(self).nc() == 4,
    ensures final(self).same(old(self)), final($n0)@.len() == old($n0)@.len(),
        ({ let s = full_of(*$n1); let d = old(self).reader.data(); let w = old(self).width as int; let h = old(self).height as int; let off = old(self).data_offset as int;
        &&& res.is_ok() <==> d.len() >= off + h * stride(s, w)
        &&& res.is_ok() ==> img_ok(final($n0)@, w, h, old(self).nc(), old(self).top_down, s, d, off, h) }),
//@end
}
// ---- palette images: the indices of a row, most significant bits first ----
// `Iterator<Item = &u8>`: the items still to come
pub trait Indices: Sized {
    spec fn item(&self, k: int) -> u8;
    spec fn more(&self, k: int) -> bool;
    fn next(&mut self) -> (r: Option<u8>)
        ensures r.is_some() <==> old(self).more(0), r.is_some() ==> r.unwrap() == old(self).item(0) && (forall|k: int| k >= 0 ==> #[trigger] final(self).item(k) == old(self).item(k + 1)) && (forall|k: int| k >= 0 ==> #[trigger] final(self).more(k) == old(self).more(k + 1));
}
spec fn idx_of<T: Indices>(t: T, b: int, j: int) -> int { ival(b, t.item(j / per(b)) as int, j % per(b)) }
// `ChunksMut<u8>`: the row it walks, the pixel size, and how far it got
pub struct ChunksMut<'a> { pub row: &'a mut [u8], pub n: usize, pub pos: usize }
impl<'a> ChunksMut<'a> {
    // the row has w pixels, and k of them are done
    spec fn wf(&self, w: int, k: int) -> bool { (self.n == 3 || self.n == 4) && 0 <= k <= w && self.row@.len() == w * self.n && self.pos == k * self.n }
    spec fn end(&self) -> int { if self.pos + self.n <= self.row@.len() { self.pos + self.n } else { self.row@.len() as int } }
    fn next(&mut self) -> (r: Option<&mut [u8]>)
        requires old(self).n > 0, old(self).pos <= old(self).row@.len(),
        ensures r.is_none() <==> old(self).pos == old(self).row@.len(), final(self).n == old(self).n, final(self).row@.len() == old(self).row@.len(), final(final(self).row)@ == final(old(self).row)@,
            r.is_none() ==> *final(self) == *old(self),
            r matches Some(p) ==> ({ let e = old(self).end(); p@ == old(self).row@.subrange(old(self).pos as int, e) && final(self).pos == e && final(p)@.len() == p@.len()
                && final(self).row@ == old(self).row@.subrange(0, old(self).pos as int) + final(p)@ + old(self).row@.subrange(e, old(self).row@.len() as int) }),
    {
        if self.pos >= self.row.len() { None } else {
            let a = self.pos; let e = if self.row.len() - a < self.n { self.row.len() } else { a + self.n };
            self.pos = e;
            Some(vx_slice_mut(self.row, a, e))
        }
    }
}
// pixel k is `v` (its fourth channel is as in `o`), or as in `o`
spec fn p_is(r: Seq<u8>, o: Seq<u8>, n: int, k: int, v: [u8; 3]) -> bool { 0 <= k * n && k * n + n <= r.len() && r[k * n] == v@[0] && r[k * n + 1] == v@[1] && r[k * n + 2] == v@[2] && (n == 4 ==> r[k * n + 3] == o[k * n + 3]) }
spec fn p_same(r: Seq<u8>, o: Seq<u8>, n: int, k: int) -> bool { 0 <= k * n && k * n + n <= r.len() && r[k * n] == o[k * n] && r[k * n + 1] == o[k * n + 1] && r[k * n + 2] == o[k * n + 2] && (n == 4 ==> r[k * n + 3] == o[k * n + 3]) }
// pixels k0 .. k0 + m took the colours of the first m indices of t
#[verifier::opaque]
spec fn painted<T: Indices>(r: Seq<u8>, o: Seq<u8>, n: int, w: int, k0: int, m: int, pal: Seq<[u8; 3]>, t: T, b: int) -> bool {
    r.len() == o.len() && forall|k: int| 0 <= k < w ==> #[trigger] pk(r, o, n, k0, m, pal, t, b, k)
}
spec fn pk<T: Indices>(r: Seq<u8>, o: Seq<u8>, n: int, k0: int, m: int, pal: Seq<[u8; 3]>, t: T, b: int, k: int) -> bool { if k0 <= k < k0 + m { p_is(r, o, n, k, pal[idx_of(t, b, k - k0)]) } else { p_same(r, o, n, k) } }
proof fn lemma_pos_k(n: int, k: int, w: int) requires n > 0, 0 <= k < w ensures 0 <= k * n, k * n + n <= w * n { assert(0 <= k * n) by (nonlinear_arith) requires k >= 0, n > 0; assert(k * n + n <= w * n) by (nonlinear_arith) requires k + 1 <= w, n > 0; }
proof fn lemma_painted0<T: Indices>(r: Seq<u8>, n: int, w: int, k0: int, pal: Seq<[u8; 3]>, t: T, b: int) requires n == 3 || n == 4, r.len() == w * n ensures painted(r, r, n, w, k0, 0, pal, t, b)
{ reveal(painted); assert forall|k: int| 0 <= k < w implies #[trigger] pk(r, r, n, k0, 0, pal, t, b, k) by { lemma_pos_k(n, k, w); } }
proof fn lemma_paint<T: Indices>(rb: Seq<u8>, ra: Seq<u8>, px: Seq<u8>, o: Seq<u8>, n: int, w: int, k0: int, m: int, pal: Seq<[u8; 3]>, t: T, b: int)
    requires n == 3 || n == 4, painted(rb, o, n, w, k0, m, pal, t, b), 0 <= k0, 0 <= m, k0 + m < w, rb.len() == w * n, px.len() == n, 0 <= (k0 + m) * n, (k0 + m) * n + n <= rb.len(),
        ra == rb.subrange(0, (k0 + m) * n) + px + rb.subrange((k0 + m) * n + n, rb.len() as int),
        ({ let v = pal[idx_of(t, b, m)]; px[0] == v@[0] && px[1] == v@[1] && px[2] == v@[2] && (n == 4 ==> px[3] == rb[(k0 + m) * n + 3]) }),
    ensures painted(ra, o, n, w, k0, m + 1, pal, t, b)
{
    reveal(painted); let a = k0 + m;
    assert forall|k: int| 0 <= k < w implies #[trigger] pk(ra, o, n, k0, m + 1, pal, t, b, k) by {
        lemma_pos_k(n, k, w);
        if k < a { assert(k * n + n <= a * n) by (nonlinear_arith) requires k + 1 <= a, n > 0; } else if k > a { assert(a * n + n <= k * n) by (nonlinear_arith) requires a + 1 <= k, n > 0; }
        assert(pk(rb, o, n, k0, m, pal, t, b, k));
    }
}
spec fn shifted<T: Indices>(a: T, b: T, c: int) -> bool { (forall|k: int| k >= 0 ==> #[trigger] a.item(k) == b.item(k + c)) && (forall|k: int| k >= 0 ==> #[trigger] a.more(k) == b.more(k + c)) }
spec fn all_more<T: Indices>(t: T, c: int) -> bool { forall|x: int| 0 <= x < c ==> #[trigger] t.more(x) }
impl<'a> ChunksMut<'a> {
    spec fn px(&self) -> int { self.row@.len() as int / self.n as int }
    spec fn done(&self) -> int { self.pos as int / self.n as int }
    spec fn inv(&self) -> bool { self.wf(self.px(), self.done()) }
}
proof fn lemma_div(n: int, w: int, k: int) requires n > 0 ensures (w * n) / n == w, (k * n) / n == k { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(w, n); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, n); assert(w * n == n * w && k * n == n * k) by (nonlinear_arith); }
// an iterator that ran out has all its pixels done
proof fn lemma_full(w: int, k: int, n: int) requires n > 0, k * n == w * n ensures k == w { lemma_div(n, w, k); }
spec fn bitv(q: int) -> int { if q == 0 { 128 } else if q == 1 { 64 } else if q == 2 { 32 } else if q == 3 { 16 } else if q == 4 { 8 } else if q == 5 { 4 } else if q == 6 { 2 } else { 1 } }
proof fn lemma_bits(v: u8)
    ensures (v >> 4) == v / 16, (v & 0xf) == v % 16, ((v >> 6) & 3) == v / 64, ((v >> 4) & 3) == v / 16 % 4, ((v >> 2) & 3) == v / 4 % 4, (v & 3) == v % 4,
        (v & 0x80 != 0) == (v / 128 == 1), (v & 0x40 != 0) == (v / 64 % 2 == 1), (v & 0x20 != 0) == (v / 32 % 2 == 1), (v & 0x10 != 0) == (v / 16 % 2 == 1), (v & 8 != 0) == (v / 8 % 2 == 1), (v & 4 != 0) == (v / 4 % 2 == 1), (v & 2 != 0) == (v / 2 % 2 == 1), (v & 1 != 0) == (v % 2 == 1)
{
    assert((v >> 4) == v / 16 && (v & 0xf) == v % 16 && ((v >> 6) & 3) == v / 64 && ((v >> 4) & 3) == v / 16 % 4 && ((v >> 2) & 3) == v / 4 % 4 && (v & 3) == v % 4) by (bit_vector);
    assert((v & 0x80 != 0) == (v / 128 == 1) && (v & 0x40 != 0) == (v / 64 % 2 == 1) && (v & 0x20 != 0) == (v / 32 % 2 == 1) && (v & 0x10 != 0) == (v / 16 % 2 == 1) && (v & 8 != 0) == (v / 8 % 2 == 1) && (v & 4 != 0) == (v / 4 % 2 == 1) && (v & 2 != 0) == (v / 2 % 2 == 1) && (v & 1 != 0) == (v % 2 == 1)) by (bit_vector);
}
//@fn src/codecs/bmp/decoder.rs set_8bit_pixel_run ret=res
//@ sigsubst `T: Iterator<$A>` => `T: Indices`
//@ sigsubst? `'a, ` => ``
//@ sigsubst `ChunksMut<u8>` => `ChunksMut`
//@ sigsubst? `mut n_pixels: usize` => `n_pixels: usize`
//@ sigsubst? `n_pixels: usize` => `vxnp: usize`
//@ subst? `for idx in indices.take(n_pixels) {$B}` => `let mut vxit = indices; let mut vxt: usize = 0; while vxt < n_pixels { let vxv: u8 = match vxit.next() { Some(vxx) => vxx, None => break }; let idx = &vxv; vxt = vxt + 1; $B }`
//@ subst? `if let Some(pixel) = pixel_iter.next() {$A} else {$C}` => `let ghost rb = pixel_iter.row@; let ghost mut px = Seq::<u8>::empty(); if let Some(pixel) = pixel_iter.next() { $A proof { px = pixel@; } } else { proof { lemma_full(w, k0 + j, n); } $C } proof { lemma_pos_k(n, k0 + j, w); lemma_paint(rb, pixel_iter.row@, px, o, n, w, k0, j, pal, t0, 8); j = j + 1; assert((k0 + j - 1) * n + n == (k0 + j) * n) by (nonlinear_arith); lemma_div(n, w, k0 + j); }`
//@ panics forbid
//@ attrs
#[verifier::rlimit(60)]
//@ at body.start
    let mut $n3 = vxnp;
    let ghost t0 = $n2; let ghost w = pixel_iter.px(); let ghost k0 = pixel_iter.done(); let ghost n = pixel_iter.n as int; let ghost o = pixel_iter.row@; let ghost pal = $n1@; let ghost fr = final(pixel_iter.row)@; let ghost mut j: int = 0; let ghost mut t: int = 0;
    let ghost n0 = vxnp as int;
    proof { lemma_painted0(o, n, w, k0, pal, t0, 8); }
//@ loop 0 while
    invariant_except_break j == vxt, shifted(vxit, t0, j),
    invariant vxt <= n_pixels, j <= n_pixels, n_pixels == n0, 0 <= j, pixel_iter.wf(w, k0 + j), pixel_iter.done() == k0 + j, pixel_iter.px() == w, pixel_iter.n == n, painted(pixel_iter.row@, o, n, w, k0, j, pal, t0, 8), final(pixel_iter.row)@ == fr, o == old($n0).row@, n == old($n0).n, n == 3 || n == 4, w == old($n0).px(), k0 == old($n0).done(), 0 <= k0, fr == final(old($n0).row)@, pal == $n1@, pal.len() == 256, t0 == $n2, n0 == vxnp, all_more(t0, j),
    ensures j == n0 || !t0.more(j),
    decreases n_pixels - vxt
//@ at after `let idx = & vxv ;`
    proof { assert(vxv == t0.item(j)); assert(idx_of(t0, 8, j) == vxv); }
//@ spec
    requires old($n0).inv(), $n1@.len() == 256,
    ensures final($n0).inv(), final($n0).n == old($n0).n, final($n0).px() == old($n0).px(), final(final($n0).row)@ == final(old($n0).row)@,
        ({ let k0 = old($n0).done(); let m = final($n0).done() - k0;
        &&& 0 <= m && painted(final($n0).row@, old($n0).row@, old($n0).n as int, old($n0).px(), k0, m, $n1@, $n2, 8)
        &&& (res ==> m == vxnp || (m < vxnp && m % 1 == 0 && !$n2.more(m / 1)))
        &&& (!res ==> k0 + m == old($n0).px() && m < vxnp && $n2.more(m / 1)) }),
//@end
//@fn src/codecs/bmp/decoder.rs set_4bit_pixel_run ret=res
//@ sigsubst `T: Iterator<$A>` => `T: Indices`
//@ sigsubst? `'a, ` => ``
//@ sigsubst `ChunksMut<u8>` => `ChunksMut`
//@ sigsubst? `mut n_pixels: usize` => `n_pixels: usize`
//@ sigsubst? `n_pixels: usize` => `vxnp: usize`
//@ expandmacro set_pixel
//@ subst? `for idx in indices {$B}` => `let mut vxit = indices; loop { let idx: u8 = match vxit.next() { Some(vxx) => vxx, None => break }; $B }`
//@ subst? `if let Some(pixel) = pixel_iter.next() {$A} else {$C}` => `let ghost rb = pixel_iter.row@; let ghost mut px = Seq::<u8>::empty(); if let Some(pixel) = pixel_iter.next() { $A proof { px = pixel@; } } else { proof { lemma_full(w, k0 + j, n); } $C } proof { lemma_pos_k(n, k0 + j, w); lemma_paint(rb, pixel_iter.row@, px, o, n, w, k0, j, pal, t0, 4); j = j + 1; assert((k0 + j - 1) * n + n == (k0 + j) * n) by (nonlinear_arith); lemma_div(n, w, k0 + j); }`
//@ panics forbid
//@ attrs
#[verifier::rlimit(60)]
//@ at body.start
    let mut $n3 = vxnp;
    let ghost t0 = $n2; let ghost w = pixel_iter.px(); let ghost k0 = pixel_iter.done(); let ghost n = pixel_iter.n as int; let ghost o = pixel_iter.row@; let ghost pal = $n1@; let ghost fr = final(pixel_iter.row)@; let ghost mut j: int = 0; let ghost mut t: int = 0;
    let ghost n0 = vxnp as int;
    proof { lemma_painted0(o, n, w, k0, pal, t0, 4); }
//@ loop 0 loop
    invariant_except_break j == 2 * t, 0 <= t, n_pixels == n0 - j, shifted(vxit, t0, t), all_more(t0, t),
    invariant 0 <= j, pixel_iter.wf(w, k0 + j), pixel_iter.done() == k0 + j, pixel_iter.px() == w, pixel_iter.n == n, painted(pixel_iter.row@, o, n, w, k0, j, pal, t0, 4), final(pixel_iter.row)@ == fr, o == old($n0).row@, n == old($n0).n, n == 3 || n == 4, w == old($n0).px(), k0 == old($n0).done(), 0 <= k0, fr == final(old($n0).row)@, pal == $n1@, pal.len() == 256, t0 == $n2, n0 == vxnp, j <= n0,
    ensures j == n0 || (j < n0 && j % 2 == 0 && !t0.more(j / 2)),
    decreases n_pixels
//@ at after `let idx : u8 = match vxit . next ( ) { Some ( vxx ) => vxx , None => break } ;`
    proof { assert(idx == t0.item(t)); assert(t0.more(t)); t = t + 1; lemma_bits(idx); }
//@ spec
    requires old($n0).inv(), $n1@.len() == 256,
    ensures final($n0).inv(), final($n0).n == old($n0).n, final($n0).px() == old($n0).px(), final(final($n0).row)@ == final(old($n0).row)@,
        ({ let k0 = old($n0).done(); let m = final($n0).done() - k0;
        &&& 0 <= m && painted(final($n0).row@, old($n0).row@, old($n0).n as int, old($n0).px(), k0, m, $n1@, $n2, 4)
        &&& (res ==> m == vxnp || (m < vxnp && m % 2 == 0 && !$n2.more(m / 2)))
        &&& (!res ==> k0 + m == old($n0).px() && m < vxnp && $n2.more(m / 2)) }),
//@end
//@fn src/codecs/bmp/decoder.rs set_2bit_pixel_run ret=res
//@ sigsubst `T: Iterator<$A>` => `T: Indices`
//@ sigsubst? `'a, ` => ``
//@ sigsubst `ChunksMut<u8>` => `ChunksMut`
//@ sigsubst? `mut n_pixels: usize` => `n_pixels: usize`
//@ sigsubst? `n_pixels: usize` => `vxnp: usize`
//@ expandmacro set_pixel
//@ subst? `for idx in indices {$B}` => `let mut vxit = indices; loop { let idx: u8 = match vxit.next() { Some(vxx) => vxx, None => break }; $B }`
//@ subst? `if let Some(pixel) = pixel_iter.next() {$A} else {$C}` => `let ghost rb = pixel_iter.row@; let ghost mut px = Seq::<u8>::empty(); if let Some(pixel) = pixel_iter.next() { $A proof { px = pixel@; } } else { proof { lemma_full(w, k0 + j, n); } $C } proof { lemma_pos_k(n, k0 + j, w); lemma_paint(rb, pixel_iter.row@, px, o, n, w, k0, j, pal, t0, 2); j = j + 1; assert((k0 + j - 1) * n + n == (k0 + j) * n) by (nonlinear_arith); lemma_div(n, w, k0 + j); }`
//@ panics forbid
//@ attrs
#[verifier::rlimit(60)]
//@ at body.start
    let mut $n3 = vxnp;
    let ghost t0 = $n2; let ghost w = pixel_iter.px(); let ghost k0 = pixel_iter.done(); let ghost n = pixel_iter.n as int; let ghost o = pixel_iter.row@; let ghost pal = $n1@; let ghost fr = final(pixel_iter.row)@; let ghost mut j: int = 0; let ghost mut t: int = 0;
    let ghost n0 = vxnp as int;
    proof { lemma_painted0(o, n, w, k0, pal, t0, 2); }
//@ loop 0 loop
    invariant_except_break j == 4 * t, 0 <= t, n_pixels == n0 - j, shifted(vxit, t0, t), all_more(t0, t),
    invariant 0 <= j, pixel_iter.wf(w, k0 + j), pixel_iter.done() == k0 + j, pixel_iter.px() == w, pixel_iter.n == n, painted(pixel_iter.row@, o, n, w, k0, j, pal, t0, 2), final(pixel_iter.row)@ == fr, o == old($n0).row@, n == old($n0).n, n == 3 || n == 4, w == old($n0).px(), k0 == old($n0).done(), 0 <= k0, fr == final(old($n0).row)@, pal == $n1@, pal.len() == 256, t0 == $n2, n0 == vxnp, j <= n0,
    ensures j == n0 || (j < n0 && j % 4 == 0 && !t0.more(j / 4)),
    decreases n_pixels
//@ at after `let idx : u8 = match vxit . next ( ) { Some ( vxx ) => vxx , None => break } ;`
    proof { assert(idx == t0.item(t)); assert(t0.more(t)); t = t + 1; lemma_bits(idx); }
//@ spec
    requires old($n0).inv(), $n1@.len() == 256,
    ensures final($n0).inv(), final($n0).n == old($n0).n, final($n0).px() == old($n0).px(), final(final($n0).row)@ == final(old($n0).row)@,
        ({ let k0 = old($n0).done(); let m = final($n0).done() - k0;
        &&& 0 <= m && painted(final($n0).row@, old($n0).row@, old($n0).n as int, old($n0).px(), k0, m, $n1@, $n2, 2)
        &&& (res ==> m == vxnp || (m < vxnp && m % 4 == 0 && !$n2.more(m / 4)))
        &&& (!res ==> k0 + m == old($n0).px() && m < vxnp && $n2.more(m / 4)) }),
//@end
//@fn src/codecs/bmp/decoder.rs set_1bit_pixel_run 
//@ sigsubst `T: Iterator<$A>` => `T: Indices`
//@ sigsubst? `'a, ` => ``
//@ sigsubst `ChunksMut<u8>` => `ChunksMut`
//@ sigsubst? `mut n_pixels: usize` => `n_pixels: usize`
//@ sigsubst? `n_pixels: usize` => `vxnp: usize`
//@ subst? `for idx in indices {$B}` => `let mut vxit = indices; loop { let idx: u8 = match vxit.next() { Some(vxx) => vxx, None => break }; $B }`
//@ subst? `usize::from($A)` => `(if $A { 1usize } else { 0usize })`
//@ subst? `let mut bit = 0x80;` => `let mut bit: u8 = 0x80;`
//@ subst? `if let Some(pixel) = pixel_iter.next() {$A} else {$C}` => `let ghost rb = pixel_iter.row@; let ghost mut px = Seq::<u8>::empty(); if let Some(pixel) = pixel_iter.next() { $A proof { px = pixel@; } } else { proof { lemma_full(w, k0 + j, n); } $C } proof { lemma_pos_k(n, k0 + j, w); lemma_paint(rb, pixel_iter.row@, px, o, n, w, k0, j, pal, t0, 1); j = j + 1; assert((k0 + j - 1) * n + n == (k0 + j) * n) by (nonlinear_arith); lemma_div(n, w, k0 + j); }`
//@ panics forbid
//@ attrs
#[verifier::rlimit(60)]
//@ at body.start
    
    let ghost t0 = $n2; let ghost w = pixel_iter.px(); let ghost k0 = pixel_iter.done(); let ghost n = pixel_iter.n as int; let ghost o = pixel_iter.row@; let ghost pal = $n1@; let ghost fr = final(pixel_iter.row)@; let ghost mut j: int = 0; let ghost mut t: int = 0;
    
    proof { lemma_painted0(o, n, w, k0, pal, t0, 1); }
//@ loop 0 loop
    invariant_except_break j == 8 * t, 0 <= t, shifted(vxit, t0, t),
    invariant 0 <= j, pixel_iter.wf(w, k0 + j), pixel_iter.done() == k0 + j, pixel_iter.px() == w, pixel_iter.n == n, painted(pixel_iter.row@, o, n, w, k0, j, pal, t0, 1), final(pixel_iter.row)@ == fr, o == old($n0).row@, n == old($n0).n, n == 3 || n == 4, w == old($n0).px(), k0 == old($n0).done(), 0 <= k0, fr == final(old($n0).row)@, pal == $n1@, pal.len() == 256, t0 == $n2,
    ensures j % 8 == 0 && !t0.more(j / 8),
    decreases w - k0 - j
//@ at after `let idx : u8 = match vxit . next ( ) { Some ( vxx ) => vxx , None => break } ;`
    let ghost tb = t; let ghost jb = j;
    proof { assert(idx == t0.item(t)); t = t + 1; lemma_bits(idx); }
    let ghost mut q: int = 0;
//@ loop 1 loop
    invariant_except_break 0 <= q < 8, bit == bitv(q), j == 8 * tb + q, 
    invariant 0 <= j, pixel_iter.wf(w, k0 + j), pixel_iter.done() == k0 + j, pixel_iter.px() == w, pixel_iter.n == n, painted(pixel_iter.row@, o, n, w, k0, j, pal, t0, 1), final(pixel_iter.row)@ == fr, o == old($n0).row@, n == old($n0).n, n == 3 || n == 4, w == old($n0).px(), k0 == old($n0).done(), 0 <= k0, fr == final(old($n0).row)@, pal == $n1@, pal.len() == 256, t0 == $n2, idx == t0.item(tb), t == tb + 1, tb >= 0, jb == 8 * tb,
    ensures j == 8 * t,
    decreases w - k0 - j
//@ at loop1.start
    proof { lemma_bits(idx); }
//@ at before `bit >>= 1`
    proof { let c = bit; assert((128u8 >> 1) == 64 && (64u8 >> 1) == 32 && (32u8 >> 1) == 16 && (16u8 >> 1) == 8 && (8u8 >> 1) == 4 && (4u8 >> 1) == 2 && (2u8 >> 1) == 1 && (1u8 >> 1) == 0) by (bit_vector); q = q + 1; }
//@ spec
    requires old($n0).inv(), $n1@.len() == 256,
    ensures final($n0).inv(), final($n0).n == old($n0).n, final($n0).px() == old($n0).px(), final(final($n0).row)@ == final(old($n0).row)@,
        ({ let k0 = old($n0).done(); let m = final($n0).done() - k0;
        &&& 0 <= m && painted(final($n0).row@, old($n0).row@, old($n0).n as int, old($n0).px(), k0, m, $n1@, $n2, 1)
        &&& (k0 + m == old($n0).px() || (m % 8 == 0 && !$n2.more(m / 8))) }),
//@end
// `v.iter()` of a byte vector
pub struct VecIter<'a> { pub v: &'a Vec<u8>, pub p: usize }
impl<'a> Indices for VecIter<'a> {
    open spec fn item(&self, k: int) -> u8 { self.v@[self.p + k] }
    open spec fn more(&self, k: int) -> bool { self.p + k < self.v@.len() }
    fn next(&mut self) -> (r: Option<u8>) { if self.p < self.v.len() { let x = self.v[self.p]; self.p = self.p + 1; Some(x) } else { None } }
}
fn vx_iter(v: &Vec<u8>) -> (r: VecIter) ensures *r.v == *v, r.p == 0 { VecIter { v, p: 0 } }
// `vec![0; n]`
#[verifier::external_body]
fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |k: int| 0u8) { vec![0; n] }
#[verifier::external_body]
fn vx_vec_mut(v: &mut Vec<u8>) -> (o: &mut [u8]) ensures o@ == old(v)@, final(v)@ == final(o)@ { &mut v[..] }
// the fourth channel of every pixel is 255
#[verifier::opaque]
spec fn alpha_row(row: Seq<u8>, n: int, w: int) -> bool { n == 4 ==> forall|x: int| 0 <= x < w ==> #[trigger] sv(row, x * 4 + 3, 255) }
spec fn alpha_here(buf: Seq<u8>, n: int, w: int, y: int) -> bool { 0 <= y * (n * w) && y * (n * w) + n * w <= buf.len() && alpha_row(row_of(buf, n * w, y), n, w) }
proof fn lemma_alpha(buf: Seq<u8>, n: int, w: int, h: int, y: int)
    requires n > 0, w > 0, 0 <= y < h, buf.len() == (n * w) * h, n == 4 ==> forall|i: int| 0 <= i < buf.len() / 4 ==> #[trigger] sv(buf, 4 * i + 3, 255),
    ensures alpha_here(buf, n, w, y)
{
    reveal(alpha_row); let rw = n * w; assert(rw > 0) by (nonlinear_arith) requires n > 0, w > 0, rw == n * w;
    lemma_rowpos(rw, h, y);
    if n == 4 {
        assert forall|x: int| 0 <= x < w implies #[trigger] sv(row_of(buf, rw, y), x * 4 + 3, 255) by {
            let i = y * w + x; assert(y * rw == 4 * (y * w)) by (nonlinear_arith) requires rw == 4 * w;
            assert(0 <= y * w) by (nonlinear_arith) requires y >= 0, w > 0;
            assert(sv(buf, 4 * i + 3, 255));
        }
    }
}
proof fn lemma_pal_row(r: Seq<u8>, o: Seq<u8>, n: int, w: int, m: int, pal: Seq<[u8; 3]>, t: VecIter, b: int, d: Seq<u8>, p: int)
    requires n == 3 || n == 4, m == w, r.len() == n * w, painted(r, o, n, w, 0, m, pal, t, b), alpha_row(o, n, w), o.len() == r.len(), b == 1 || b == 2 || b == 4 || b == 8,
        t.p == 0, t.v@.len() == (b * w + 31) / 32 * 4, p + t.v@.len() <= d.len(), p >= 0, t.v@ == d.subrange(p, p + t.v@.len()), pal.len() == 256,
    ensures row_ok(r, n, Src::Pal(b, pal), d, p, w)
{
    reveal(painted); reveal(row_ok); reveal(alpha_row); let s = Src::Pal(b, pal);
    assert forall|x: int, c: int| 0 <= x < w && 0 <= c < n implies #[trigger] sv(r, x * n + c, smp(s, d, p, x, c)) by {
        lemma_pos_k(n, x, w); assert(n * w == w * n) by (nonlinear_arith);
        assert(pk(r, o, n, 0, m, pal, t, b, x)); assert(0 <= x / per(b) < t.v@.len());
        assert(t.item(x / per(b)) == d[p + x / per(b)]);
        if n == 4 { assert(sv(o, x * 4 + 3, 255)); }
    }
}
// enough bytes for w indices
proof fn lemma_pal_all(m: int, w: int, b: int, len: int) requires b == 1 || b == 2 || b == 4 || b == 8, 0 <= m <= w, len == (b * w + 31) / 32 * 4, m % per(b) == 0, m / per(b) >= len ensures m == w { }
proof fn lemma_idx_row(r: Seq<u8>, w: int, d: Seq<u8>, p: int) requires r.len() == w, p + w <= d.len(), p >= 0, r == d.subrange(p, p + w) ensures row_ok(r, 1, Src::Idx, d, p, w)
{ reveal(row_ok); reveal(sample); assert forall|x: int, c: int| 0 <= x < w && 0 <= c < 1 implies #[trigger] sv(r, x * 1 + c, smp(Src::Idx, d, p, x, c)) by {} }
impl<R: Read + Seek> BmpDecoder<R> {
//@fn src/codecs/bmp/decoder.rs read_palettized_pixel_data ret=res
//@ subst? `let reader = &mut self.reader;` => ``
//@ subst? `reader.seek(` => `self.reader.seek(`
//@ subst? `reader.read_exact(&mut indices)` => `self.reader.read_exact(vx_vec_mut(&mut indices))`
//@ subst? `vec![0; $N]` => `vx_zeros($N)`
//@ subst? `row.clone_from_slice(&indices[$A..$B])` => `vx_copy_all(row, vx_idx(&indices, $A, $B))`
//@ subst? `indices.iter()` => `vx_iter(&indices)`
//@ subst? `i32::from(self.bit_count)` => `(self.bit_count as i32)`
//@ subst? `match bit_count {$A};` => `let ghost it0 = pixel_iter; proof { lemma_div(n, w, 0); assert(w * n == n * w) by (nonlinear_arith); assert(pixel_iter.inv()); } match bit_count {$A}; proof {
        let m = pixel_iter.done(); let t = VecIter { v: &indices, p: 0 };
        lemma_div(n, w, 0); assert(it0.px() == w && it0.done() == 0);
        assert(painted(pixel_iter.row@, or, n, w, 0, m, pal, t, b));
        if m != w { assert(!t.more(m / per(b))); assert(m % per(b) == 0); lemma_pal_all(m, w, b, st); }
        lemma_pal_row(pixel_iter.row@, or, n, w, m, pal, t, b, d, p);
    }`
//@ subst? `buf.chunks_exact_mut($N).for_each(|c| $B)` => `let vxc = buf.len() / $N; for vxi in 0..vxc { let c = vx_chunk_mut(buf, $N, vxi); $B; }`
//@ subst? `let mut pixel_iter = row.chunks_mut($N);` => `let mut pixel_iter = ChunksMut { row: row, n: $N, pos: 0 };`
//@ subst? `with_rows($BUF, $W, $H, $N, $T, |row| {$B},)?` => `let vxh = ($H) as usize; let vxw = ($W) as usize; let vxn = ($N); let vxrw = vxn * vxw; for vxk in 0..vxh { let vxy = if $T { vxk } else { vxh - 1 - vxk }; let row = vx_slice_mut($BUF, vxy * vxrw, vxy * vxrw + vxrw); let ghost or = row@; let vxr: IoResult<()> = {$B}; vxr?; }`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ at body.start
    let ghost s0 = *self; let ghost d = self.reader.data(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost n = self.nc(); let ghost td = self.top_down; let ghost off = self.data_offset as int;
    let ghost b = self.bit_count as int; let ghost pal = self.palette.unwrap()@; let ghost s = pal_src(self.indexed_color, b, pal); let ghost st = (b * w + 31) / 32 * 4; let ghost rw = n * w;
    proof {
        assert(0 < rw && rw <= rw * h && rw <= 4 * w) by (nonlinear_arith) requires 1 <= n <= 4, w > 0, h > 0, rw == n * w;
        assert(0 <= b * w <= 8 * 65535 && b * w >= w) by (nonlinear_arith) requires 1 <= b <= 8, 0 < w <= 65535;
        assert(st == stride(s, w) || self.indexed_color);
        reveal(img_ok); assert(img_ok($n0@, w, h, n, td, s, d, off, 0)); assert(0 * st == 0);
        assert(st <= h * st) by (nonlinear_arith) requires h > 0, st > 0;
    }
//@ loop 0 for it=it
    invariant buf@.len() == rw * h, vxc == (rw * h) / 4, forall|i: int| 0 <= i < it.index@ ==> #[trigger] sv(buf@, 4 * i + 3, 255),
//@ at loop0.start
    let ghost b0 = buf@; let ghost i0 = it.index@;
//@ at loop0.end
    proof { assert forall|i: int| 0 <= i < i0 + 1 implies #[trigger] sv(buf@, 4 * i + 3, 255) by { if i < i0 { assert(sv(b0, 4 * i + 3, 255)); } } }
//@ loop 1 for it=it
    invariant vxw == w, vxh == h, vxn == n, vxrw == rw, self.same(&s0), palette@ == pal, indices@.len() == st, $n0@.len() == rw * h, img_ok($n0@, w, h, n, td, s, d, off, it.index@), at(self.reader.rest(), d, off + it.index@ * st), it.index@ > 0 ==> off + it.index@ * st <= d.len(),
        forall|j: int| it.index@ <= j < h ==> #[trigger] alpha_k(buf@, n, w, h, td, j),
//@ at loop1.start
    let ghost k = it.index@; let ghost bb = $n0@; let ghost p = off + k * st; let ghost y = rowk(td, h, k); let ghost mut rl = Seq::<u8>::empty();
    proof { lemma_rowpos(rw, h, y); assert(k * st + st <= h * st) by (nonlinear_arith) requires k + 1 <= h, st > 0; assert((k + 1) * st == k * st + st) by (nonlinear_arith); assert(alpha_k(bb, n, w, h, td, k)); }
//@ at before? `if skip_palette`
    proof { assert(indices@ =~= d.subrange(p, p + st)); assert(d.skip(p).skip(st) =~= d.skip(p + st)); assert(or.len() == rw); assert(rw == w * n) by (nonlinear_arith) requires rw == n * w; assert(alpha_row(or, n, w)); }
//@ at before? `let vxr : IoResult`
    proof { assert(or =~= row_of(bb, rw, y)); }
//@ at before? `vxr ? ;`
    proof { rl = row@; assert(row_ok(rl, n, s, d, p, w)) by { if s0.indexed_color { assert(n == 1); assert(rl =~= d.subrange(p, p + w)); lemma_idx_row(rl, w, d, p); } } }
//@ at loop1.end
    proof {
        lemma_img_push(bb, $n0@, rl, w, h, n, td, s, d, off, k); reveal(row_is); lemma_put(bb, $n0@, rw, h, y, rl);
        assert forall|j: int| k + 1 <= j < h implies #[trigger] alpha_k($n0@, n, w, h, td, j) by {
            let z = rowk(td, h, j); assert(alpha_k(bb, n, w, h, td, j)); lemma_rowpos(rw, h, z);
            assert(row_is(bb, rw, z, row_of(bb, rw, z))); assert(row_is($n0@, rw, z, row_of(bb, rw, z)));
        }
    }
//@ at before? `let vxh =`
    proof { assert forall|j: int| 0 <= j < h implies #[trigger] alpha_k($n0@, n, w, h, td, j) by { lemma_alpha($n0@, n, w, h, rowk(td, h, j)); } }
//@ spec
    requires 0 < old(self).width <= 0xffff, old(self).height > 0, $n0@.len() == (old(self).nc() * old(self).width) * old(self).height, $n0@.len() <= usize::MAX,
        old(self).palette.is_some(), old(self).palette.unwrap()@.len() == 256, old(self).bit_count == 1 || old(self).bit_count == 2 || old(self).bit_count == 4 || old(self).bit_count == 8,
        old(self).indexed_color ==> old(self).bit_count == 8,
    ensures final(self).same(old(self)), final($n0)@.len() == old($n0)@.len(),
        ({ let b = old(self).bit_count as int; let s = pal_src(old(self).indexed_color, b, old(self).palette.unwrap()@); let d = old(self).reader.data(); let w = old(self).width as int; let h = old(self).height as int; let off = old(self).data_offset as int;
        &&& res.is_ok() <==> d.len() >= off + h * stride(s, w)
        &&& res.is_ok() ==> img_ok(final($n0)@, w, h, old(self).nc(), old(self).top_down, s, d, off, h) }),
//@end
}
spec fn pal_src(indexed: bool, b: int, pal: Seq<[u8; 3]>) -> Src { if indexed { Src::Idx } else { Src::Pal(b, pal) } }
spec fn alpha_k(buf: Seq<u8>, n: int, w: int, h: int, td: bool, j: int) -> bool { alpha_here(buf, n, w, rowk(td, h, j)) }
// ---- run-length coded images: where each instruction leaves the cursor, and what is accepted ----
//@item src/codecs/bmp/decoder.rs const RLE_ESCAPE
//@item src/codecs/bmp/decoder.rs const RLE_ESCAPE_EOL
//@item src/codecs/bmp/decoder.rs const RLE_ESCAPE_EOF
//@item src/codecs/bmp/decoder.rs const RLE_ESCAPE_DELTA
//@item src/codecs/bmp/decoder.rs enum RLEInsn
// std's `ChunksMut` over whole rows and its `Rev`: the rows still to come
pub struct Rows<'a> { pub v: Vec<&'a mut [u8]> }
impl<'a> Rows<'a> {
    pub uninterp spec fn left(&self) -> int;
    pub uninterp spec fn len(&self) -> int;
    pub uninterp spec fn rev(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a mut [u8]>)
        ensures final(self).len() == old(self).len(), final(self).rev() == old(self).rev(), r.is_none() <==> old(self).left() <= 0, r.is_none() ==> final(self).left() == old(self).left(), r matches Some(p) ==> p@.len() == old(self).len() && final(self).left() == old(self).left() - 1
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_rows<'a>(b: &'a mut [u8], n: usize, rev: bool) -> (r: Rows<'a>) requires n > 0, b@.len() % n as nat == 0, ensures r.left() == old(b)@.len() / n as nat, r.len() == n, r.rev() == rev, final(b)@.len() == old(b)@.len() { unimplemented!() }
//@item src/codecs/bmp/decoder.rs enum Chunker sub="Rev<ChunksMut<'a, u8>>=>Rows<'a>;;ChunksMut<'a, u8>=>Rows<'a>"
//@item src/codecs/bmp/decoder.rs struct RowIterator
impl<'a> RowIterator<'a> {
    spec fn rows(&self) -> Rows<'a> { match self.chunks { Chunker::FromTop(c) => c, Chunker::FromBottom(c) => c } }
    spec fn left(&self) -> int { self.rows().left() }
    spec fn len(&self) -> int { self.rows().len() }
    #[verifier::external_body]
    fn vx_zero_rest(self) { unimplemented!() }
//@fn src/codecs/bmp/decoder.rs next ctx="Iterator for RowIterator" ret=res
//@ sigsubst? `Option<Self::Item>` => `Option<&'a mut [u8]>`
//@ panics forbid
//@ spec
    ensures final(self).len() == old(self).len(), final(self).rows().rev() == old(self).rows().rev(), res.is_none() <==> old(self).left() <= 0, res.is_none() ==> final(self).left() == old(self).left(), res matches Some(p) ==> p@.len() == old(self).len() && final(self).left() == old(self).left() - 1,
//@end
}
impl<'a> ChunksMut<'a> { #[verifier::external_body] fn vx_zero_rest(self) { unimplemented!() } }
#[verifier::external_body]
fn vx_zero(p: &mut [u8]) ensures final(p)@.len() == old(p)@.len() { p.fill(0) }
// `repeat(&b)`
pub struct Repeat { pub b: u8 }
impl Indices for Repeat {
    open spec fn item(&self, k: int) -> u8 { self.b }
    open spec fn more(&self, k: int) -> bool { true }
    fn next(&mut self) -> (r: Option<u8>) { Some(self.b) }
}
fn vx_repeat(b: &u8) -> (r: Repeat) ensures r.b == *b { Repeat { b: *b } }
// the bytes an absolute run of n indices takes
spec fn abs_len(n: int, r4: bool) -> int { let b = if r4 { (n + 1) / 2 } else { n }; b + b % 2 }
// from byte p of d, with the cursor at pixel x of row k, the instructions stay inside the picture and the data until its end
spec fn rle_ok(d: Seq<u8>, p: int, k: int, x: int, w: int, h: int, r4: bool) -> bool decreases d.len() - p {
    if k >= h { true } else if p < 0 || p + 2 > d.len() { false } else {
        let c = d[p] as int; let o = d[p + 1] as int;
        if c != 0 { x + c <= w && rle_ok(d, p + 2, k, x + c, w, h, r4) }
        else if o == 0 { rle_ok(d, p + 2, k + 1, 0, w, h, r4) }
        else if o == 1 { true }
        else if o == 2 { p + 4 <= d.len() && x + d[p + 2] <= w && k + d[p + 3] < h && rle_ok(d, p + 4, k + d[p + 3], x + d[p + 2], w, h, r4) }
        else { p + 2 + abs_len(o, r4) <= d.len() && x + o <= w && rle_ok(d, p + 2 + abs_len(o, r4), k, x + o, w, h, r4) }
    }
}
impl<R: Read + Seek> BmpDecoder<R> {
//@fn src/codecs/bmp/decoder.rs rows ret=res
//@ subst? `$P.chunks_mut($N).rev()` => `vx_rows($P, $N, true)`
//@ subst? `$P.chunks_mut($N)` => `vx_rows($P, $N, false)`
//@ panics forbid
//@ at body.start
    proof {
        let rw = self.nc() * self.width; let h = self.height as int;
        assert(0 < rw <= 4 * 65535) by (nonlinear_arith) requires 1 <= self.nc() <= 4, 0 < self.width <= 65535, rw == self.nc() * self.width;
        assert(self.width * self.nc() == rw) by (nonlinear_arith) requires rw == self.nc() * self.width;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(h, rw); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(h, rw); assert(rw * h == h * rw) by (nonlinear_arith);
    }
//@ spec
    requires 0 < self.width <= 0xffff, self.height >= 0, $n0@.len() == (self.nc() * self.width) * self.height,
    ensures res.left() == self.height, res.len() == self.nc() * self.width, res.rows().rev() == !self.top_down, final($n0)@.len() == old($n0)@.len()
//@end
//@fn src/codecs/bmp/decoder.rs read_rle_data ret=res
//@ subst? `vec![0; $N]` => `vx_zeros($N)`
//@ subst? `self.reader.read_exact(&mut $N)?` => `self.reader.read_exact(vx_vec_mut(&mut $N))?`
//@ subst? `pixel_iter.for_each($A);` => `pixel_iter.vx_zero_rest();`
//@ subst? `row_iter.for_each($A);` => `row_iter.vx_zero_rest();`
//@ subst? `row.chunks_mut($N)` => `vx_chunked(row, $N)`
//@ subst? `row_iter.next().ok_or(DecoderError::CorruptRleData)?.chunks_mut($N)` => `vx_chunked(match row_iter.next() { Some(vxv) => vxv, None => return Err(vx_err()) }, $N)`
//@ subst? `let row = row_iter.next().ok_or(DecoderError::CorruptRleData)?` => `let row = match row_iter.next() { Some(vxv) => vxv, None => return Err(vx_err()) }`
//@ subst? `row.fill(0)` => `vx_zero(row)`
//@ subst? `pixel_iter.next().ok_or(DecoderError::CorruptRleData)?.fill(0)` => `vx_zero(match pixel_iter.next() { Some(vxv) => vxv, None => return Err(vx_err()) })`
//@ subst? `let pixel = pixel_iter.next().ok_or(DecoderError::CorruptRleData)?` => `let pixel = match pixel_iter.next() { Some(vxv) => vxv, None => return Err(vx_err()) }`
//@ subst? `pixel.fill(0)` => `vx_zero(pixel)`
//@ subst? `return Err(DecoderError::CorruptRleData.into())` => `return Err(vx_err())`
//@ subst? `indices.iter()` => `vx_iter(&indices)`
//@ subst? `repeat(&palette_index)` => `vx_repeat(&palette_index)`
//@ subst? `while let Some(row) = row_iter.next() {$B}` => `loop { let row = match row_iter.next() { Some(vxv) => vxv, None => break }; $B }`
//@ subst? `let mut x = 0;` => `let mut x: usize = 0;`
//@ subst? `for _ in 1..y_delta` => `for vxa in 1..y_delta`
//@ subst? `for _ in 0..x_delta` => `for vxc in 0..x_delta`
//@ subst? `for _ in 0..x` => `for vxb in 0..x`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ at body.start
    let ghost s0 = *self; let ghost d = self.reader.data(); let ghost w = self.width as int; let ghost h = self.height as int; let ghost n = self.nc(); let ghost r4 = $n1 == ImageType::RLE4; let ghost mut gp = self.data_offset as int; let ghost mut gk = 0int; let ghost ok = rle_ok(d, gp, 0, 0, w, h, r4);
    proof { assert(n * w > 0) by (nonlinear_arith) requires n >= 3, w > 0; }
//@ loop 0 loop
    invariant_except_break ok == rle_ok(d, gp, gk, 0, w, h, r4), row_iter.left() == h - gk,
    invariant self.reader.data() == d, self.width == s0.width, self.image_type == s0.image_type, 0 <= gk <= h, gp >= 0, at(self.reader.rest(), d, gp), row_iter.len() == n * w, num_channels == n, p@.len() == 256,
    ensures ok,
    decreases h - gk
//@ at loop1.before
    proof { assert(w * n == n * w) by (nonlinear_arith); lemma_div(n, w, 0); }
    let ghost ks = gk;
//@ loop 1 loop
    invariant_except_break ok == rle_ok(d, gp, gk, x as int, w, h, r4), pixel_iter.inv(), pixel_iter.px() == w, pixel_iter.n == n, pixel_iter.done() == x, 0 <= x <= w,
    invariant self.reader.data() == d, self.image_type == s0.image_type, ks <= gk < h, 0 <= ks, gp >= 0, at(self.reader.rest(), d, gp), row_iter.left() == h - 1 - gk, row_iter.len() == n * w,
    ensures ok == rle_ok(d, gp, gk + 1, 0, w, h, r4),
    decreases d.len() - gp
//@ at before? `length += length & 1`
    proof { let l = length; assert(l & 1 == l % 2) by (bit_vector); }
//@ at before `match instruction`
    let ghost p0 = gp; let ghost k0 = gk; let ghost x0 = x as int;
    proof {
        let q = match instruction { RLEInsn::Delta(_, _) => gp + 4, RLEInsn::Absolute(c, _) => gp + 2 + abs_len(c as int, r4), _ => gp + 2 };
        assert(self.reader.rest() =~= d.skip(q)); gp = q;
    }
//@ loop 2 for it=it
    invariant row_iter.left() == h - 1 - gk - it.index@, row_iter.left() >= 0, row_iter.len() == n * w,
//@ loop 3 for it=it
    invariant pixel_iter.wf(w, it.index@), pixel_iter.n == n,
//@ at loop3.start
    proof { lemma_pos_k(n, it.index@, w); assert((it.index@ + 1) * n == it.index@ * n + n) by (nonlinear_arith); }
//@ loop 4 for it=it
    invariant pixel_iter.wf(w, x + it.index@), pixel_iter.n == n,
//@ at loop4.start
    proof { let kk = x + it.index@; if kk < w { lemma_pos_k(n, kk, w); } assert((kk + 1) * n == kk * n + n) by (nonlinear_arith); if kk * n == w * n { lemma_full(w, kk, n); } }
//@ at before `x += x_delta`
    proof { gk = gk + y_delta; lemma_div(n, w, x + x_delta); }
//@ at loop0.end
    proof { gk = gk + 1; }
//@ spec
    requires 0 < old(self).width <= 0xffff, old(self).height > 0, $n0@.len() == (old(self).nc() * old(self).width) * old(self).height, !old(self).indexed_color,
        old(self).palette.is_some(), old(self).palette.unwrap()@.len() == 256, $n1 == old(self).image_type, $n1 == ImageType::RLE4 || $n1 == ImageType::RLE8,
    ensures final(self).reader.data() == old(self).reader.data(), final($n0)@.len() == old($n0)@.len(),
        res.is_ok() <==> rle_ok(old(self).reader.data(), old(self).data_offset as int, 0, 0, old(self).width as int, old(self).height as int, $n1 == ImageType::RLE4),
//@end
}
fn vx_chunked<'a>(row: &'a mut [u8], n: usize) -> (r: ChunksMut<'a>) ensures r.row@ == old(row)@, r.n == n, r.pos == 0 { ChunksMut { row: row, n: n, pos: 0 } }
}
fn main() {}
