#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
// assumed contract of `s.iter().rev().fold(init, f)`
pub open spec fn le(s: Seq<u8>) -> u64 decreases s.len() { if s.len() == 0 { 0 } else { (le(s.drop_first()) << 8u64) | (s[0] as u64) } }
#[verifier::external_body]
pub fn vx_rev_fold<'a, F: Fn(u64, &'a u8) -> u64>(s: &'a [u8], init: u64, f: F) -> (r: u64)
    requires init == 0, forall|t: u64, b: &'a u8| f.requires((t, b)), forall|t: u64, b: &'a u8, o: u64| f.ensures((t, b), o) ==> o == ((t << 8u64) | (*b as u64)),
    ensures r == le(s@) { unimplemented!() }
// assumed contract of `s.chunks(n).enumerate()`
#[verifier::external_body]
pub fn vx_chunks_enum<'a>(s: &'a [u8], n: usize) -> (r: Vec<(usize, &'a [u8])>)
    requires n > 0,
    ensures n * r.len() >= s@.len(), n * (r.len() - 1) < s@.len() || r.len() == 0,
        forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0 == k && r[k].1@ == s@.subrange(k * n, if (k + 1) * n <= s@.len() { (k + 1) * n } else { s@.len() as int }),
{ unimplemented!() }
// ---- S3TC ----
pub open spec fn c565(v: u16, k: int) -> int {
    if k == 0 { (((v >> 11u16) & 31) as int * 255) / 31 } else if k == 1 { (((v >> 5u16) & 63) as int * 255) / 63 } else { ((v & 31) as int * 255) / 31 }
}
pub open spec fn end0(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8u16) }
pub open spec fn end1(s: Seq<u8>) -> u16 { (s[2] as u16) | ((s[3] as u16) << 8u16) }
pub open spec fn codes(s: Seq<u8>) -> u32 { (s[4] as u32) | ((s[5] as u32) << 8u32) | ((s[6] as u32) << 16u32) | ((s[7] as u32) << 24u32) }
pub open spec fn code(s: Seq<u8>, i: int) -> u32 { (codes(s) >> ((2 * i) as u32)) & 3 }
// colour `c` of the block: end points, two interpolated colours, or (one variant, when ordered so) the mean and black
pub open spec fn colour(s: Seq<u8>, dxt1: bool, c: int, k: int) -> int {
    let (a, b) = (c565(end0(s), k), c565(end1(s), k));
    if c == 0 { a } else if c == 1 { b }
    else if end0(s) > end1(s) || !dxt1 { if c == 2 { (2 * a + b + 1) / 3 } else { (a + 2 * b + 1) / 3 } }
    else if c == 2 { (a + b + 1) / 2 } else { 0 }
}
pub open spec fn alpha5(a0: u8, a1: u8, k: int) -> int {
    if k == 0 { a0 as int } else if k == 1 { a1 as int }
    else if a0 > a1 { ((8 - k) * a0 + (k - 1) * a1) / 7 }
    else if k == 6 { 0 } else if k == 7 { 255 } else { ((6 - k) * a0 + (k - 1) * a1) / 5 }
}
// byte `j` (4 per texel, or 3) of the decoded block, texels in row-major order
pub open spec fn dxt1_byte(s: Seq<u8>, j: int) -> int { colour(s, true, code(s, j / 3) as int, j % 3) }
pub open spec fn dxt3_byte(s: Seq<u8>, j: int) -> int {
    if j % 4 < 3 { colour(s.subrange(8, 16), false, code(s.subrange(8, 16), j / 4) as int, j % 4) }
    else { ((le(s.subrange(0, 8)) >> ((4 * (j / 4)) as u64)) & 15) as int * 17 }
}
pub open spec fn dxt5_byte(s: Seq<u8>, j: int) -> int {
    if j % 4 < 3 { colour(s.subrange(8, 16), false, code(s.subrange(8, 16), j / 4) as int, j % 4) }
    else { alpha5(s[0], s[1], ((le(s.subrange(2, 8)) >> ((3 * (j / 4)) as u64)) & 7) as int) }
}
proof fn lemma_bits()
    ensures forall|x: usize| #[trigger] (x & 3) <= 3, forall|x: usize| #[trigger] (x & 7) <= 7,
        forall|x: u32| #[trigger] ((x as usize) & 3) == (x & 3) as usize, forall|x: u64| #[trigger] ((x as usize) & 7) == (x & 7) as usize,
        forall|x: u64| #[trigger] ((x as u8) & 15) == (x & 15) as u8, forall|x: u64| #[trigger] (x & 15) <= 15, forall|x: u32| #[trigger] (x & 3) <= 3, forall|x: u64| #[trigger] (x & 7) <= 7,
        forall|x: u16| #[trigger] (x & 31) <= 31, forall|x: u16| #[trigger] (x & 63) <= 63, forall|x: u8| #[trigger] (x & 15) <= 15,
{
    assert(forall|x: usize| #[trigger] (x & 3) <= 3) by (bit_vector); assert(forall|x: usize| #[trigger] (x & 7) <= 7) by (bit_vector);
    assert(forall|x: u32| #[trigger] ((x as usize) & 3) == (x & 3) as usize) by (bit_vector);
    assert(forall|x: u64| #[trigger] ((x as usize) & 7) == (x & 7) as usize) by (bit_vector);
    assert(forall|x: u64| #[trigger] ((x as u8) & 15) == (x & 15) as u8) by (bit_vector);
    assert(forall|x: u64| #[trigger] (x & 15) <= 15) by (bit_vector); assert(forall|x: u32| #[trigger] (x & 3) <= 3) by (bit_vector); assert(forall|x: u64| #[trigger] (x & 7) <= 7) by (bit_vector);
    assert(forall|x: u16| #[trigger] (x & 31) <= 31) by (bit_vector); assert(forall|x: u16| #[trigger] (x & 63) <= 63) by (bit_vector); assert(forall|x: u8| #[trigger] (x & 15) <= 15) by (bit_vector);
}
pub type Rgb = [u8; 3];
//@fn src/codecs/dxt.rs enc565_decode ret=res
//@ spec
    ensures res[0] == c565($n0, 0), res[1] == c565($n0, 1), res[2] == c565($n0, 2), forall|k: int| 0 <= k < 3 ==> #[trigger] res[k] == c565($n0, k),
//@ at body.start
    proof { lemma_bits(); }
//@end
//@fn src/codecs/dxt.rs alpha_table_dxt5 ret=res
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures forall|k: int| 0 <= k < 8 ==> #[trigger] res[k] == alpha5($n0, $n1, k),
//@ loop 0 for
    invariant forall|k: int| 0 <= k < 8 ==> #[trigger] table[k] == (if k < $v0 || k < 2 { alpha5($n0, $n1, k) } else if k == 7 { 255 } else { 0 }),
//@ at loop0.start
    proof { let (i, x, y) = ($v0 as int, $n0 as int, $n1 as int);
        assert(0 <= (8 - i) * x <= 6 * 255 && 0 <= (i - 1) * y <= 6 * 255) by (nonlinear_arith) requires 2 <= i < 8, 0 <= x <= 255, 0 <= y <= 255;
        assert((8 - i) * x + (i - 1) * y <= 7 * 255) by (nonlinear_arith) requires 2 <= i < 8, 0 <= x <= 255, 0 <= y <= 255; }
//@ loop 1 for
    invariant forall|k: int| 0 <= k < 8 ==> #[trigger] table[k] == (if k < $v1 || k < 2 { alpha5($n0, $n1, k) } else if k == 7 { 255 } else { 0 }),
//@ at loop1.start
    proof { let (i, x, y) = ($v1 as int, $n0 as int, $n1 as int);
        assert(0 <= (6 - i) * x <= 4 * 255 && 0 <= (i - 1) * y <= 4 * 255) by (nonlinear_arith) requires 2 <= i < 6, 0 <= x <= 255, 0 <= y <= 255;
        assert((6 - i) * x + (i - 1) * y <= 5 * 255) by (nonlinear_arith) requires 2 <= i < 6, 0 <= x <= 255, 0 <= y <= 255; }
//@end
//@fn src/codecs/dxt.rs decode_dxt_colors
//@ panics forbid
//@ slices
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() == 8, old($n1)@.len() == 48 || old($n1)@.len() == 64,
    ensures final($n1)@.len() == old($n1)@.len(),
        old($n1)@.len() == 48 ==> forall|j: int| 0 <= j < 48 ==> #[trigger] final($n1)@[j] == colour($n0@, $n2, code($n0@, j / 3) as int, j % 3),
        old($n1)@.len() == 64 ==> forall|j: int| 0 <= j < 64 ==> #[trigger] final($n1)@[j] == (if j % 4 < 3 { colour($n0@, $n2, code($n0@, j / 4) as int, j % 4) } else { old($n1)@[j] as int }),
//@ at body.start
    proof { lemma_bits(); }
//@ loop 0 for
    invariant forall|k: int| 0 <= k < 3 ==> #[trigger] colors[0][k] == c565(color0, k), forall|k: int| 0 <= k < 3 ==> #[trigger] colors[1][k] == c565(color1, k),
        forall|k: int| 0 <= k < $v0 ==> #[trigger] colors[2][k] == (2 * c565(color0, k) + c565(color1, k) + 1) / 3,
        forall|k: int| 0 <= k < $v0 ==> #[trigger] colors[3][k] == (c565(color0, k) + 2 * c565(color1, k) + 1) / 3,
//@ loop 1 for
    invariant forall|k: int| 0 <= k < 3 ==> #[trigger] colors[0][k] == c565(color0, k), forall|k: int| 0 <= k < 3 ==> #[trigger] colors[1][k] == c565(color1, k),
        forall|k: int| 0 <= k < $v1 ==> #[trigger] colors[2][k] == (c565(color0, k) + c565(color1, k) + 1) / 2,
        forall|k: int| 0 <= k < 3 ==> #[trigger] colors[3][k] == 0,
//@ loop 2 for
    invariant dest@.len() == old($n1)@.len(), dest@.len() == 16 * pitch, pitch == 3 || pitch == 4,
        forall|c: int, k: int| 0 <= c < 4 && 0 <= k < 3 ==> #[trigger] colors[c][k] == colour($n0@, $n2, c, k),
        pitch == 3 ==> forall|j: int| 0 <= j < 48 ==> #[trigger] dest@[j] == (if j / 3 < $v2 && j % 3 < 3 { colour($n0@, $n2, code($n0@, j / 3) as int, j % 3) } else { old($n1)@[j] as int }),
        pitch == 4 ==> forall|j: int| 0 <= j < 64 ==> #[trigger] dest@[j] == (if j / 4 < $v2 && j % 4 < 3 { colour($n0@, $n2, code($n0@, j / 4) as int, j % 4) } else { old($n1)@[j] as int }),
//@ at loop2.start
    proof {
        assert($v2 * pitch == if pitch == 3 { 3 * $v2 } else { 4 * $v2 }) by (nonlinear_arith) requires pitch == 3 || pitch == 4;
        assert(code($n0@, $v2 as int) == (color_table >> ((2 * $v2) as u32)) & 3);
        assert(color_table >> (($v2 * 2) as usize) == color_table >> ((2 * $v2) as u32));
    }
//@end
//@fn src/codecs/dxt.rs decode_dxt3_block
//@ panics forbid
//@ subst? `source[0..8].iter().rev().fold(0, |t, &b| $A)` => `vx_rev_fold(vx_idx(&source, 0, 8), 0, |t: u64, bb: &u8| -> (cr: u64) ensures cr == ((t << 8u64) | (*bb as u64)) { let b = *bb; $A })`
//@ slices
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() == 16, old($n1)@.len() == 64,
    ensures final($n1)@.len() == 64, forall|j: int| 0 <= j < 64 ==> #[trigger] final($n1)@[j] == dxt3_byte($n0@, j),
//@ at body.start
    proof { lemma_bits(); assert($n0@.subrange(0, 8).len() == 8); }
//@ loop 0 for
    invariant dest@.len() == 64, forall|j: int| 0 <= j < 64 && j % 4 == 3 && j / 4 < $v0 ==> #[trigger] dest@[j] == dxt3_byte($n0@, j),
//@ at loop0.start
    proof { assert(alpha_table >> (($v0 * 4) as usize) == alpha_table >> ((4 * $v0) as u64)); }
//@end
//@fn src/codecs/dxt.rs decode_dxt5_block
//@ panics forbid
//@ subst? `source[2..8].iter().rev().fold(0, |t, &b| $A)` => `vx_rev_fold(vx_idx(&source, 2, 8), 0, |t: u64, bb: &u8| -> (cr: u64) ensures cr == ((t << 8u64) | (*bb as u64)) { let b = *bb; $A })`
//@ slices
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() == 16, old($n1)@.len() == 64,
    ensures final($n1)@.len() == 64, forall|j: int| 0 <= j < 64 ==> #[trigger] final($n1)@[j] == dxt5_byte($n0@, j),
//@ at body.start
    proof { lemma_bits(); assert($n0@.subrange(2, 8).len() == 6); }
//@ loop 0 for
    invariant dest@.len() == 64, forall|j: int| 0 <= j < 64 && j % 4 == 3 && j / 4 < $v0 ==> #[trigger] dest@[j] == dxt5_byte($n0@, j),
//@ at loop0.start
    proof { assert(alpha_table >> (($v0 * 3) as usize) == alpha_table >> ((3 * $v0) as u64)); }
//@end
//@fn src/codecs/dxt.rs decode_dxt1_block
//@ panics forbid
//@ spec
    requires $n0@.len() == 8, old($n1)@.len() == 48,
    ensures final($n1)@.len() == 48, forall|j: int| 0 <= j < 48 ==> #[trigger] final($n1)@[j] == dxt1_byte($n0@, j),
//@end
// the segment of block (x, l) holds byte j of another block's segment only if they are the same
proof fn lemma_place(bc: int, x: int, l: int, j: int, xx: int, ll: int, w: int)
    requires 0 <= x < bc, 0 <= l < 4, 0 <= j < w, 0 <= xx < bc, 0 <= ll < 4
    ensures 0 <= (bc * l + x) * w + j < bc * 4 * w, (x, l) == (xx, ll) ==> (bc * l + x) * w + j - (bc * ll + xx) * w == j,
        (x, l) != (xx, ll) ==> !((bc * ll + xx) * w <= (bc * l + x) * w + j < (bc * ll + xx) * w + w)
{
    let p = bc * l + x; let q = bc * ll + xx;
    assert(0 <= p < bc * 4) by (nonlinear_arith) requires p == bc * l + x, 0 <= x < bc, 0 <= l < 4;
    assert(p * w >= 0 && p * w + w <= bc * 4 * w) by (nonlinear_arith) requires 0 <= p < bc * 4, w >= 1;
    if (x, l) != (xx, ll) {
        if l == ll { } else if l < ll { assert(p < q) by (nonlinear_arith) requires p == bc * l + x, q == bc * ll + xx, l < ll, x < bc, xx >= 0, bc > 0; }
        else { assert(q < p) by (nonlinear_arith) requires p == bc * l + x, q == bc * ll + xx, ll < l, xx < bc, x >= 0, bc > 0; }
        if p < q { assert(p * w + w <= q * w) by (nonlinear_arith) requires p + 1 <= q, w >= 1; }
        if q < p { assert(q * w + w <= p * w) by (nonlinear_arith) requires q + 1 <= p, w >= 1; }
    }
}
pub open spec fn dxt1_row_ok(s: Seq<u8>, o: Seq<u8>, bc: int, x: int, l: int, j: int) -> bool { o[(bc * l + x) * 12 + j] == dxt1_byte(s.subrange(x * 8, x * 8 + 8), l * 12 + j) }
//@fn src/codecs/dxt.rs decode_dxt1_row
//@ panics forbid
//@ slices own=decoded_block
//@ subst? `decode_dxt1_block(encoded_block, &mut decoded_block)` => `decode_dxt1_block(encoded_block, vx_all_mut(&mut decoded_block))`
//@ forvec 0 `source.chunks(8).enumerate()` => `vx_chunks_enum(source, 8)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() % 8 == 0, old($n1)@.len() >= ($n0@.len() / 8) * 48,
    ensures final($n1)@.len() == old($n1)@.len(),
        // block x decodes into columns 4x..4x+3 of the four lines
        forall|x: int, l: int, j: int| 0 <= x < $n0@.len() / 8 && 0 <= l < 4 && 0 <= j < 12 ==> #[trigger] dxt1_row_ok($n0@, final($n1)@, $n0@.len() as int / 8, x, l, j),
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), vxi0.len() == block_count, dest@.len() == old($n1)@.len(), decoded_block@.len() == 48, $n0@.len() == 8 * block_count,
        forall|k: int| 0 <= k < vxi0.len() ==> (#[trigger] vxi0[k]).0 == k && vxi0[k].1@ == $n0@.subrange(k * 8, k * 8 + 8),
        forall|x: int, l: int, j: int| 0 <= x < vxk0 && 0 <= l < 4 && 0 <= j < 12 ==> #[trigger] dxt1_row_ok($n0@, dest@, block_count as int, x, l, j),
    decreases vxi0.len() - vxk0,
//@ loop 1 for
    invariant dest@.len() == old($n1)@.len(), decoded_block@.len() == 48, vxk0 >= 1, vxk0 <= block_count,
        forall|j: int| 0 <= j < 48 ==> #[trigger] decoded_block@[j] == dxt1_byte($n0@.subrange((vxk0 - 1) * 8, (vxk0 - 1) * 8 + 8), j),
        forall|x: int, l: int, j: int| ((0 <= x < vxk0 - 1 && 0 <= l < 4) || (x == vxk0 - 1 && 0 <= l < $v1)) && 0 <= j < 12 ==> #[trigger] dxt1_row_ok($n0@, dest@, block_count as int, x, l, j),
//@ at loop1.start
    let ghost before = dest@;
    proof { assert(0 <= (block_count * $v1 + (vxk0 - 1)) * 12 && (block_count * $v1 + (vxk0 - 1)) * 12 + 12 <= block_count * 48 && 0 <= block_count * $v1 <= block_count * 4) by (nonlinear_arith) requires 0 <= $v1 < 4, 1 <= vxk0 <= block_count; }
//@ at loop1.end
    proof {
        let bc = block_count as int; let xx = vxk0 - 1; let ll = $v1 as int;
        assert forall|x: int, l: int, j: int| ((0 <= x < xx && 0 <= l < 4) || (x == xx && 0 <= l < ll + 1)) && 0 <= j < 12 implies #[trigger] dxt1_row_ok($n0@, dest@, bc, x, l, j) by {
            lemma_place(bc, x, l, j, xx, ll, 12);
            if !(x == xx && l == ll) { assert(dxt1_row_ok($n0@, before, bc, x, l, j)); assert(dest@[(bc * l + x) * 12 + j] == before[(bc * l + x) * 12 + j]); }
        }
    }
//@end
pub open spec fn dxt3_row_ok(s: Seq<u8>, o: Seq<u8>, bc: int, x: int, l: int, j: int) -> bool { o[(bc * l + x) * 16 + j] == dxt3_byte(s.subrange(x * 16, x * 16 + 16), l * 16 + j) }
//@fn src/codecs/dxt.rs decode_dxt3_row
//@ panics forbid
//@ slices own=decoded_block
//@ subst? `decode_dxt3_block(encoded_block, &mut decoded_block)` => `decode_dxt3_block(encoded_block, vx_all_mut(&mut decoded_block))`
//@ forvec 0 `source.chunks(16).enumerate()` => `vx_chunks_enum(source, 16)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() % 16 == 0, old($n1)@.len() >= ($n0@.len() / 16) * 64,
    ensures final($n1)@.len() == old($n1)@.len(),
        // block x decodes into columns 4x..4x+3 of the four lines
        forall|x: int, l: int, j: int| 0 <= x < $n0@.len() / 16 && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt3_row_ok($n0@, final($n1)@, $n0@.len() as int / 16, x, l, j),
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), vxi0.len() == block_count, dest@.len() == old($n1)@.len(), decoded_block@.len() == 64, $n0@.len() == 16 * block_count,
        forall|k: int| 0 <= k < vxi0.len() ==> (#[trigger] vxi0[k]).0 == k && vxi0[k].1@ == $n0@.subrange(k * 16, k * 16 + 16),
        forall|x: int, l: int, j: int| 0 <= x < vxk0 && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt3_row_ok($n0@, dest@, block_count as int, x, l, j),
    decreases vxi0.len() - vxk0,
//@ loop 1 for
    invariant dest@.len() == old($n1)@.len(), decoded_block@.len() == 64, vxk0 >= 1, vxk0 <= block_count,
        forall|j: int| 0 <= j < 64 ==> #[trigger] decoded_block@[j] == dxt3_byte($n0@.subrange((vxk0 - 1) * 16, (vxk0 - 1) * 16 + 16), j),
        forall|x: int, l: int, j: int| ((0 <= x < vxk0 - 1 && 0 <= l < 4) || (x == vxk0 - 1 && 0 <= l < $v1)) && 0 <= j < 16 ==> #[trigger] dxt3_row_ok($n0@, dest@, block_count as int, x, l, j),
//@ at loop1.start
    let ghost before = dest@;
    proof { assert(0 <= (block_count * $v1 + (vxk0 - 1)) * 16 && (block_count * $v1 + (vxk0 - 1)) * 16 + 16 <= block_count * 64 && 0 <= block_count * $v1 <= block_count * 4) by (nonlinear_arith) requires 0 <= $v1 < 4, 1 <= vxk0 <= block_count; }
//@ at loop1.end
    proof {
        let bc = block_count as int; let xx = vxk0 - 1; let ll = $v1 as int;
        assert forall|x: int, l: int, j: int| ((0 <= x < xx && 0 <= l < 4) || (x == xx && 0 <= l < ll + 1)) && 0 <= j < 16 implies #[trigger] dxt3_row_ok($n0@, dest@, bc, x, l, j) by {
            lemma_place(bc, x, l, j, xx, ll, 16);
            if !(x == xx && l == ll) { assert(dxt3_row_ok($n0@, before, bc, x, l, j)); assert(dest@[(bc * l + x) * 16 + j] == before[(bc * l + x) * 16 + j]); }
        }
    }
//@end
pub open spec fn dxt5_row_ok(s: Seq<u8>, o: Seq<u8>, bc: int, x: int, l: int, j: int) -> bool { o[(bc * l + x) * 16 + j] == dxt5_byte(s.subrange(x * 16, x * 16 + 16), l * 16 + j) }
//@fn src/codecs/dxt.rs decode_dxt5_row
//@ panics forbid
//@ slices own=decoded_block
//@ subst? `decode_dxt5_block(encoded_block, &mut decoded_block)` => `decode_dxt5_block(encoded_block, vx_all_mut(&mut decoded_block))`
//@ forvec 0 `source.chunks(16).enumerate()` => `vx_chunks_enum(source, 16)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() % 16 == 0, old($n1)@.len() >= ($n0@.len() / 16) * 64,
    ensures final($n1)@.len() == old($n1)@.len(),
        // block x decodes into columns 4x..4x+3 of the four lines
        forall|x: int, l: int, j: int| 0 <= x < $n0@.len() / 16 && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt5_row_ok($n0@, final($n1)@, $n0@.len() as int / 16, x, l, j),
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), vxi0.len() == block_count, dest@.len() == old($n1)@.len(), decoded_block@.len() == 64, $n0@.len() == 16 * block_count,
        forall|k: int| 0 <= k < vxi0.len() ==> (#[trigger] vxi0[k]).0 == k && vxi0[k].1@ == $n0@.subrange(k * 16, k * 16 + 16),
        forall|x: int, l: int, j: int| 0 <= x < vxk0 && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt5_row_ok($n0@, dest@, block_count as int, x, l, j),
    decreases vxi0.len() - vxk0,
//@ loop 1 for
    invariant dest@.len() == old($n1)@.len(), decoded_block@.len() == 64, vxk0 >= 1, vxk0 <= block_count,
        forall|j: int| 0 <= j < 64 ==> #[trigger] decoded_block@[j] == dxt5_byte($n0@.subrange((vxk0 - 1) * 16, (vxk0 - 1) * 16 + 16), j),
        forall|x: int, l: int, j: int| ((0 <= x < vxk0 - 1 && 0 <= l < 4) || (x == vxk0 - 1 && 0 <= l < $v1)) && 0 <= j < 16 ==> #[trigger] dxt5_row_ok($n0@, dest@, block_count as int, x, l, j),
//@ at loop1.start
    let ghost before = dest@;
    proof { assert(0 <= (block_count * $v1 + (vxk0 - 1)) * 16 && (block_count * $v1 + (vxk0 - 1)) * 16 + 16 <= block_count * 64 && 0 <= block_count * $v1 <= block_count * 4) by (nonlinear_arith) requires 0 <= $v1 < 4, 1 <= vxk0 <= block_count; }
//@ at loop1.end
    proof {
        let bc = block_count as int; let xx = vxk0 - 1; let ll = $v1 as int;
        assert forall|x: int, l: int, j: int| ((0 <= x < xx && 0 <= l < 4) || (x == xx && 0 <= l < ll + 1)) && 0 <= j < 16 implies #[trigger] dxt5_row_ok($n0@, dest@, bc, x, l, j) by {
            lemma_place(bc, x, l, j, xx, ll, 16);
            if !(x == xx && l == ll) { assert(dxt5_row_ok($n0@, before, bc, x, l, j)); assert(dest@[(bc * l + x) * 16 + j] == before[(bc * l + x) * 16 + j]); }
        }
    }
//@end
// ---- the decoder ----
#[derive(Debug)]
pub enum ImageError { Parameter, IoError, Other }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
//@include colortypes.vrs
//@item src/codecs/dxt.rs enum DxtVariant vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
//@item src/codecs/dxt.rs struct DxtDecoder vis=pub
impl DxtVariant {
    pub open spec fn dec(self) -> int { match self { DxtVariant::DXT1 => 48, _ => 64 } }
    pub open spec fn enc(self) -> int { match self { DxtVariant::DXT1 => 8, _ => 16 } }
    pub open spec fn byte(self, s: Seq<u8>, j: int) -> int { match self { DxtVariant::DXT1 => dxt1_byte(s, j), DxtVariant::DXT3 => dxt3_byte(s, j), DxtVariant::DXT5 => dxt5_byte(s, j) } }
//@fn src/codecs/dxt.rs decoded_bytes_per_block ctx="impl DxtVariant" ret=res
//@ spec
    ensures res == self.dec(),
//@end
//@fn src/codecs/dxt.rs encoded_bytes_per_block ctx="impl DxtVariant" ret=res
//@ spec
    ensures res == self.enc(),
//@end
//@fn src/codecs/dxt.rs color_type ctx="impl DxtVariant" ret=res
//@ spec
    ensures res == (match self { DxtVariant::DXT1 => ColorType::Rgb8, _ => ColorType::Rgba8 }),
//@end
}
// byte j of line l (0..4) of the row of blocks stored in `s`
pub open spec fn row_byte(v: DxtVariant, s: Seq<u8>, l: int, x: int) -> int { let w = v.dec() / 4; v.byte(s.subrange((x / w) * v.enc(), (x / w) * v.enc() + v.enc()), l * w + x % w) }
pub open spec fn row_done(v: DxtVariant, wb: int, s: Seq<u8>, o: Seq<u8>) -> bool { forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < v.dec() / 4 ==> #[trigger] texel_at(v, wb, s, o, x, l, j) }
pub open spec fn texel_at(v: DxtVariant, wb: int, s: Seq<u8>, o: Seq<u8>, x: int, l: int, j: int) -> bool { let w = v.dec() / 4; o[(wb * l + x) * w + j] == v.byte(s.subrange(x * v.enc(), x * v.enc() + v.enc()), l * w + j) }
proof fn lemma_row_done(v: DxtVariant, wb: int, s: Seq<u8>, o: Seq<u8>)
    requires match v {
        DxtVariant::DXT1 => forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < 12 ==> #[trigger] dxt1_row_ok(s, o, wb, x, l, j),
        DxtVariant::DXT3 => forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt3_row_ok(s, o, wb, x, l, j),
        DxtVariant::DXT5 => forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt5_row_ok(s, o, wb, x, l, j) }
    ensures row_done(v, wb, s, o)
{
    assert forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < v.dec() / 4 implies #[trigger] texel_at(v, wb, s, o, x, l, j) by {
        match v { DxtVariant::DXT1 => { assert(dxt1_row_ok(s, o, wb, x, l, j)); } DxtVariant::DXT3 => { assert(dxt3_row_ok(s, o, wb, x, l, j)); } DxtVariant::DXT5 => { assert(dxt5_row_ok(s, o, wb, x, l, j)); } }
    }
}
impl<R: Read> DxtDecoder<R> {
    pub closed spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
    pub closed spec fn wb(&self) -> int { self.width_blocks as int }
    pub closed spec fn hb(&self) -> int { self.height_blocks as int }
    pub closed spec fn var(&self) -> DxtVariant { self.variant }
    pub closed spec fn rows(&self) -> int { self.row as int }
    pub open spec fn wf(&self) -> bool { 0 <= self.wb() <= 0x3fff_ffff && 0 <= self.hb() <= 0x3fff_ffff }
//@fn src/codecs/dxt.rs new ctx="impl < R : Read > DxtDecoder" ret=res vis=pub
//@ subst? `Err(ImageError::Parameter(ParameterError::from_kind(ParameterErrorKind::DimensionMismatch,)))` => `Err(ImageError::Parameter)`
//@ spec
    // dimensions that are not multiples of the block size are refused
    ensures res.is_ok() <==> $n1 % 4 == 0 && $n2 % 4 == 0,
        res matches Ok(d) ==> d.wf() && 4 * d.wb() == $n1 && 4 * d.hb() == $n2 && d.var() == $n3 && d.rest() == $n0.rest() && d.rows() == 0,
//@end
//@fn src/codecs/dxt.rs scanline_bytes ctx="impl < R : Read > DxtDecoder" ret=res
//@ spec
    requires self.wf(),
    ensures res == self.var().dec() * self.wb(), res <= 64 * 0x3fff_ffff,
//@ at body.start
    proof { assert(self.var().dec() * self.wb() <= 64 * 0x3fff_ffff && self.var().dec() * self.wb() >= 0) by (nonlinear_arith) requires 48 <= self.var().dec() <= 64, 0 <= self.wb() <= 0x3fff_ffff; }
//@end
//@fn src/codecs/dxt.rs color_type ctx="ImageDecoder for DxtDecoder" ret=res vis=pub
//@ spec
    ensures res == if self.var() is DXT1 { ColorType::Rgb8 } else { ColorType::Rgba8 },
//@end
//@fn src/codecs/dxt.rs dimensions ctx="ImageDecoder for DxtDecoder" ret=res vis=pub
//@ spec
    requires self.wf(), ensures res.0 == 4 * self.wb(), res.1 == 4 * self.hb(),
//@end
//@fn src/codecs/dxt.rs read_scanline ctx="impl < R : Read > DxtDecoder" ret=res
//@ panics forbid
//@ subst? `(u64::try_from(buf.len())) == (Ok(self.scanline_bytes()))` => `buf.len() as u64 == self.scanline_bytes()`
//@ subst? `self.inner.read_exact(&mut src)?;` => `self.inner.read_exact(vx_all_mut(&mut src))?;`
//@ spec
    requires old(self).wf(), old($n0)@.len() == old(self).var().dec() * old(self).wb(), old(self).rows() < 0xffff_ffff,
    ensures final($n0)@.len() == old($n0)@.len(), res.is_ok() <==> old(self).rest().len() >= old(self).var().enc() * old(self).wb(),
        final(self).wf(), final(self).wb() == old(self).wb(), final(self).hb() == old(self).hb(), final(self).var() == old(self).var(),
        res.is_ok() ==> final(self).rest() == old(self).rest().skip(old(self).var().enc() * old(self).wb()) && final(self).rows() == old(self).rows() + 1
            && row_done(old(self).var(), old(self).wb(), old(self).rest().subrange(0, old(self).var().enc() * old(self).wb()), final($n0)@),
//@ at body.start
    proof {
        assert(0 <= self.var().enc() * self.wb() <= 16 * 0x3fff_ffff) by (nonlinear_arith) requires 8 <= self.var().enc() <= 16, 0 <= self.wb() <= 0x3fff_ffff;
        let (v, wb) = (self.var(), self.wb());
        assert(v.enc() * wb % v.enc() == 0 && v.enc() * wb / v.enc() == wb) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v.enc() * wb, v.enc(), wb, 0); }
        assert forall|s: Seq<u8>, o: Seq<u8>| (match v {
            DxtVariant::DXT1 => forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < 12 ==> #[trigger] dxt1_row_ok(s, o, wb, x, l, j),
            DxtVariant::DXT3 => forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt3_row_ok(s, o, wb, x, l, j),
            DxtVariant::DXT5 => forall|x: int, l: int, j: int| 0 <= x < wb && 0 <= l < 4 && 0 <= j < 16 ==> #[trigger] dxt5_row_ok(s, o, wb, x, l, j) }) implies #[trigger] row_done(v, wb, s, o) by { lemma_row_done(v, wb, s, o); }
    }
//@end
//@fn src/codecs/dxt.rs read_image ctx="ImageDecoder for DxtDecoder" ret=res
//@ panics forbid
//@ subst? `(u64::try_from(buf.len())) == (Ok(self.total_bytes()))` => `buf.len() as u64 == total`
//@ sigsubst `mut self` => `self, total: u64`
//@ subst `for chunk in buf.chunks_mut($E) {$A}` => `let ghost s0 = self; let vxn: usize = $E; let mut this = self; let mut vxk: usize = 0; while vxk < buf.len() { let vxe = if buf.len() - vxk < vxn { buf.len() } else { vxk + vxn }; let chunk = vx_slice_mut(buf, vxk, vxe); $A let ghost done = chunk@; vxk = vxe; }`
//@ subst? `self.scanline_bytes().max(1)` => `core::cmp::max(self.scanline_bytes(), 1)`
//@ subst? `self.read_scanline(chunk)?` => `this.read_scanline(chunk)?`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), self.rows() == 0, total == old($n0)@.len(), total == self.var().dec() * self.wb() * self.hb(),
    ensures final($n0)@.len() == old($n0)@.len(),
        res.is_ok() ==> forall|r: int| 0 <= r < self.hb() && self.wb() > 0 ==> #[trigger] image_row(self, self.rest(), final($n0)@, r),
        // fails only when the blocks are cut short
        self.rest().len() >= self.var().enc() * self.wb() * self.hb() ==> res.is_ok(),
//@ loop 0 while
    invariant this.wf(), this.wb() == s0.wb(), this.hb() == s0.hb(), this.var() == s0.var(), buf@.len() == old($n0)@.len(), vxk <= buf@.len(),
        this.wb() > 0 ==> vxn == this.var().dec() * this.wb() && 0 <= this.rows() <= this.hb() && vxk == this.rows() * vxn && buf@.len() == this.hb() * vxn && vxn >= 48,
        this.wb() == 0 ==> buf@.len() == 0,
        this.rows() * (this.var().enc() * this.wb()) <= s0.rest().len(), this.rows() >= 0,
        this.rest() == s0.rest().skip(this.rows() * (this.var().enc() * this.wb())),
        forall|r: int| 0 <= r < this.rows() && s0.wb() > 0 ==> #[trigger] image_row(s0, s0.rest(), buf@, r),
    decreases buf.len() - vxk,
//@ at loop0.start
    let ghost (before, k, v, wb, hb, src) = (buf@, this.rows(), this.var(), this.wb(), this.hb(), s0.rest());
    let ghost (e, n) = (v.enc() * wb, v.dec() * wb);
    proof {
        assert(k < hb) by (nonlinear_arith) requires k * n < hb * n, n > 0;
        assert(k * n + n <= hb * n) by (nonlinear_arith) requires k < hb, n > 0;
        assert((k + 1) * n == k * n + n) by (nonlinear_arith);
        assert((k + 1) * e == k * e + e) by (nonlinear_arith);
        assert(e > 0) by (nonlinear_arith) requires e == v.enc() * wb, v.enc() >= 8, wb > 0;
        if src.len() >= v.enc() * wb * hb { assert(e * hb >= k * e + e) by (nonlinear_arith) requires k + 1 <= hb, e > 0; }
    }
//@ at loop0.end
    proof {
        assert(src.skip(k * e).skip(e) =~= src.skip((k + 1) * e));
        assert(src.skip(k * e).subrange(0, e) =~= src.subrange(k * e, k * e + e));
        assert forall|r: int| 0 <= r < k + 1 && s0.wb() > 0 implies #[trigger] image_row(s0, src, buf@, r) by {
            if r < k {
                assert(image_row(s0, src, before, r));
                assert(r * n + n <= k * n && r * n >= 0) by (nonlinear_arith) requires 0 <= r, r + 1 <= k, n > 0;
                assert(buf@.subrange(r * n, r * n + n) =~= before.subrange(r * n, r * n + n));
            } else { assert(buf@.subrange(r * n, r * n + n) =~= done); assert(row_done(v, wb, src.subrange(r * e, r * e + e), done)); }
        }
    }
//@ at loop0.before
    proof {
        let (n, e) = (this.var().dec() * this.wb(), this.var().enc() * this.wb());
        assert(this.wb() > 0 ==> n >= 48) by (nonlinear_arith) requires n == this.var().dec() * this.wb(), this.var().dec() >= 48;
        assert(this.wb() == 0 ==> n == 0) by (nonlinear_arith) requires n == this.var().dec() * this.wb();
        assert(n * this.hb() == this.hb() * n) by (nonlinear_arith);
        assert(0 * this.hb() == 0 && 0 * n == 0 && 0 * e == 0);
        assert(s0.rest().skip(0) =~= s0.rest());
    }
//@ at loop0.after
    proof { let n = s0.var().dec() * s0.wb(); if s0.wb() > 0 { assert(this.rows() == this.hb()) by (nonlinear_arith) requires this.rows() * n == this.hb() * n, n > 0; } }
//@end
}
// the row of blocks r, decoded, fills the four lines from 4r
pub open spec fn image_row<R: Read>(d: DxtDecoder<R>, src: Seq<u8>, o: Seq<u8>, r: int) -> bool {
    let e = d.var().enc() * d.wb(); let n = d.var().dec() * d.wb();
    row_done(d.var(), d.wb(), src.subrange(r * e, r * e + e), o.subrange(r * n, r * n + n))
}

// ---- the DDS container ----
//@item src/codecs/dds.rs enum DecoderError vis=pub
impl From<DecoderError> for ImageError { #[verifier::external_body] fn from(e: DecoderError) -> ImageError { ImageError::Other } }
//@item src/codecs/dds.rs struct PixelFormat vis=pub
//@item src/codecs/dds.rs struct Header vis=pub
//@item src/codecs/dds.rs struct DX10Header vis=pub
//@item src/codecs/dds.rs struct DdsDecoder vis=pub
// `r.read_exact(&mut buf)` for an array
#[verifier::external_body]
pub fn vx_read1<R: Read, const N: usize>(r: &mut R, buf: &mut [u8; N]) -> (x: IoResult<()>)
    ensures x.is_ok() <==> old(r).rest().len() >= N, x.is_ok() ==> final(buf)@ == old(r).rest().subrange(0, N as int) && final(r).rest() == old(r).rest().skip(N as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_eq<const N: usize, const M: usize>(a: &[u8; N], b: &[u8; M]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl PixelFormat { closed spec fn is(&self, s: Seq<u8>) -> bool { self.flags == v32(s, 4, true) && self.fourcc@ == s.subrange(8, 12) } }
impl PixelFormat {
//@fn src/codecs/dds.rs from_reader ctx="impl PixelFormat" ret=res
//@ sigsubst `from_reader` => `from_reader<R: Read>`
//@ sigsubst `&mut dyn Read` => `&mut R`
//@ subst? `r.read_exact(&mut v)?` => `vx_read1(r, &mut v)?`
//@ spec
    ensures res matches Ok(p) ==> old($n0).rest().len() >= 32 && v32(old($n0).rest(), 0, true) == 32 && p.is(old($n0).rest()) && final($n0).rest() == old($n0).rest().skip(32),
        old($n0).rest().len() >= 32 && v32(old($n0).rest(), 0, true) == 32 ==> res.is_ok(),
//@ at body.start
    let ghost s = $n0.rest();
    proof { assert forall|a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
        assert(s.len() >= 12 ==> s.skip(8).subrange(0, 4) =~= s.subrange(8, 12)); }
//@end
}
// the flags a texture must and may carry
pub open spec fn dds_flags(f: u32) -> bool { f & 0xff75_eff0 == 0 && f & 0x1007 == 0x1007 }
pub open spec fn dds_header_ok(s: Seq<u8>) -> bool { s.len() >= 124 && v32(s, 0, true) == 124 && dds_flags(v32(s, 4, true) as u32) && v32(s, 72, true) == 32 }
impl Header {
    closed spec fn is(&self, s: Seq<u8>) -> bool { self.height == v32(s, 8, true) && self.width == v32(s, 12, true) && self.pixel_format.is(s.skip(72)) }
//@fn src/codecs/dds.rs from_reader ctx="impl Header" ret=res
//@ sigsubst `from_reader` => `from_reader<R: Read>`
//@ sigsubst `&mut dyn Read` => `&mut R`
//@ subst? `r.read_exact(&mut skipped)?` => `vx_read1(r, &mut skipped)?`
//@ subst? `const REQUIRED_FLAGS: u32 =` => `let REQUIRED_FLAGS: u32 =`
//@ subst? `const VALID_FLAGS: u32 =` => `let VALID_FLAGS: u32 =`
//@ spec
    ensures res matches Ok(h) ==> dds_header_ok(old($n0).rest()) && h.is(old($n0).rest()) && final($n0).rest() == old($n0).rest().skip(124),
        dds_header_ok(old($n0).rest()) ==> res.is_ok(),
//@ at body.start
    let ghost s = $n0.rest();
    proof { assert forall|a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); } }
    proof {
        assert(0x1u32 | 0x2 | 0x4 | 0x1000 == 0x1007) by (bit_vector); assert(0x1u32 | 0x2 | 0x4 | 0x8 | 0x1000 | 0x20000 | 0x80000 | 0x0080_0000 == 0x008a_100f) by (bit_vector);
        assert(!0x008a_100fu32 == 0xff75_eff0) by (bit_vector); assert(0x1007u32 | 0xff75_eff0 == 0xff75_fff7) by (bit_vector);
        assert forall|f: u32| (#[trigger] (f & 0xff75_fff7) == 0x1007) <==> dds_flags(f) by { assert((f & 0xff75_fff7) == 0x1007 <==> (f & 0xff75_eff0 == 0 && f & 0x1007 == 0x1007)) by (bit_vector); }
    }
//@end
}
pub open spec fn dx10_ok(s: Seq<u8>) -> bool {
    s.len() >= 20 && v32(s, 0, true) <= 132 && 2 <= v32(s, 4, true) <= 4 && (v32(s, 8, true) == 0 || v32(s, 8, true) == 4) && (v32(s, 4, true) == 4 ==> v32(s, 12, true) == 1) && v32(s, 16, true) <= 4
}
impl DX10Header {
    closed spec fn valid(&self) -> bool { self.dxgi_format <= 132 && 2 <= self.resource_dimension <= 4 && (self.misc_flag == 0 || self.misc_flag == 4) && (self.resource_dimension == 4 ==> self.array_size == 1) && self.misc_flags_2 <= 4 }
//@fn src/codecs/dds.rs validate ctx="impl DX10Header" ret=res
//@ spec
    ensures res.is_ok() <==> self.valid(),
//@end
//@fn src/codecs/dds.rs from_reader ctx="impl DX10Header" ret=res
//@ sigsubst `from_reader` => `from_reader<R: Read>`
//@ sigsubst `&mut dyn Read` => `&mut R`
//@ spec
    ensures res matches Ok(h) ==> dx10_ok(old($n0).rest()) && h.dxgi_format == v32(old($n0).rest(), 0, true) && final($n0).rest() == old($n0).rest().skip(20),
        dx10_ok(old($n0).rest()) ==> res.is_ok(),
//@ at body.start
    let ghost s = $n0.rest();
    proof { assert forall|a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); } }
//@end
}
// the variant a file declares: by its four character code, or by the DXGI format of the extended header
pub open spec fn dds_variant(s: Seq<u8>) -> Option<DxtVariant> {
    let cc = s.subrange(84, 88);
    if cc == seq![68u8, 88u8, 84u8, 49u8] { Some(DxtVariant::DXT1) } else if cc == seq![68u8, 88u8, 84u8, 51u8] { Some(DxtVariant::DXT3) } else if cc == seq![68u8, 88u8, 84u8, 53u8] { Some(DxtVariant::DXT5) }
    else if is_dx10(s) && dx10_ok(s.skip(128)) { let f = v32(s, 128, true); if 70 <= f <= 72 { Some(DxtVariant::DXT1) } else if 73 <= f <= 75 { Some(DxtVariant::DXT3) } else if 76 <= f <= 78 { Some(DxtVariant::DXT5) } else { None } }
    else { None }
}
pub open spec fn is_dx10(s: Seq<u8>) -> bool { s.subrange(84, 88) == seq![68u8, 88u8, 49u8, 48u8] }
pub open spec fn dds_blocks(s: Seq<u8>) -> Seq<u8> { s.skip(if is_dx10(s) { 148 } else { 128 }) }
// a compressed texture of one of the three variants with dimensions in whole blocks
pub open spec fn dds_ok(s: Seq<u8>) -> bool {
    s.len() >= 128 && s.subrange(0, 4) == seq![68u8, 68u8, 83u8, 32u8] && dds_header_ok(s.skip(4)) && (v32(s, 80, true) as u32) & 4 != 0 && dds_variant(s).is_some()
        && v32(s, 16, true) % 4 == 0 && v32(s, 12, true) % 4 == 0
}
//@fn src/utils/mod.rs check_dimension_overflow ret=res vis=pub
//@ spec
    requires $n2 > 0, ensures $n2 <= 16 ==> (res <==> $n0 * $n1 * $n2 > u64::MAX),
//@ at body.start
    proof { assert($n0 * $n1 <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires $n0 <= 0xffff_ffff, $n1 <= 0xffff_ffff;
        let (p, n, m) = ($n0 * $n1, $n2 as int, u64::MAX as int);
        assert(p > m / n <==> p * n > m) by (nonlinear_arith) requires n > 0, p >= 0, m >= 0; }
//@end
impl<R: Read> DdsDecoder<R> {
    pub closed spec fn d(&self) -> DxtDecoder<R> { self.inner }
//@fn src/codecs/dds.rs new ctx="impl < R : Read > DdsDecoder" ret=res vis=pub
//@ arraymatch
//@ subst? `r.read_exact(&mut magic)?` => `vx_read1(&mut r, &mut magic)?`
//@ subst? `magic != $A[..]` => `!vx_eq(&magic, $A)`
//@ subst? `ImageError::Unsupported($A)` => `ImageError::Other`
//@ subst? `crate::utils::check_dimension_overflow` => `check_dimension_overflow`
//@ spec
    ensures res matches Ok(d) ==> dds_ok($n0.rest()) && d.d().wf() && 4 * d.d().wb() == v32($n0.rest(), 16, true) && 4 * d.d().hb() == v32($n0.rest(), 12, true)
            && dds_variant($n0.rest()) == Some(d.d().var()) && d.d().rest() == dds_blocks($n0.rest()) && d.d().rows() == 0,
        // refused only when no buffer could hold the picture
        dds_ok($n0.rest()) && v32($n0.rest(), 16, true) * v32($n0.rest(), 12, true) * 4 <= u64::MAX ==> res.is_ok(),
//@ at body.start
    let ghost s = $n0.rest();
    proof {
        assert forall|a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
        if s.len() >= 128 {
            assert(s.skip(76).subrange(8, 12) =~= s.subrange(84, 88)); assert(s.skip(4).skip(72) =~= s.skip(76)); let cc = s.subrange(84, 88);
            assert(cc == seq![68u8, 88u8, 84u8, 49u8] <==> cc =~= seq![68u8, 88u8, 84u8, 49u8]); assert(cc == seq![68u8, 88u8, 84u8, 51u8] <==> cc =~= seq![68u8, 88u8, 84u8, 51u8]);
            let (w, h) = (v32(s, 16, true), v32(s, 12, true)); assert(w * h * 3 <= w * h * 4) by (nonlinear_arith) requires w >= 0, h >= 0;
            assert(cc == seq![68u8, 88u8, 84u8, 53u8] <==> cc =~= seq![68u8, 88u8, 84u8, 53u8]); assert(cc == seq![68u8, 88u8, 49u8, 48u8] <==> cc =~= seq![68u8, 88u8, 49u8, 48u8]);
        }
    }
//@end
//@fn src/codecs/dds.rs dimensions ctx="ImageDecoder for DdsDecoder" ret=res vis=pub
//@ spec
    requires self.d().wf(), ensures res.0 == 4 * self.d().wb(), res.1 == 4 * self.d().hb(),
//@end
//@fn src/codecs/dds.rs color_type ctx="ImageDecoder for DdsDecoder" ret=res vis=pub
//@ spec
    ensures res == if self.d().var() is DXT1 { ColorType::Rgb8 } else { ColorType::Rgba8 },
//@end
//@fn src/codecs/dds.rs read_image ctx="ImageDecoder for DdsDecoder" ret=res vis=pub
//@ sigsubst `self,` => `self, total: u64,`
//@ subst? `self.inner.read_image(buf)` => `self.inner.read_image(total, buf)`
//@ spec
    requires self.d().wf(), self.d().rows() == 0, total == old($n0)@.len(), total == self.d().var().dec() * self.d().wb() * self.d().hb(),
    ensures final($n0)@.len() == old($n0)@.len(),
        res.is_ok() ==> forall|r: int| 0 <= r < self.d().hb() && self.d().wb() > 0 ==> #[trigger] image_row(self.d(), self.d().rest(), final($n0)@, r),
        self.d().rest().len() >= self.d().var().enc() * self.d().wb() * self.d().hb() ==> res.is_ok(),
//@end
}
} // verus!
fn main() {}
