#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include chunks.vrs
// ---- packed samples: field number i of a buffer of d-bit fields, most significant first, scaled to 0..255 ----
pub open spec fn per(d: u8) -> int { if d == 1 { 8 } else if d == 2 { 4 } else { 2 } }
pub open spec fn dv(d: u8, j: int) -> int { if d == 1 { if j == 0 { 128 } else if j == 1 { 64 } else if j == 2 { 32 } else if j == 3 { 16 } else if j == 4 { 8 } else if j == 5 { 4 } else if j == 6 { 2 } else { 1 } } else if d == 2 { if j == 0 { 64 } else if j == 1 { 16 } else if j == 2 { 4 } else { 1 } } else { if j == 0 { 16 } else { 1 } } }
pub open spec fn cnt(d: u8) -> int { if d == 1 { 2 } else if d == 2 { 4 } else { 16 } }
// the largest field value becomes 255
pub open spec fn scaled(d: u8, f: int) -> int { 255 * f / (cnt(d) - 1) }
pub open spec fn field(d: u8, b: u8, j: int) -> int { (b as int / dv(d, j)) % cnt(d) }
pub open spec fn val(d: u8, s: Seq<u8>, i: int) -> u8 { scaled(d, field(d, s[i / per(d)], i % per(d))) as u8 }
pub open spec fn pix(d: u8, s: Seq<u8>, r: int, out: Seq<u8>, row: int, col: int) -> bool {
    0 <= row * r + col < out.len() && out[row * r + col] == scaled(d, field(d, s[row * bpr(d, r) + col / per(d)], col % per(d)))
}
pub open spec fn unit(d: u8) -> int { if d == 1 { 255 } else if d == 2 { 85 } else { 17 } }
pub open spec fn bpr(d: u8, r: int) -> int { (r * d + 7) / 8 }
// the fields among the first n that belong to the r pixels of their row of l fields
#[verifier::opaque]
pub open spec fn kept(d: u8, s: Seq<u8>, r: int, l: int, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { kept(d, s, r, l, n - 1) + (if (n - 1) % l < r { seq![val(d, s, n - 1)] } else { Seq::empty() }) }
}
pub open spec fn klen(r: int, l: int, n: int) -> int { (n / l) * r + (if n % l < r { n % l } else { r }) }
proof fn lemma_div(l: int, n: int)
    requires l > 0, n >= 0
    ensures n >= 1 && n % l != 0 ==> n / l == (n - 1) / l && n % l == (n - 1) % l + 1,
        n >= 1 && n % l == 0 ==> n / l == (n - 1) / l + 1 && (n - 1) % l == l - 1, n == (n / l) * l + n % l, 0 <= n % l < l, n / l >= 0
{
    assert(n == (n / l) * l + n % l && 0 <= n % l < l && n / l >= 0) by (nonlinear_arith) requires l > 0, n >= 0;
    if n >= 1 {
        let m = n - 1; let q = m / l; let t = m % l;
        assert(m == q * l + t && 0 <= t < l) by (nonlinear_arith) requires l > 0, m >= 0, q == m / l, t == m % l;
        if t == l - 1 { assert(n == (q + 1) * l) by (nonlinear_arith) requires n == q * l + t + 1, t == l - 1; lemma_uniq(l, n, q + 1, 0); }
        else { lemma_uniq(l, n, q, t + 1); }
    }
}
proof fn lemma_uniq(l: int, n: int, q: int, t: int) requires l > 0, n == q * l + t, 0 <= t < l ensures n / l == q, n % l == t
{
    let a = n / l; let b = n % l;
    assert(n == a * l + b && 0 <= b < l) by (nonlinear_arith) requires l > 0, a == n / l, b == n % l;
    if a < q { assert(q * l >= a * l + l) by (nonlinear_arith) requires a + 1 <= q, l > 0; }
    if a > q { assert(a * l >= q * l + l) by (nonlinear_arith) requires q + 1 <= a, l > 0; }
}
proof fn lemma_klen(r: int, l: int, n: int)
    requires 0 <= r <= l, l > 0, n >= 1
    ensures klen(r, l, n) == klen(r, l, n - 1) + (if (n - 1) % l < r { 1int } else { 0int }), klen(r, l, n - 1) >= 0, klen(r, l, 0) == 0
{
    lemma_div(l, n); lemma_div(l, n - 1); lemma_uniq(l, 0, 0, 0);
    let q = (n - 1) / l;
    assert((q + 1) * r == q * r + r) by (nonlinear_arith);
    assert(q * r >= 0) by (nonlinear_arith) requires q >= 0, r >= 0;
}
// pixel (row, col) is number row * r + col, and is field number row * l + col
proof fn lemma_kept(d: u8, s: Seq<u8>, r: int, l: int, n: int)
    requires 0 <= r <= l, l > 0, n >= 0
    ensures kept(d, s, r, l, n).len() == klen(r, l, n),
        forall|row: int, col: int| #![trigger row * l + col] 0 <= row && 0 <= col < r && row * l + col < n ==> 0 <= row * r + col < klen(r, l, n) && kept(d, s, r, l, n)[row * r + col] == val(d, s, row * l + col),
    decreases n
{
    reveal(kept);
    if n == 0 {
        lemma_uniq(l, 0, 0, 0); assert((0int / l) * r == 0) by (nonlinear_arith) requires 0int / l == 0;
        assert forall|row: int, col: int| #![trigger row * l + col] 0 <= row && 0 <= col < r && row * l + col < 0 implies false by { assert(row * l >= 0) by (nonlinear_arith) requires row >= 0, l > 0; }
    }
    else {
        lemma_kept(d, s, r, l, n - 1); lemma_klen(r, l, n);
        assert forall|row: int, col: int| #![trigger row * l + col] 0 <= row && 0 <= col < r && row * l + col < n implies 0 <= row * r + col < klen(r, l, n) && kept(d, s, r, l, n)[row * r + col] == val(d, s, row * l + col) by {
            assert(row * r >= 0) by (nonlinear_arith) requires row >= 0, r >= 0;
            if row * l + col == n - 1 { lemma_uniq(l, n - 1, row, col); }
        }
    }
}
// every row starts on a byte boundary
proof fn lemma_row(d: u8, r: int, l: int, row: int, col: int)
    requires d == 1 || d == 2 || d == 4, r >= 0, l == bpr(d, r) * per(d), 0 <= row, 0 <= col < r
    ensures (row * l + col) / per(d) == row * bpr(d, r) + col / per(d), (row * l + col) % per(d) == col % per(d)
{
    let b = bpr(d, r); let q = row * b;
    assert(row * l == q * per(d)) by (nonlinear_arith) requires l == b * per(d), q == row * b;
    if d == 1 { assert(row * l == 8 * q); } else if d == 2 { assert(row * l == 4 * q); } else { assert(row * l == 2 * q); }
}
proof fn lemma_field(d: u8, v: u8, j: int)
    requires d == 1 || d == 2 || d == 4, 0 <= j < per(d)
    ensures ({ let sh = (8 - d * (j + 1)) as usize; ((v & (((cnt(d) - 1) as u8) << sh)) >> sh) == field(d, v, j) }), 0 <= field(d, v, j) < cnt(d)
{
    if d == 1 && j == 0 { assert(d * (j + 1) == 1) by (nonlinear_arith) requires d == 1, j == 0; assert((v & (1u8 << 7usize)) >> 7usize == (v / 128) % 2) by (bit_vector); }
    else if d == 1 && j == 1 { assert(d * (j + 1) == 2) by (nonlinear_arith) requires d == 1, j == 1; assert((v & (1u8 << 6usize)) >> 6usize == (v / 64) % 2) by (bit_vector); }
    else if d == 1 && j == 2 { assert(d * (j + 1) == 3) by (nonlinear_arith) requires d == 1, j == 2; assert((v & (1u8 << 5usize)) >> 5usize == (v / 32) % 2) by (bit_vector); }
    else if d == 1 && j == 3 { assert(d * (j + 1) == 4) by (nonlinear_arith) requires d == 1, j == 3; assert((v & (1u8 << 4usize)) >> 4usize == (v / 16) % 2) by (bit_vector); }
    else if d == 1 && j == 4 { assert(d * (j + 1) == 5) by (nonlinear_arith) requires d == 1, j == 4; assert((v & (1u8 << 3usize)) >> 3usize == (v / 8) % 2) by (bit_vector); }
    else if d == 1 && j == 5 { assert(d * (j + 1) == 6) by (nonlinear_arith) requires d == 1, j == 5; assert((v & (1u8 << 2usize)) >> 2usize == (v / 4) % 2) by (bit_vector); }
    else if d == 1 && j == 6 { assert(d * (j + 1) == 7) by (nonlinear_arith) requires d == 1, j == 6; assert((v & (1u8 << 1usize)) >> 1usize == (v / 2) % 2) by (bit_vector); }
    else if d == 1 && j == 7 { assert(d * (j + 1) == 8) by (nonlinear_arith) requires d == 1, j == 7; assert((v & (1u8 << 0usize)) >> 0usize == (v / 1) % 2) by (bit_vector); }
    else if d == 2 && j == 0 { assert(d * (j + 1) == 2) by (nonlinear_arith) requires d == 2, j == 0; assert((v & (3u8 << 6usize)) >> 6usize == (v / 64) % 4) by (bit_vector); }
    else if d == 2 && j == 1 { assert(d * (j + 1) == 4) by (nonlinear_arith) requires d == 2, j == 1; assert((v & (3u8 << 4usize)) >> 4usize == (v / 16) % 4) by (bit_vector); }
    else if d == 2 && j == 2 { assert(d * (j + 1) == 6) by (nonlinear_arith) requires d == 2, j == 2; assert((v & (3u8 << 2usize)) >> 2usize == (v / 4) % 4) by (bit_vector); }
    else if d == 2 && j == 3 { assert(d * (j + 1) == 8) by (nonlinear_arith) requires d == 2, j == 3; assert((v & (3u8 << 0usize)) >> 0usize == (v / 1) % 4) by (bit_vector); }
    else if d == 4 && j == 0 { assert(d * (j + 1) == 4) by (nonlinear_arith) requires d == 4, j == 0; assert((v & (15u8 << 4usize)) >> 4usize == (v / 16) % 16) by (bit_vector); }
    else if d == 4 && j == 1 { assert(d * (j + 1) == 8) by (nonlinear_arith) requires d == 4, j == 1; assert((v & (15u8 << 0usize)) >> 0usize == (v / 1) % 16) by (bit_vector); }
}
proof fn lemma_rowlen(d: u8, r: int, bw: int)
    requires d == 1 || d == 2 || d == 4, r >= 0, bw == r * d
    ensures r + (if bw % 8 == 0 { 0 } else { (8 - bw % 8) / (d as int) }) == bpr(d, r) * per(d), bpr(d, r) >= 0, r > 0 ==> bpr(d, r) > 0, bpr(d, r) * per(d) >= r,
        r > 0 ==> bpr(d, r) * per(d) > 0, r == 0 ==> bpr(d, r) == 0
{
    if d == 1 { assert(r * 1 == r); } else if d == 2 { assert(r * 2 == 2 * r); } else { assert(r * 4 == 4 * r); }
}
proof fn lemma_step(d: u8, s: Seq<u8>, k: int, j: int)
    requires d == 1 || d == 2 || d == 4, 0 <= j < per(d), 0 <= k
    ensures val(d, s, k * per(d) + j) == scaled(d, field(d, s[k], j)) as u8, (k + 1) * per(d) == k * per(d) + per(d), per(d) == 8int / (d as int), unit(d) == 255int / (cnt(d) - 1),
        forall|f: int| 0 <= f < cnt(d) ==> 0 <= #[trigger] scaled(d, f) <= 255 && scaled(d, f) == f * unit(d),
{
    if d == 1 { assert((k * 8 + j) / 8 == k && (k * 8 + j) % 8 == j); } else if d == 2 { assert((k * 4 + j) / 4 == k && (k * 4 + j) % 4 == j); } else { assert((k * 2 + j) / 2 == k && (k * 2 + j) % 2 == j); }
    assert forall|f: int| 0 <= f < cnt(d) implies 0 <= #[trigger] scaled(d, f) <= 255 && scaled(d, f) == f * unit(d) by {
        if d == 1 { assert(255 * f / 1 == 255 * f); } else if d == 2 { assert(255 * f / 3 == 85 * f); } else { assert(255 * f / 15 == 17 * f); }
    }
}
proof fn lemma_out(d: u8, s: Seq<u8>, r: int, l: int)
    requires d == 1 || d == 2 || d == 4, r >= 0, l == bpr(d, r) * per(d), r > 0 || s.len() == 0
    ensures forall|row: int, col: int| 0 <= row && 0 <= col < r && (row + 1) * bpr(d, r) <= s.len() ==> #[trigger] pix(d, s, r, kept(d, s, r, l, s.len() * per(d)), row, col),
{
    let n = s.len() * per(d); let b = bpr(d, r);
    if r > 0 {
    lemma_rowlen(d, r, r * d); lemma_kept(d, s, r, l, n);
    assert forall|row: int, col: int| 0 <= row && 0 <= col < r && (row + 1) * bpr(d, r) <= s.len() implies #[trigger] pix(d, s, r, kept(d, s, r, l, s.len() * per(d)), row, col) by {
        lemma_row(d, r, l, row, col);
        let q = row * b; assert(q >= 0) by (nonlinear_arith) requires q == row * b, row >= 0, b >= 0;
        assert((row + 1) * b == q + b) by (nonlinear_arith) requires q == row * b;
        assert(row * l == q * per(d)) by (nonlinear_arith) requires l == b * per(d), q == row * b;
        assert((q + b) * per(d) == q * per(d) + b * per(d)) by (nonlinear_arith);
        assert((q + b) * per(d) <= s.len() * per(d)) by (nonlinear_arith) requires q + b <= s.len(), per(d) >= 0;
        assert(row * l + col < n);
        if d == 1 { assert(b * 8 >= r); } else if d == 2 { assert(b * 4 >= r); } else { assert(b * 2 >= r); }
        assert(col / per(d) < b);
        let j = col % per(d); let k = q + col / per(d);
        assert(0 <= col / per(d)) ;
        lemma_step(d, s, k, j); 
        lemma_field(d, s[k], j);
        assert(val(d, s, row * l + col) == scaled(d, field(d, s[k], j)));
    }
    }
}
//@fn src/utils/mod.rs expand_bits ret=res vis=pub
//@ subst? `for shift_inv in 1..=$A {$B}` => `for vxs in 0..$A { let shift_inv = vxs + 1; $B }`
//@ forvec 0 `buf` => `buf`
//@ panics forbid
//@ at body.start
    proof {
        if $n0 == 1 { assert($n1 * 1 == $n1); } else if $n0 == 2 { assert($n1 * 2 == 2 * $n1); } else { assert($n1 * 4 == 4 * $n1); }
        assert(1u8 << 1usize == 2 && 1u8 << 2usize == 4 && 1u8 << 4usize == 16) by (bit_vector);
        assert(1u32 << 1usize == 2 && 1u32 << 2usize == 4 && 1u32 << 4usize == 16) by (bit_vector);
        assert(1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 4u8 == 16) by (bit_vector);
        reveal(kept);
    }
//@ at before `let mut p`
    proof { lemma_rowlen($n0, $n1 as int, bit_width as int); }
    assert(row_len == bpr($n0, $n1 as int) * per($n0));
    assert(mask == cnt($n0) - 1);
    assert(255int / 1 == 255 && 255int / 3 == 85 && 255int / 15 == 17);
    if $n0 == 1 { assert(scaling_factor == 255); } else if $n0 == 2 { assert(scaling_factor == 85); } else { assert(scaling_factor == 17); }
    assert(scaling_factor == unit($n0));
//@ loop 0 forvec
    invariant $n0 == 1 || $n0 == 2 || $n0 == 4, vxi0@ == $n2@, $n2@.len() <= usize::MAX / 8, row_len == bpr($n0, $n1 as int) * per($n0), mask == cnt($n0) - 1, scaling_factor == unit($n0),
        row_len > 0 || $n2@.len() == 0, i == vxk0 * per($n0), vxk0 <= vxi0@.len(), $n1 <= row_len,
        p@ == kept($n0, $n2@, $n1 as int, row_len as int, i as int),
    decreases vxi0@.len() - vxk0
//@ loop 1 for it=it
    invariant $n0 == 1 || $n0 == 2 || $n0 == 4, vxi0@ == $n2@, $n2@.len() <= usize::MAX / 8, row_len == bpr($n0, $n1 as int) * per($n0), mask == cnt($n0) - 1, scaling_factor == unit($n0),
        row_len > 0, 1 <= vxk0 <= vxi0@.len(), v == vxi0@[vxk0 - 1], i == (vxk0 - 1) * per($n0) + it.index@,
        p@ == kept($n0, $n2@, $n1 as int, row_len as int, i as int),
//@ at loop1.start
    proof {
        lemma_field($n0, v, $v1 as int); lemma_step($n0, $n2@, vxk0 - 1, $v1 as int); reveal(kept);
        assert(val($n0, $n2@, i as int) == scaled($n0, field($n0, v, $v1 as int)));
    }
//@ at loop1.after
    proof { lemma_step($n0, $n2@, vxk0 - 1, 0); }
//@ at loop0.after
    proof { lemma_out($n0, $n2@, $n1 as int, row_len as int); }
//@ spec
    requires $n0 == 1 || $n0 == 2 || $n0 == 4, $n1 * $n0 <= u32::MAX, $n1 + 7 <= u32::MAX, $n1 > 0 || $n2@.len() == 0, $n2@.len() <= usize::MAX / 8,
    ensures res@ == kept($n0, $n2@, $n1 as int, bpr($n0, $n1 as int) * per($n0), $n2@.len() * per($n0)),
        // C18: whole rows
        forall|row: int, col: int| 0 <= row && 0 <= col < $n1 && (row + 1) * bpr($n0, $n1 as int) <= $n2@.len() ==> #[trigger] pix($n0, $n2@, $n1 as int, res@, row, col),
//@end
// ---- palette expansion: pixel n - 1 - k is filled from index byte n - 1 - k, back to front in one buffer ----
pub trait Fill {
    spec fn ok(&self, i: u8) -> bool;
    spec fn out(&self, i: u8) -> Seq<u8>;
    fn call(&self, i: u8, px: &mut [u8]) requires self.ok(i), old(px)@.len() == 4 ensures final(px)@.len() == 4, final(px)@ == self.out(i);
}
// `(0..n).rev().flat_map(|i| (0..8 / d).map(|k| k * d).zip(repeat(i))).skip(e)`: the fields from the last byte down
#[verifier::external_body]
pub fn vx_fields(n: usize, d: u8, e: usize) -> (r: Vec<(u8, usize)>)
    requires 1 <= d <= 8,
    ensures r@.len() == (if n * (8int / (d as int)) >= e { n * (8int / (d as int)) - e } else { 0 }),
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == ((k + e) % (8int / (d as int))) * d && r@[k].1 == n - 1 - (k + e) / (8int / (d as int)),
{ unimplemented!() }
// `(c..=n).step_by(c)`
#[verifier::external_body]
pub fn vx_steps(c: usize, n: usize) -> (r: Vec<usize>) requires c > 0 ensures r@.len() == n / c, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == c * (k + 1) { unimplemented!() }
// `a.zip(b)`
#[verifier::external_body]
pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == a@[k] && r@[k].1 == b@[k] { unimplemented!() }
//@fn src/utils/mod.rs expand_packed vis=pub
//@ sigsubst `F: FnMut(u8, &mut [u8])` => `F: Fill`
//@ subst? `(0..entries).rev().flat_map(|idx| (0..8/bit_depth).map(|i| i*bit_depth).zip(repeat(idx))).skip(extra)` => `vx_fields(entries, bit_depth, extra)`
//@ subst? `($A..=$B).step_by($C)` => `vx_steps($A, $B)`
//@ subst? `func(pixel, &mut buf[$A..$B])` => `{ let vxs = vx_slice_mut(buf, $A, $B); func.call(pixel, vxs) }`
//@ forvec 0 `i.zip(j_inv)` => `vx_zip(i, j_inv)`
//@ panics forbid
//@ at body.start
    let ghost s0 = buf@; let ghost n = buf@.len() as int / 4;
    assert(1u16 << 8u8 == 256u16) by (bit_vector);
//@ loop 0 forvec
    invariant mask == 255, channels == 4, buf_len == 4 * n, s0.len() == 4 * n, buf@.len() == 4 * n, vxi0@.len() == n, vxk0 <= n, n <= usize::MAX / 8,
        forall|k: int| 0 <= k < n ==> (#[trigger] vxi0@[k]).0.0 == 0 && vxi0@[k].0.1 == n - 1 - k && vxi0@[k].1 == 4 * (k + 1),
        forall|k: int| 0 <= k < n ==> $n3.ok(#[trigger] s0[k]),
        forall|k: int| 0 <= k < 4 * (n - vxk0) ==> buf@[k] == s0[k],
        forall|k: int| n - vxk0 <= k < n ==> #[trigger] buf@.subrange(4 * k, 4 * k + 4) == $n3.out(s0[k]),
    decreases n - vxk0
//@ at loop0.start
    let ghost pre = buf@;
    assert(forall|b: u8| #![trigger b & (255u8 << 0u8)] (b & (255u8 << 0u8)) >> 0u8 == b) by (bit_vector);
//@ at before `{ let vxs`
    assert(pixel == s0[n - vxk0]);
//@ at loop0.end
    proof {
        let at = 4 * (n - vxk0);
        assert(buf@ =~= pre.subrange(0, at) + $n3.out(s0[n - vxk0]) + pre.subrange(at + 4, 4 * n));
        assert forall|k: int| n - vxk0 <= k < n implies #[trigger] buf@.subrange(4 * k, 4 * k + 4) == $n3.out(s0[k]) by {
            if k == n - vxk0 { assert(buf@.subrange(4 * k, 4 * k + 4) =~= $n3.out(s0[k])); }
            else { assert(buf@.subrange(4 * k, 4 * k + 4) =~= pre.subrange(4 * k, 4 * k + 4)); }
        }
    }
//@ spec
    requires $n2 == 8, $n1 == 4, old($n0)@.len() % 4 == 0, old($n0)@.len() <= usize::MAX / 2, forall|k: int| 0 <= k < old($n0)@.len() / 4 ==> $n3.ok(#[trigger] old($n0)@[k]),
    ensures final($n0)@.len() == old($n0)@.len(), forall|k: int| 0 <= k < old($n0)@.len() / 4 ==> #[trigger] final($n0)@.subrange(4 * k, 4 * k + 4) == $n3.out(old($n0)@[k]),
//@end
// the images involved: an 8-bit gray buffer and an RGBA buffer, as sizes and samples (layout: see C01)
pub struct GrayImage { pub width: u32, pub height: u32, pub data: Vec<u8> }
pub struct RgbaImage { pub width: u32, pub height: u32, pub data: Vec<u8> }
impl RgbaImage {
    // contract of ImageBuffer::from_vec (proved in C01)
    #[verifier::external_body]
    pub fn from_vec(width: u32, height: u32, data: Vec<u8>) -> (r: Option<RgbaImage>)
        ensures r.is_some() <==> data@.len() >= 4 * (width * height), r.is_some() ==> r.unwrap().width == width && r.unwrap().height == height && r.unwrap().data@ == data@ { unimplemented!() }
}
// the colour an index denotes
pub open spec fn entry(p: Seq<(u8, u8, u8)>, t: Option<u8>, i: u8) -> Seq<u8> { seq![p[i as int].0, p[i as int].1, p[i as int].2, if t == Some(i) { 0u8 } else { 255u8 }] }
pub struct Entry<'a> { pub palette: &'a [(u8, u8, u8)], pub transparent_idx: Option<u8> }
impl<'a> Fill for Entry<'a> {
    open spec fn ok(&self, i: u8) -> bool { i < self.palette@.len() }
    open spec fn out(&self, i: u8) -> Seq<u8> { entry(self.palette@, self.transparent_idx, i) }
    fn call(&self, i: u8, px: &mut [u8]) { vx_entry(i, px, self.palette, self.transparent_idx) }
}
// the body of the closure given to expand_packed
//@fn src/buffer.rs expand_palette as=vx_entry
//@ sigsubst `self,` => `idx: u8, pixel: &mut [u8],`
//@ sigsubst `-> RgbaImage` => ` `
//@ subst `let (width, height) = $A; let mut data = $C; let entries = $D; data.resize($E); let mut buffer = $F; expand_packed(&mut buffer, 4, 8, |idx, pixel| {$B}); buffer` => `$B`
//@ panics forbid
//@ spec
    requires idx < $n0@.len(), old(pixel)@.len() == 4,
    ensures final(pixel)@ == entry($n0@, $n1, idx),
//@ at body.end
    proof { assert(pixel@ =~= entry($n0@, $n1, idx)); }
//@end
impl GrayImage {
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r == (self.width, self.height) { (self.width, self.height) }
    pub fn into_raw(self) -> (r: Vec<u8>) ensures r@ == self.data@ { self.data }
//@fn src/buffer.rs expand_palette ret=res vis=pub
//@ subst? `data.resize($A, $B)` => `vx_resize(&mut data, $A, $B)`
//@ subst? `ImageBuffer::from_vec` => `RgbaImage::from_vec`
//@ subst `expand_packed(&mut buffer, $A, $B, |idx, pixel| {$C})` => `expand_packed(&mut buffer.data, $A, $B, Entry { palette, transparent_idx })`
//@ panics forbid
//@ at before `expand_packed`
    let ghost d1 = buffer.data@;
    proof { assert forall|k: int| 0 <= k < self.data@.len() implies #[trigger] d1[k] == self.data@[k] by {} }
//@ spec
    requires self.data@.len() <= usize::MAX / 8, self.data@.len() >= self.width * self.height, forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] self.data@[k] < $n0@.len(),
    ensures res.width == self.width, res.height == self.height, res.data@.len() == 4 * self.data@.len(),
        forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] res.data@.subrange(4 * k, 4 * k + 4) == entry($n0@, $n1, self.data@[k]),
//@end
}
}
fn main() {}
