#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include bytes.vrs
pub assume_specification [i32::unsigned_abs] (a: i32) -> (r: u32) ensures r == (if a < 0 { -(a as int) } else { a as int });
// ---- bits, most significant first; entropy-coded bytes on the wire: a zero follows every 0xFF ----
#[verifier::opaque]
pub open spec fn bitseq(v: int, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| (v / p2(n - 1 - i)) % 2 == 1) }
#[verifier::opaque]
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
#[verifier::opaque]
pub open spec fn stuff(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else { stuff(s.drop_last()) + (if s.last() == 0xFF { seq![0xFFu8, 0u8] } else { seq![s.last()] }) }
}
pub open spec fn byte_bits(s: Seq<u8>) -> Seq<bool> { Seq::new(8 * s.len(), |i: int| bit8(s[i / 8], i % 8)) }
pub open spec fn bit8(b: u8, i: int) -> bool { (b >> ((7 - i) as u8)) & 1 == 1 }
pub open spec fn bit32(a: u32, i: int) -> bool { (a >> ((31 - i) as u32)) & 1 == 1 }
// the first n bits of the accumulator, which are still to be written
pub open spec fn pend(a: u32, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit32(a, i)) }
// from (o0, p0) to (o1, p1) the bits s were put out: whole bytes b were written (stuffed), the rest is pending
#[verifier::opaque]
pub open spec fn emits(o0: Seq<u8>, p0: Seq<bool>, o1: Seq<u8>, p1: Seq<bool>, s: Seq<bool>) -> bool {
    exists|b: Seq<u8>| #[trigger] emitted(b, o0, p0, o1, p1, s)
}
pub open spec fn emitted(b: Seq<u8>, o0: Seq<u8>, p0: Seq<bool>, o1: Seq<u8>, p1: Seq<bool>, s: Seq<bool>) -> bool { o1 == o0 + stuff(b) && byte_bits(b) + p1 == p0 + s }
proof fn lemma_stuff_add(a: Seq<u8>, b: Seq<u8>)
    ensures stuff(a + b) == stuff(a) + stuff(b), byte_bits(a + b) == byte_bits(a) + byte_bits(b)
    decreases b.len()
{
    reveal(stuff);
    assert(byte_bits(a + b) =~= byte_bits(a) + byte_bits(b)) by {
        let n = 8 * a.len();
        assert forall|i: int| 0 <= i < 8 * (a + b).len() implies #[trigger] byte_bits(a + b)[i] == (byte_bits(a) + byte_bits(b))[i] by {
            if i >= n { assert((i - n) / 8 == i / 8 - a.len() && (i - n) % 8 == i % 8); }
        }
    }
    if b.len() == 0 { assert(a + b =~= a); assert(stuff(a) + b =~= stuff(a)); }
    else {
        lemma_stuff_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let t = if b.last() == 0xFF { seq![0xFFu8, 0u8] } else { seq![b.last()] };
        assert((stuff(a) + stuff(b.drop_last())) + t =~= stuff(a) + (stuff(b.drop_last()) + t));
    }
}
proof fn lemma_emits_nil(o: Seq<u8>, p: Seq<bool>) ensures emits(o, p, o, p, Seq::empty())
{ reveal(stuff); reveal(emits); let b = Seq::<u8>::empty(); assert(o + stuff(b) =~= o); assert(byte_bits(b) + p =~= p + Seq::<bool>::empty()); assert(emitted(b, o, p, o, p, Seq::empty())); }
proof fn lemma_emits_add(o0: Seq<u8>, p0: Seq<bool>, o1: Seq<u8>, p1: Seq<bool>, o2: Seq<u8>, p2: Seq<bool>, s: Seq<bool>, t: Seq<bool>)
    requires emits(o0, p0, o1, p1, s), emits(o1, p1, o2, p2, t), ensures emits(o0, p0, o2, p2, s + t)
{
    reveal(emits);
    let a = choose|b: Seq<u8>| #[trigger] emitted(b, o0, p0, o1, p1, s);
    let b = choose|b: Seq<u8>| #[trigger] emitted(b, o1, p1, o2, p2, t);
    lemma_stuff_add(a, b);
    assert(o0 + stuff(a + b) =~= o0 + stuff(a) + stuff(b));
    assert(byte_bits(a) + byte_bits(b) + p2 =~= byte_bits(a) + (byte_bits(b) + p2));
    assert(byte_bits(a) + (p1 + t) =~= (byte_bits(a) + p1) + t);
    assert((p0 + s) + t =~= p0 + (s + t));
    assert(emitted(a + b, o0, p0, o2, p2, s + t));
}
pub type St = (Seq<u8>, Seq<bool>);
proof fn lemma_emits3(e: St, w1: St, w2: St, w3: St, w4: St, s: Seq<bool>, b0: Seq<bool>, b1: Seq<bool>, b2: Seq<bool>)
    requires emits(e.0, e.1, w1.0, w1.1, s), emits(w1.0, w1.1, w2.0, w2.1, b0), emits(w2.0, w2.1, w3.0, w3.1, b1), emits(w3.0, w3.1, w4.0, w4.1, b2)
    ensures emits(e.0, e.1, w4.0, w4.1, s + (b0 + b1 + b2))
{
    lemma_emits_add(w1.0, w1.1, w2.0, w2.1, w3.0, w3.1, b0, b1); lemma_emits_add(w1.0, w1.1, w3.0, w3.1, w4.0, w4.1, b0 + b1, b2); lemma_emits_add(e.0, e.1, w1.0, w1.1, w4.0, w4.1, s, b0 + b1 + b2);
}
proof fn lemma_p2() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536
{ reveal(p2); reveal_with_fuel(p2, 18); }
// the bits of a 16-bit value, as the machine extracts them
proof fn lemma_bits16(v: u16, n: int)
    requires 0 <= n <= 16
    ensures bitseq(v as int, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] bitseq(v as int, n)[i] == ((v >> ((n - 1 - i) as u16)) & 1 == 1)
{
    lemma_p2(); reveal(bitseq);
    assert forall|i: int| 0 <= i < n implies #[trigger] bitseq(v as int, n)[i] == ((v >> ((n - 1 - i) as u16)) & 1 == 1) by {
        let k = (n - 1 - i) as u16;
        lemma_shr16(v, k); let w = v >> k; assert(w & 1 == w % 2) by (bit_vector);
    }
}
proof fn lemma_shr16(v: u16, k: u16) requires k < 16 ensures (v >> k) as int == v as int / p2(k as int)
{
    lemma_p2();
    if k == 0 { assert(v >> 0u16 == v) by (bit_vector); }
    else if k == 1 { assert(v >> 1u16 == v / 2) by (bit_vector); } else if k == 2 { assert(v >> 2u16 == v / 4) by (bit_vector); }
    else if k == 3 { assert(v >> 3u16 == v / 8) by (bit_vector); } else if k == 4 { assert(v >> 4u16 == v / 16) by (bit_vector); }
    else if k == 5 { assert(v >> 5u16 == v / 32) by (bit_vector); } else if k == 6 { assert(v >> 6u16 == v / 64) by (bit_vector); }
    else if k == 7 { assert(v >> 7u16 == v / 128) by (bit_vector); } else if k == 8 { assert(v >> 8u16 == v / 256) by (bit_vector); }
    else if k == 9 { assert(v >> 9u16 == v / 512) by (bit_vector); } else if k == 10 { assert(v >> 10u16 == v / 1024) by (bit_vector); }
    else if k == 11 { assert(v >> 11u16 == v / 2048) by (bit_vector); } else if k == 12 { assert(v >> 12u16 == v / 4096) by (bit_vector); }
    else if k == 13 { assert(v >> 13u16 == v / 8192) by (bit_vector); } else if k == 14 { assert(v >> 14u16 == v / 16384) by (bit_vector); }
    else { assert(v >> 15u16 == v / 32768) by (bit_vector); }
}
pub open spec fn ones(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
// how many ones fill the byte
pub open spec fn pad_of(n: int) -> int { (8 - n) % 8 }
proof fn lemma_pad(o0: Seq<u8>, p0: Seq<bool>, o1: Seq<u8>, p1: Seq<bool>, o2: Seq<u8>)
    requires emits(o0, p0, o1, p1, ones(7)), p0.len() < 8, p1.len() < 8, o2 == o1
    ensures emits(o0, p0, o2, Seq::empty(), ones(pad_of(p0.len() as int)))
{
    reveal(emits);
    let b = choose|b: Seq<u8>| #[trigger] emitted(b, o0, p0, o1, p1, ones(7));
    let n = p0.len() as int; let all = p0 + ones(7);
    assert(byte_bits(b).len() == 8 * b.len());
    assert((byte_bits(b) + p1).len() == (p0 + ones(7)).len());
    assert(byte_bits(b) =~= all.subrange(0, 8 * b.len() as int)) by { assert((byte_bits(b) + p1).subrange(0, 8 * b.len() as int) =~= byte_bits(b)); }
    if n == 0 { assert(b.len() == 0); assert(byte_bits(b) + Seq::<bool>::empty() =~= p0 + ones(0)); }
    else { assert(b.len() == 1); assert(byte_bits(b) + Seq::<bool>::empty() =~= p0 + ones(8 - n)); }
    assert(emitted(b, o0, p0, o2, Seq::empty(), ones(pad_of(n))));
}
//@item src/codecs/jpeg/encoder.rs struct BitWriter vis=pub
impl<W: Write> BitWriter<W> {
    pub closed spec fn out(&self) -> Seq<u8> { self.w.out() }
    pub closed spec fn pending(&self) -> Seq<bool> { pend(self.accumulator, self.nbits as int) }
    // fewer than eight bits are pending, the rest of the accumulator is zero
    pub closed spec fn wf(&self) -> bool { self.nbits < 8 && self.accumulator << (self.nbits as u32) == 0 }
    // from `old` to `self` exactly the bits s were handed over
    pub closed spec fn put(&self, old: &Self, s: Seq<bool>) -> bool { self.wf() && emits(old.out(), old.pending(), self.out(), self.pending(), s) }
//@fn src/codecs/jpeg/encoder.rs new ctx="impl < W : Write > BitWriter" ret=res vis=pub
//@ spec
    ensures res.wf(), res.out() == $n0.out(), res.pending() == Seq::<bool>::empty(),
//@ at body.start
    proof { assert(0u32 << 0u32 == 0) by (bit_vector); assert(pend(0, 0) =~= Seq::<bool>::empty()); }
//@end
//@fn src/codecs/jpeg/encoder.rs write_bits ret=res vis=pub
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).wf(), $n1 <= 16, $n0 < p2($n1 as int),
    ensures res.is_ok() ==> final(self).put(old(self), bitseq($n0 as int, $n1 as int)),
//@ at body.start
    let ghost (n0, sz, a0, bv) = (self.nbits as u32, $n1 as u32, self.accumulator, $n0);
    let ghost full = a0 | ((bv as u32) << ((32 - n0 - sz) as u32));
    let ghost mut b = Seq::<u8>::empty();
    proof {
        reveal(stuff); reveal(emits); reveal(bitseq); lemma_bits16(bv, sz as int); lemma_p2();
        if sz == 0 { lemma_emits_nil(self.out(), self.pending()); assert(bitseq(bv as int, 0) =~= Seq::<bool>::empty()); }
        else {
            if sz < 16 { lemma_shl1(sz as u16); }
            lemma_join(a0, n0, bv, sz);
            assert(pend(full, n0 + sz) =~= self.pending() + bitseq(bv as int, sz as int));
            assert(self.out() + stuff(b) =~= self.out());
        }
    }
//@ at loop0.before
    proof { assert(byte_bits(b) + self.pending() =~= pend(full, n0 + sz)); assert(sz > 0); }
//@ loop 0 while
    invariant self.nbits <= 23, self.accumulator << (self.nbits as u32) == 0, emitted(b, old(self).out(), old(self).pending(), self.out(), self.pending(), bitseq(bv as int, sz as int)),
    decreases self.nbits,
//@ at loop0.start
    let ghost (n1, a1, o1, b1) = (self.nbits as u32, self.accumulator, self.out(), b);
    proof {
        let by = (a1 >> 24) as u8; b = b1.push(by);
        assert(a1 >> 24 == ((a1 >> 24) as u8) as u32) by (bit_vector);
        lemma_byte(a1, n1); reveal(stuff); assert(b.drop_last() =~= b1);
        assert(seq![by] == Seq::<u8>::empty().push(by)); lemma_stuff_add(b1, seq![by]); assert(b =~= b1 + seq![by]);
        assert(pend(a1, n1 as int) =~= byte_bits(seq![by]) + pend(a1 << 8, n1 - 8));
        assert(byte_bits(b1) + (byte_bits(seq![by]) + pend(a1 << 8, n1 - 8)) =~= byte_bits(b) + pend(a1 << 8, n1 - 8));
        assert(seq![0xFFu8] + seq![0u8] =~= seq![0xFFu8, 0u8]);
        assert((o1 + seq![0xFFu8]) + seq![0u8] =~= o1 + seq![0xFFu8, 0u8]);
        assert((old(self).out() + stuff(b1)) + (if by == 0xFF { seq![0xFFu8, 0u8] } else { seq![by] }) =~= old(self).out() + stuff(b));
    }
//@ at loop0.end
    proof {
        assert(self.out() == o1 + (if (a1 >> 24) as u8 == 0xFF { seq![0xFFu8, 0u8] } else { seq![(a1 >> 24) as u8] }));
        assert(self.out() == old(self).out() + stuff(b));
        assert(self.pending() == pend(a1 << 8, n1 - 8));
        assert(byte_bits(b) + self.pending() == old(self).pending() + bitseq(bv as int, sz as int));
    }
//@ at loop0.after
    proof { reveal(emits); assert(emits(old(self).out(), old(self).pending(), self.out(), self.pending(), bitseq(bv as int, sz as int))); }
//@end
//@fn src/codecs/jpeg/encoder.rs pad_byte ret=res vis=pub
//@ panics forbid
//@ spec
    requires old(self).wf(),
    // every pending bit is written, the byte is filled with ones, and nothing of the padding stays behind
    ensures res.is_ok() ==> final(self).wf() && final(self).pending() == Seq::<bool>::empty() && emits(old(self).out(), old(self).pending(), final(self).out(), Seq::empty(), ones(pad_of(old(self).pending().len() as int))),
//@ at body.start
    let ghost (o0, p0) = (self.out(), self.pending());
    proof { lemma_p2(); reveal(bitseq); assert(bitseq(0x7F, 7) =~= ones(7)); }
//@ at before `Ok(())`
    proof { lemma_pad(o0, p0, vxo, vxp, self.out()); assert(0u32 << 0u32 == 0) by (bit_vector); assert(self.pending() =~= Seq::<bool>::empty()); }
//@ at after `self.write_bits(0x7F, 7)?;`
    let ghost (vxo, vxp) = (self.out(), self.pending());
//@end
}
// ---- coefficients: category (number of bits of the magnitude) and extra bits (F.1.2.1) ----
#[verifier::opaque]
pub open spec fn bl(n: int) -> int decreases n { if n <= 0 { 0 } else { 1 + bl(n / 2) } }
pub open spec fn cat(d: int) -> int { bl(if d < 0 { -d } else { d }) }
pub open spec fn extra(d: int) -> int { if d < 0 { d + p2(cat(d)) - 1 } else { d } }
// F.2.2.1 EXTEND: what a decoder recovers from s extra bits v
pub open spec fn extend(v: int, s: int) -> int { if s > 0 && v < p2(s - 1) { v - p2(s) + 1 } else { v } }
proof fn lemma_bl(n: int) requires 0 <= n ensures 0 <= bl(n), n < p2(bl(n)), n > 0 ==> bl(n) >= 1 && p2(bl(n) - 1) <= n decreases n
{ reveal(bl); reveal(p2); if n > 0 { lemma_bl(n / 2); if n >= 2 { assert(p2(bl(n) - 1) == 2 * p2(bl(n) - 2)); } } }
proof fn lemma_p2_mono(a: int, b: int) requires 0 <= a <= b ensures 1 <= p2(a) <= p2(b) decreases b
{ reveal(p2); if b > 0 { if a < b { lemma_p2_mono(a, b - 1); } else { lemma_p2_mono(a - 1, b - 1); } } }
proof fn lemma_bl_le(n: int, k: int) requires 0 <= k, 0 <= n < p2(k) ensures bl(n) <= k { lemma_bl(n); if n > 0 && bl(n) > k { lemma_p2_mono(k, bl(n) - 1); } else if n == 0 { reveal(bl); } }
// the standard's decoder recovers the coefficient from its category and extra bits
proof fn coefficient_is_recovered(d: int) ensures extend(extra(d), cat(d)) == d, 0 <= extra(d) < p2(cat(d)), (cat(d) == 0 <==> d == 0)
{ lemma_bl(if d < 0 { -d } else { d }); reveal(p2); if d == 0 { reveal(bl); } }
//@fn src/codecs/jpeg/encoder.rs encode_coefficient ret=res vis=pub
//@ panics forbid
//@ spec
    requires -32767 <= $n0 <= 32767,
    ensures res.0 == cat($n0 as int), res.1 == extra($n0 as int), res.0 <= 15, res.1 < p2(res.0 as int),
//@ at loop0.before
    let ghost m0 = magnitude as int;
    proof { lemma_p2(); lemma_bl(m0); lemma_bl_le(m0, 15); coefficient_is_recovered($n0 as int); }
//@ loop 0 while
    invariant num_bits + bl(magnitude as int) == bl(m0), bl(m0) <= 15, 0 <= bl(magnitude as int),
    decreases magnitude,
//@ at loop0.start
    proof { reveal(bl); assert(magnitude >> 1 == magnitude / 2) by (bit_vector); lemma_bl(magnitude as int); lemma_bl(magnitude as int / 2); }
//@ at loop0.after
    proof {
        reveal(bl); lemma_p2(); lemma_shl1(num_bits as u16); lemma_mask(coefficient, num_bits);
    }
//@end
proof fn lemma_mask(c: i32, n: u8)
    requires -32767 <= c <= 32767, n <= 15, -p2(n as int) < c < p2(n as int)
    ensures (1u16 << (n as usize)) == p2(n as int), c >= 0 ==> (c as u16) & (((1u16 << (n as usize)) - 1) as u16) == c, c < 0 ==> ((c - 1) as u16) & (((1u16 << (n as usize)) - 1) as u16) == c + p2(n as int) - 1
{
    lemma_p2(); lemma_shl1(n as u16);
    let k = n as u16; let ku = n as usize; let m = p2(n as int) as i32;
    assert(1u16 << ku == 1u16 << k) by (bit_vector) requires ku == k as usize, k <= 15;
    if c >= 0 { assert((c as u16) & (((1u16 << k) - 1) as u16) == c) by (bit_vector) requires 0 <= c, c < m, m == (1u16 << k) as i32, k <= 15; }
    else { assert(((c - 1) as u16) & (((1u16 << k) - 1) as u16) == c + m - 1) by (bit_vector) requires 0 > c, c > -m, m == (1u16 << k) as i32, k <= 15; }
}
// ---- a block: DC difference, then runs of zeros and coefficients in zigzag order (F.1.2) ----
//@table src/codecs/jpeg/encoder.rs static UNZIGZAG as=unzigzag type="Seq<u8>"
// figure A.6: the zigzag walk through the block; (k)-th position as row * 8 + column
pub open spec fn zz(k: int) -> int decreases k {
    if k <= 0 { 0 } else {
        let p = zz(k - 1); let (r, c) = (p / 8, p % 8);
        if (r + c) % 2 == 0 { if c == 7 { p + 8 } else if r == 0 { p + 1 } else { p - 7 } }
        else { if r == 7 { p + 1 } else if c == 0 { p + 8 } else { p + 7 } }
    }
}
spec fn zz_ok(n: int) -> bool decreases n { n <= 0 || (unzigzag()[n - 1] == zz(n - 1) && zz_ok(n - 1)) }
proof fn lemma_zz_ok(n: int, k: int) requires zz_ok(n), 0 <= k < n ensures unzigzag()[k] == zz(k) decreases n { if k < n - 1 { lemma_zz_ok(n - 1, k); } }
proof fn table_zigzag() ensures unzigzag().len() == 64, forall|k: int| 0 <= k < 64 ==> #[trigger] unzigzag()[k] == zz(k)
{
    assert(unzigzag().len() == 64) by (compute_only);
    assert(zz_ok(64)) by (compute_only);
    assert forall|k: int| 0 <= k < 64 implies #[trigger] unzigzag()[k] == zz(k) by { lemma_zz_ok(64, k); }
}
proof fn lemma_zz(k: int) requires 0 <= k < 64 ensures 0 <= zz(k) < 64, unzigzag()[k] == zz(k), zz(63) == 63, k > 0 ==> zz(k) > 0
{ table_zigzag(); assert(zz_range(64)) by (compute_only); lemma_zz_range(64, k); assert(zz(63) == 63) by (compute_only); }
spec fn zz_range(n: int) -> bool decreases n { n <= 0 || (0 <= zz(n - 1) < 64 && (n > 1 ==> zz(n - 1) > 0) && zz_range(n - 1)) }
proof fn lemma_zz_range(n: int, k: int) requires zz_range(n), 0 <= k < n ensures 0 <= zz(k) < 64, k > 0 ==> zz(k) > 0 decreases n { if k < n - 1 { lemma_zz_range(n - 1, k); } }
proof fn lemma_sym(r: u8, s: u8) requires r < 16, s < 16 ensures (r << 4) | s == r * 16 + s { assert((r << 4) | s == r * 16 + s) by (bit_vector) requires r < 16, s < 16; }
pub type Lut = Seq<(u8, u16)>;
// a table that has a code of at most 16 bits for the symbol
pub open spec fn has(t: Lut, v: int) -> bool { 0 <= v < t.len() && t[v].0 <= 16 && t[v].1 < p2(t[v].0 as int) }
pub open spec fn huff(t: Lut, v: int) -> Seq<bool> { bitseq(t[v].1 as int, t[v].0 as int) }
pub open spec fn coef(t: Lut, sym: int, d: int) -> Seq<bool> { huff(t, sym) + bitseq(extra(d), cat(d)) }
#[verifier::opaque]
pub open spec fn zrl(t: Lut, run: int) -> Seq<bool> decreases run { if run > 15 { huff(t, 0xF0) + zrl(t, run - 16) } else { Seq::empty() } }
#[verifier::opaque]
pub open spec fn ac(b: Seq<i32>, k: int, run: int, t: Lut) -> Seq<bool> decreases 64 - k {
    if k >= 64 { if run > 0 { huff(t, 0) } else { Seq::empty() } }
    else if b[zz(k)] == 0 { ac(b, k + 1, run + 1, t) }
    else { zrl(t, run) + coef(t, (run % 16) * 16 + cat(b[zz(k)] as int), b[zz(k)] as int) + ac(b, k + 1, 0, t) }
}
#[verifier::opaque]
pub open spec fn block_bits(b: Seq<i32>, prevdc: int, dt: Lut, at: Lut) -> Seq<bool> { coef(dt, cat(b[0] - prevdc), b[0] - prevdc) + ac(b, 1, 0, at) }
#[verifier::opaque]
pub open spec fn dc_table(t: Lut) -> bool { t.len() == 256 && forall|s: int| 0 <= s <= 11 ==> #[trigger] has(t, s) }
#[verifier::opaque]
pub open spec fn ac_table(t: Lut) -> bool { t.len() == 256 && has(t, 0) && has(t, 0xF0) && forall|r: int, s: int| 0 <= r <= 15 && 1 <= s <= 10 ==> has(t, #[trigger] (r * 16 + s)) }
#[verifier::external_body]
pub fn vx_unzigzag_from(n: usize) -> (r: Vec<&'static u8>)
    requires n <= unzigzag().len(), ensures r@.len() == unzigzag().len() - n, forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == unzigzag()[n + k] { unimplemented!() }
#[verifier::external_body]
pub fn vx_unzigzag(n: usize) -> (r: u8) requires n < unzigzag().len(), ensures r == unzigzag()[n as int] { unimplemented!() }
impl<W: Write> BitWriter<W> {
//@fn src/codecs/jpeg/encoder.rs huffman_encode ret=res vis=pub
//@ panics forbid
//@ spec
    requires old(self).wf(), has($n1@, $n0 as int),
    ensures res.is_ok() ==> final(self).put(old(self), huff($n1@, $n0 as int)),
//@end
//@fn src/codecs/jpeg/encoder.rs write_block ret=res vis=pub
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ subst? `&UNZIGZAG[$A..]` => `vx_unzigzag_from($A)`
//@ subst? `UNZIGZAG[$A]` => `vx_unzigzag($A)`
//@ forvec 0 `vx_unzigzag_from($A)` => `vx_unzigzag_from($A)`
//@ spec
    requires old(self).wf(), dc_table($n2@), ac_table($n3@),
        // the magnitudes that baseline coding of 8-bit samples allows
        forall|k: int| 0 <= k < 64 ==> -2047 <= #[trigger] $n0[k] <= 2047, forall|k: int| 1 <= k < 64 ==> -1023 <= #[trigger] $n0[k] <= 1023, -2047 <= $n0[0] - $n1 <= 2047,
    ensures res matches Ok(dc) ==> dc == $n0[0] && final(self).put(old(self), block_bits($n0@, $n1 as int, $n2@, $n3@)),
//@ at body.start
    let ghost (o0, p0) = (self.out(), self.pending());
    let ghost d0 = block[0] - prevdc;
    proof { reveal(block_bits); reveal(dc_table); reveal(ac_table); table_zigzag(); lemma_p2(); coefficient_is_recovered(d0); lemma_bl_le(if d0 < 0 { -d0 } else { d0 }, 11); lemma_bl(if d0 < 0 { -d0 } else { d0 }); lemma_emits_nil(o0, p0); }
//@ at before `self.huffman_encode(size, dctable)?`
    proof { assert(has(dctable@, size as int)); }
//@ at after `self.huffman_encode(size, dctable)?;`
    let ghost (o1, p1) = (self.out(), self.pending());
//@ at before `let mut zero_run`
    let ghost mut pre = coef(dctable@, cat(d0), d0);
    proof { lemma_emits_add(o0, p0, o1, p1, self.out(), self.pending(), huff(dctable@, cat(d0)), bitseq(extra(d0), cat(d0))); }
    let ghost all = block_bits(block@, prevdc as int, dctable@, actable@);
//@ loop 0 forvec
    invariant vxi0.len() == 63, vxk0 <= 63, 0 <= zero_run <= vxk0, forall|j: int| 0 <= j < 63 ==> *(#[trigger] vxi0@[j]) == unzigzag()[j + 1],
        vxk0 == 63 ==> ((zero_run == 0) <==> (block[zz(63)] != 0)),
        self.wf(), emits(o0, p0, self.out(), self.pending(), pre), pre + ac(block@, vxk0 + 1, zero_run as int, actable@) == all,
    decreases 63 - vxk0,
//@ at loop0.start
    let ghost kk = vxk0 as int + 1;
//@ at before `if block[k as usize] == 0`
    proof { reveal(ac); lemma_zz(kk); assert(k == zz(kk)); }
    let ghost run0 = zero_run as int;
    let ghost (c, tail) = (block[zz(kk)] as int, ac(block@, kk + 1, 0, actable@));
    let ghost sym = (run0 % 16) * 16 + cat(c);
    proof {
        lemma_bl_le(if c < 0 { -c } else { c }, 10); lemma_bl(if c < 0 { -c } else { c }); coefficient_is_recovered(c);
        if c != 0 { assert(pre + (zrl(actable@, run0) + coef(actable@, sym, c) + tail) =~= pre + zrl(actable@, run0) + coef(actable@, sym, c) + tail); assert(has(actable@, (run0 % 16) * 16 + cat(c))); }
    }
//@ loop 1 while
    invariant 0 <= zero_run <= run0, zero_run as int % 16 == run0 % 16, self.wf(), emits(o0, p0, self.out(), self.pending(), pre),
        pre + zrl(actable@, zero_run as int) + coef(actable@, sym, c) + tail == all,
    decreases zero_run,
//@ at loop1.start
    let ghost (o1, p1, run1) = (self.out(), self.pending(), zero_run as int);
//@ at loop1.end
    proof {
        reveal(zrl);
        lemma_emits_add(o0, p0, o1, p1, self.out(), self.pending(), pre, huff(actable@, 0xF0));
        assert(pre + (huff(actable@, 0xF0) + zrl(actable@, run1 - 16)) =~= (pre + huff(actable@, 0xF0)) + zrl(actable@, run1 - 16));
        pre = pre + huff(actable@, 0xF0);
    }
//@ at loop1.after
    let ghost (o1, p1) = (self.out(), self.pending());
    proof { reveal(zrl); assert(pre + Seq::<bool>::empty() =~= pre); assert(zero_run < 16); lemma_sym(zero_run, cat(c) as u8); }
//@ at before `self.write_bits(value, size)?; zero_run`
    let ghost (o2, p2) = (self.out(), self.pending());
//@ at after `self.huffman_encode(symbol, actable)?; self.write_bits(value, size)?;`
    proof {
        lemma_emits_add(o1, p1, o2, p2, self.out(), self.pending(), huff(actable@, sym), bitseq(extra(c), cat(c)));
        lemma_emits_add(o0, p0, o1, p1, self.out(), self.pending(), pre, coef(actable@, sym, c));
        pre = pre + coef(actable@, sym, c);
    }
//@ at loop0.after
    let ghost (o3, p3) = (self.out(), self.pending());
    proof { reveal(ac); lemma_zz(63); }
//@ at before `Ok(dcval)`
    proof {
        if block[zz(63)] == 0 { lemma_emits_add(o0, p0, o3, p3, self.out(), self.pending(), pre, huff(actable@, 0)); }
        else { assert(pre + Seq::<bool>::empty() =~= pre); }
    }
//@end
}
proof fn lemma_shl1(k: u16) requires k <= 15 ensures (1u16 << k) as int == p2(k as int)
{
    lemma_p2();
    assert(1u16 << 0u16 == 1 && 1u16 << 1u16 == 2 && 1u16 << 2u16 == 4 && 1u16 << 3u16 == 8 && 1u16 << 4u16 == 16 && 1u16 << 5u16 == 32 && 1u16 << 6u16 == 64 && 1u16 << 7u16 == 128) by (bit_vector);
    assert(1u16 << 8u16 == 256 && 1u16 << 9u16 == 512 && 1u16 << 10u16 == 1024 && 1u16 << 11u16 == 2048 && 1u16 << 12u16 == 4096 && 1u16 << 13u16 == 8192 && 1u16 << 14u16 == 16384 && 1u16 << 15u16 == 32768) by (bit_vector);
}
proof fn lemma_join(a: u32, n: u32, v: u16, s: u32)
    requires n < 8, 1 <= s <= 16, a << n == 0, s == 16 || v < (1u16 << (s as u16))
    ensures ({ let f = a | ((v as u32) << ((32 - n - s) as u32));
        f << ((n + s) as u32) == 0 && (forall|i: u32| #![trigger bit32(f, i as int)] i < n ==> bit32(f, i as int) == bit32(a, i as int))
        && forall|i: int| #![trigger bit32(f, i)] n <= i < n + s ==> bit32(f, i) == ((v >> ((s - 1 - (i - n)) as u16)) & 1 == 1) })
{
    let sh = (32 - n - s) as u32; let f = a | ((v as u32) << sh);
    assert(f << ((n + s) as u32) == 0) by (bit_vector) requires n < 8, 1 <= s <= 16, a << n == 0, sh == 32 - n - s, f == a | ((v as u32) << sh);
    assert forall|i: u32| #![trigger bit32(f, i as int)] i < n implies bit32(f, i as int) == bit32(a, i as int) by {
        let k = (31 - i) as u32;
        assert((f >> k) & 1 == (a >> k) & 1) by (bit_vector) requires n < 8, 1 <= s <= 16, i < n, k == 31 - i, sh == 32 - n - s, f == a | ((v as u32) << sh), s == 16 || v < (1u16 << (s as u16));
    }
    assert forall|i: int| #![trigger bit32(f, i)] n <= i < n + s implies bit32(f, i) == ((v >> ((s - 1 - (i - n)) as u16)) & 1 == 1) by {
        let k = (31 - i) as u32; let j = (s - 1 - (i - n)) as u32; let j16 = j as u16;
        assert((v >> j16) & 1 == 1 <==> ((v as u32) >> j) & 1 == 1) by (bit_vector) requires j < 16, j16 == j as u16;
        assert((f >> k) & 1 == ((v as u32) >> j) & 1) by (bit_vector) requires n < 8, 1 <= s <= 16, a << n == 0, k < 32 - n, k >= 32 - n - s, j == k - (32 - n - s), sh == 32 - n - s, f == a | ((v as u32) << sh);
    }
}
proof fn lemma_byte(a: u32, n: u32)
    requires 8 <= n <= 23, a << n == 0
    ensures (a << 8) << ((n - 8) as u32) == 0, forall|i: int| 0 <= i < 8 ==> #[trigger] bit8((a >> 24) as u8, i) == bit32(a, i), forall|i: int| 0 <= i < n - 8 ==> #[trigger] bit32(a << 8, i) == bit32(a, i + 8)
{
    assert((a << 8) << ((n - 8) as u32) == 0) by (bit_vector) requires 8 <= n <= 23, a << n == 0;
    assert forall|i: int| 0 <= i < 8 implies #[trigger] bit8((a >> 24) as u8, i) == bit32(a, i) by {
        let k = (7 - i) as u8; let m = (31 - i) as u32; let b = (a >> 24) as u8;
        assert((b >> k) & 1 == 1 <==> (a >> m) & 1 == 1) by (bit_vector) requires k < 8, m == k + 24, b == (a >> 24) as u8;
    }
    assert forall|i: int| 0 <= i < n - 8 implies #[trigger] bit32(a << 8, i) == bit32(a, i + 8) by {
        let k = (31 - i) as u32; let m = (31 - (i + 8)) as u32;
        assert(((a << 8) >> k) & 1 == (a >> m) & 1) by (bit_vector) requires 8 <= k < 32, m == k - 8;
    }
}
// ---- Huffman tables (Annex C): BITS gives the number of codes of each length ----
pub open spec fn hsum(b: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 0 } else { hsum(b, i - 1) + b[i - 1] } }
pub open spec fn sz(b: Seq<u8>, k: int, l: int) -> int decreases 16 - l { if l >= 16 { 0 } else if k < hsum(b, l + 1) { l + 1 } else { sz(b, k, l + 1) } }
// HUFFSIZE and HUFFCODE of the k-th code: successive codes count up, and are extended with zeros when the length grows
pub open spec fn size_of_code(b: Seq<u8>, k: int) -> int { sz(b, k, 0) }
#[verifier::opaque]
pub open spec fn hcode(b: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else { (hcode(b, k - 1) + 1) * p2(size_of_code(b, k) - size_of_code(b, k - 1)) } }
// the lengths describe a code: at most 255 codes, and no code reaches the all-ones code of its length
pub open spec fn valid_bits(b: Seq<u8>) -> bool { b.len() == 16 && hsum(b, 16) <= 255 && forall|k: int| 0 <= k < hsum(b, 16) ==> #[trigger] hcode(b, k) < p2(size_of_code(b, k)) - 1 }
proof fn lemma_hsum_mono(b: Seq<u8>, i: int, j: int) requires 0 <= i <= j ensures 0 <= hsum(b, i) <= hsum(b, j) decreases j { if i < j { lemma_hsum_mono(b, i, j - 1); } else if i > 0 { lemma_hsum_mono(b, i - 1, j - 1); } }
proof fn lemma_sz(b: Seq<u8>, k: int, l: int, m: int)
    requires 0 <= m <= l < 16, hsum(b, l) <= k < hsum(b, l + 1), ensures sz(b, k, m) == l + 1 decreases l - m
{ if m < l { lemma_hsum_mono(b, m + 1, l); lemma_sz(b, k, l, m + 1); } }
proof fn lemma_sz_end(b: Seq<u8>, k: int, m: int) requires 0 <= m <= 16, hsum(b, 16) <= k ensures sz(b, k, m) == 0 decreases 16 - m { if m < 16 { lemma_hsum_mono(b, m + 1, 16); lemma_sz_end(b, k, m + 1); } }
proof fn lemma_sz_mono(b: Seq<u8>, k: int, j: int, m: int)
    requires 0 <= m <= 16, hsum(b, m) <= k <= j < hsum(b, 16), ensures m < sz(b, k, m) <= sz(b, j, m) <= 16 decreases 16 - m
{ if m == 16 { } else if j < hsum(b, m + 1) { } else if k < hsum(b, m + 1) { lemma_sz_pos(b, j, m + 1); } else { lemma_sz_mono(b, k, j, m + 1); } }
proof fn lemma_sz_pos(b: Seq<u8>, j: int, m: int) requires 0 <= m <= 16, hsum(b, m) <= j < hsum(b, 16) ensures m < sz(b, j, m) <= 16 decreases 16 - m { if m < 16 && !(j < hsum(b, m + 1)) { lemma_sz_pos(b, j, m + 1); } }
proof fn lemma_p2_add(a: int, b: int) requires 0 <= a, 0 <= b ensures p2(a + b) == p2(a) * p2(b), p2(a) >= 1 decreases a
{ reveal(p2); if a > 0 { lemma_p2_add(a - 1, b); assert(2 * (p2(a - 1) * p2(b)) == (2 * p2(a - 1)) * p2(b)) by (nonlinear_arith); } }
proof fn lemma_code_ge(b: Seq<u8>, i: int, j: int)
    requires 0 <= i < j < hsum(b, 16)
    ensures hcode(b, j) >= (hcode(b, i) + 1) * p2(size_of_code(b, j) - size_of_code(b, i)), size_of_code(b, i) <= size_of_code(b, j), hcode(b, i) >= 0
    decreases j
{
    reveal(hcode); lemma_hsum_mono(b, 0, 16);
    lemma_sz_mono(b, i, j, 0); lemma_sz_mono(b, j - 1, j, 0); lemma_code_pos(b, i);
    let (si, sj, sp) = (size_of_code(b, i), size_of_code(b, j), size_of_code(b, j - 1));
    if j - 1 > i {
        lemma_code_ge(b, i, j - 1); lemma_sz_mono(b, i, j - 1, 0);
        lemma_p2_add(sp - si, sj - sp); lemma_p2_add(sj - sp, 0);
        let (c, d, x, y) = (hcode(b, i) + 1, hcode(b, j - 1) + 1, p2(sp - si), p2(sj - sp));
        assert(d * y >= (c * x) * y) by (nonlinear_arith) requires d >= c * x, y >= 1;
        assert((c * x) * y == c * (x * y)) by (nonlinear_arith);
    }
}
proof fn lemma_code_pos(b: Seq<u8>, i: int) requires 0 <= i < hsum(b, 16) ensures hcode(b, i) >= 0 decreases i
{
    reveal(hcode);
    if i > 0 { lemma_code_pos(b, i - 1); lemma_sz_mono(b, i - 1, i, 0); lemma_p2_add(size_of_code(b, i) - size_of_code(b, i - 1), 0); assert((hcode(b, i - 1) + 1) * p2(size_of_code(b, i) - size_of_code(b, i - 1)) >= 0) by (nonlinear_arith) requires hcode(b, i - 1) >= 0, p2(size_of_code(b, i) - size_of_code(b, i - 1)) >= 1; }
}
// the codes are prefix-free: no code is the beginning of a later one
proof fn codes_are_prefix_free(b: Seq<u8>, i: int, j: int)
    requires 0 <= i < j < hsum(b, 16)
    ensures hcode(b, j) / p2(size_of_code(b, j) - size_of_code(b, i)) > hcode(b, i)
{
    lemma_code_ge(b, i, j); lemma_p2_add(size_of_code(b, j) - size_of_code(b, i), 0);
    let (c, p) = (hcode(b, i) + 1, p2(size_of_code(b, j) - size_of_code(b, i)));
    assert(hcode(b, j) / p >= c) by (nonlinear_arith) requires hcode(b, j) >= c * p, p >= 1;
}
//@fn src/codecs/jpeg/entropy.rs derive_codes_and_sizes ret=res vis=pub
//@ panics forbid
//@ sigsubst? `const fn` => `fn`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires valid_bits($n0@),
    ensures forall|q: int| 0 <= q < hsum($n0@, 16) ==> (#[trigger] res.0[q]) == size_of_code($n0@, q) && res.1[q] == hcode($n0@, q),
        forall|q: int| hsum($n0@, 16) <= q < 256 ==> (#[trigger] res.0[q]) == 0,
//@ at body.start
    let ghost (b, n) = ($n0@, hsum($n0@, 16));
    proof { lemma_hsum_mono(b, 0, 16); }
//@ loop 0 while
    invariant 0 <= i <= 16, k == hsum(b, i as int), k <= n,
        forall|q: int| 0 <= q < k ==> (#[trigger] huffsize[q]) == size_of_code(b, q), forall|q: int| k <= q < 256 ==> (#[trigger] huffsize[q]) == 0,
    decreases 16 - i,
//@ at loop0.start
    proof { lemma_hsum_mono(b, i + 1, 16); }
//@ loop 1 while
    invariant 0 <= i < 16, 0 <= j <= b[i as int], k == hsum(b, i as int) + j, hsum(b, i + 1) <= n,
        forall|q: int| 0 <= q < k ==> (#[trigger] huffsize[q]) == size_of_code(b, q), forall|q: int| k <= q < 256 ==> (#[trigger] huffsize[q]) == 0,
    decreases b[i as int] - j,
//@ at loop1.start
    proof { lemma_sz(b, k as int, i as int, 0); }
//@ at before `k = 0; let mut code`
    proof { assert(k == n); lemma_sz_end(b, n, 0); reveal(hcode); }
//@ loop 2 while
    invariant 0 <= k <= n, size == huffsize[k as int], k < n ==> code == hcode(b, k as int),
        forall|q: int| 0 <= q < k ==> (#[trigger] huffcode[q]) == hcode(b, q),
    decreases n - k,
//@ at loop2.start
    proof {
        reveal(hcode); lemma_p2();
        assert(k < n); lemma_sz_pos(b, k as int, 0); lemma_p2_mono(size as int, 16);
        if k + 1 < n { lemma_sz_mono(b, k as int, k + 1, 0); lemma_sz_pos(b, k + 1, 0); lemma_p2_mono(size_of_code(b, k + 1), 16); assert(hcode(b, k + 1) == (code + 1) * p2(size_of_code(b, k + 1) - size_of_code(b, k as int))); assert(hcode(b, k as int) < p2(size as int) - 1); lemma_shlv((code + 1) as u16, (size_of_code(b, k + 1) - size) as u8); }
    }
//@ at loop2.after
    proof { if k < n { lemma_sz_pos(b, k as int, 0); } }
//@end
// the lookup table gives every value its code, and other symbols the impossible length 17
pub open spec fn is_lut(t: Lut, b: Seq<u8>, vals: Seq<u8>) -> bool {
    &&& t.len() == 256
    &&& forall|q: int| 0 <= q < vals.len() ==> (#[trigger] t[vals[q] as int]).0 == size_of_code(b, q) && t[vals[q] as int].1 == hcode(b, q)
    &&& forall|v: u8| !vals.contains(v) ==> #[trigger] t[v as int] == (17u8, 0u16)
}
pub open spec fn distinct(v: Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] != v[j] }
//@fn src/codecs/jpeg/entropy.rs build_huff_lut_const ret=res vis=pub
//@ panics forbid
//@ sigsubst? `const fn` => `fn`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires valid_bits($n0@), $n1@.len() == hsum($n0@, 16), distinct($n1@),
    ensures is_lut(res@, $n0@, $n1@),
//@ loop 0 while
    invariant 0 <= i <= $n1@.len(),
        forall|q: int| 0 <= q < i ==> (#[trigger] lut[$n1@[q] as int]).0 == size_of_code($n0@, q) && lut[$n1@[q] as int].1 == hcode($n0@, q),
        forall|v: u8| !$n1@.contains(v) ==> #[trigger] lut[v as int] == (17u8, 0u16),
    decreases $n1@.len() - i,
//@ at loop0.start
    let ghost l0 = lut@;
    proof { assert($n1@.contains($n1@[i as int])); assert(huffsize[i as int] == size_of_code($n0@, i as int)); }
//@end
//@table src/codecs/jpeg/encoder.rs static STD_LUMA_DC_CODE_LENGTHS as=ldc_bits type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_LUMA_DC_VALUES as=ldc_vals type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_CHROMA_DC_CODE_LENGTHS as=cdc_bits type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_CHROMA_DC_VALUES as=cdc_vals type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_LUMA_AC_CODE_LENGTHS as=lac_bits type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_LUMA_AC_VALUES as=lac_vals type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_CHROMA_AC_CODE_LENGTHS as=cac_bits type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_CHROMA_AC_VALUES as=cac_vals type="Seq<u8>"
// computable checks of the four standard tables
pub open spec fn pw(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pw(n - 1) } }
proof fn lemma_pw(n: int) ensures pw(n) == p2(n) decreases n { reveal(p2); if n > 0 { lemma_pw(n - 1); } }
spec fn ck_codes(b: Seq<u8>, k: int, c: int, s: int, n: int) -> bool decreases n - k {
    if k >= n { true } else { let z = size_of_code(b, k); let d = if k == 0 { 0 } else { (c + 1) * pw(z - s) }; d < pw(z) - 1 && ck_codes(b, k + 1, d, z, n) }
}
proof fn lemma_ck(b: Seq<u8>, k: int, c: int, s: int, n: int)
    requires ck_codes(b, k, c, s, n), 0 <= k, k > 0 ==> c == hcode(b, k - 1) && s == size_of_code(b, k - 1)
    ensures forall|q: int| k <= q < n ==> #[trigger] hcode(b, q) < p2(size_of_code(b, q)) - 1 decreases n - k
{
    if k < n {
        reveal(hcode); let z = size_of_code(b, k); lemma_pw(z); lemma_pw(z - s);
        let d = if k == 0 { 0 } else { (c + 1) * pw(z - s) };
        assert(hcode(b, k) == d); lemma_ck(b, k + 1, d, z, n);
    }
}
spec fn idx(v: Seq<u8>, x: int, i: int) -> int decreases v.len() - i { if i >= v.len() { -1 } else if v[i] == x { i } else { idx(v, x, i + 1) } }
proof fn lemma_idx(v: Seq<u8>, x: int, i: int) requires 0 <= i ensures idx(v, x, i) >= 0 ==> i <= idx(v, x, i) < v.len() && v[idx(v, x, i)] == x decreases v.len() - i { if i < v.len() && v[i] != x { lemma_idx(v, x, i + 1); } }
// every value is the first of its kind
spec fn ck_distinct(v: Seq<u8>, n: int) -> bool decreases n { n <= 0 || (idx(v, v[n - 1] as int, 0) == n - 1 && ck_distinct(v, n - 1)) }
proof fn lemma_first(v: Seq<u8>, x: int, i: int, j: int) requires 0 <= i <= j < v.len(), v[j] == x ensures 0 <= idx(v, x, i) <= j decreases j - i { if v[i] != x { lemma_first(v, x, i + 1, j); } }
proof fn lemma_ckd(v: Seq<u8>, n: int) requires ck_distinct(v, n), n <= v.len() ensures forall|i: int, j: int| 0 <= i < j < n ==> v[i] != v[j] decreases n
{ if n > 0 { lemma_ckd(v, n - 1); assert forall|i: int| 0 <= i < n - 1 implies #[trigger] v[i] != v[n - 1] by { if v[i] == v[n - 1] { lemma_first(v, v[n - 1] as int, 0, i); } } } }
spec fn ck_dc(v: Seq<u8>, s: int) -> bool decreases 12 - s { s >= 12 || (idx(v, s, 0) >= 0 && ck_dc(v, s + 1)) }
spec fn ck_ac(v: Seq<u8>, x: int) -> bool decreases 256 - x { x >= 256 || ((1 <= x % 16 <= 10 || x == 0 || x == 0xF0 ==> idx(v, x, 0) >= 0) && ck_ac(v, x + 1)) }
proof fn lemma_ck_dc(v: Seq<u8>, s: int, x: int) requires ck_dc(v, s), 0 <= s <= x < 12 ensures v.contains(x as u8) decreases 12 - s { if s < x { lemma_ck_dc(v, s + 1, x); } else { lemma_idx(v, x, 0); } }
proof fn lemma_ck_ac(v: Seq<u8>, s: int, x: int) requires ck_ac(v, s), 0 <= s <= x < 256, 1 <= x % 16 <= 10 || x == 0 || x == 0xF0 ensures v.contains(x as u8) decreases 256 - s { if s < x { lemma_ck_ac(v, s + 1, x); } else { lemma_idx(v, x, 0); } }
pub open spec fn good(b: Seq<u8>, v: Seq<u8>) -> bool { valid_bits(b) && v.len() == hsum(b, 16) && distinct(v) }
proof fn lemma_good(b: Seq<u8>, v: Seq<u8>)
    requires b.len() == 16, hsum(b, 16) == v.len() <= 255, ck_codes(b, 0, 0, 0, hsum(b, 16)), ck_distinct(v, v.len() as int), ensures good(b, v)
{ lemma_ck(b, 0, 0, 0, hsum(b, 16)); lemma_ckd(v, v.len() as int); }
proof fn table_luma_dc() ensures good(ldc_bits(), ldc_vals()), forall|s: u8| 0 <= s < 12 ==> ldc_vals().contains(s)
{
    assert(ldc_bits().len() == 16 && hsum(ldc_bits(), 16) == ldc_vals().len() && ldc_vals().len() <= 255 && ck_codes(ldc_bits(), 0, 0, 0, hsum(ldc_bits(), 16)) && ck_distinct(ldc_vals(), ldc_vals().len() as int) && ck_dc(ldc_vals(), 0)) by (compute_only);
    lemma_good(ldc_bits(), ldc_vals()); assert forall|s: u8| 0 <= s < 12 implies ldc_vals().contains(s) by { lemma_ck_dc(ldc_vals(), 0, s as int); }
}
proof fn table_chroma_dc() ensures good(cdc_bits(), cdc_vals()), forall|s: u8| 0 <= s < 12 ==> cdc_vals().contains(s)
{
    assert(cdc_bits().len() == 16 && hsum(cdc_bits(), 16) == cdc_vals().len() && cdc_vals().len() <= 255 && ck_codes(cdc_bits(), 0, 0, 0, hsum(cdc_bits(), 16)) && ck_distinct(cdc_vals(), cdc_vals().len() as int) && ck_dc(cdc_vals(), 0)) by (compute_only);
    lemma_good(cdc_bits(), cdc_vals()); assert forall|s: u8| 0 <= s < 12 implies cdc_vals().contains(s) by { lemma_ck_dc(cdc_vals(), 0, s as int); }
}
pub open spec fn ac_sym(s: u8) -> bool { 1 <= s % 16 <= 10 || s == 0 || s == 0xF0 }
proof fn table_luma_ac() ensures good(lac_bits(), lac_vals()), forall|s: u8| #[trigger] ac_sym(s) ==> lac_vals().contains(s)
{
    assert(lac_bits().len() == 16 && hsum(lac_bits(), 16) == lac_vals().len() && lac_vals().len() <= 255 && ck_codes(lac_bits(), 0, 0, 0, hsum(lac_bits(), 16)) && ck_distinct(lac_vals(), lac_vals().len() as int) && ck_ac(lac_vals(), 0)) by (compute_only);
    lemma_good(lac_bits(), lac_vals()); assert forall|s: u8| #[trigger] ac_sym(s) implies lac_vals().contains(s) by { lemma_ck_ac(lac_vals(), 0, s as int); }
}
proof fn table_chroma_ac() ensures good(cac_bits(), cac_vals()), forall|s: u8| #[trigger] ac_sym(s) ==> cac_vals().contains(s)
{
    assert(cac_bits().len() == 16 && hsum(cac_bits(), 16) == cac_vals().len() && cac_vals().len() <= 255 && ck_codes(cac_bits(), 0, 0, 0, hsum(cac_bits(), 16)) && ck_distinct(cac_vals(), cac_vals().len() as int) && ck_ac(cac_vals(), 0)) by (compute_only);
    lemma_good(cac_bits(), cac_vals()); assert forall|s: u8| #[trigger] ac_sym(s) implies cac_vals().contains(s) by { lemma_ck_ac(cac_vals(), 0, s as int); }
}
// tables built from good lengths and values are what the block coder needs
proof fn lemma_lut_has(t: Lut, b: Seq<u8>, v: Seq<u8>, s: u8) requires good(b, v), is_lut(t, b, v), v.contains(s) ensures has(t, s as int)
{
    let q = choose|q: int| 0 <= q < v.len() && v[q] == s;
    lemma_sz_pos(b, q, 0); lemma_code_pos(b, q);
}
proof fn lemma_dc_table(t: Lut, b: Seq<u8>, v: Seq<u8>) requires good(b, v), is_lut(t, b, v), forall|s: u8| 0 <= s < 12 ==> v.contains(s) ensures dc_table(t)
{ reveal(dc_table); assert forall|s: int| 0 <= s <= 11 implies #[trigger] has(t, s) by { lemma_lut_has(t, b, v, s as u8); } }
proof fn lemma_ac_table(t: Lut, b: Seq<u8>, v: Seq<u8>) requires good(b, v), is_lut(t, b, v), forall|s: u8| #[trigger] ac_sym(s) ==> v.contains(s) ensures ac_table(t)
{
    reveal(ac_table);
    assert(ac_sym(0) && ac_sym(0xF0)); lemma_lut_has(t, b, v, 0); lemma_lut_has(t, b, v, 0xF0);
    assert forall|r: int, s: int| 0 <= r <= 15 && 1 <= s <= 10 implies has(t, #[trigger] (r * 16 + s)) by { let x = (r * 16 + s) as u8; assert(x % 16 == s); assert(ac_sym(x)); lemma_lut_has(t, b, v, x); }
}
#[verifier::external_body] pub fn vx_ldc_bits() -> (r: &'static [u8; 16]) ensures r@ == ldc_bits() { unimplemented!() }
#[verifier::external_body] pub fn vx_ldc_vals() -> (r: &'static [u8; 12]) ensures r@ == ldc_vals() { unimplemented!() }
#[verifier::external_body] pub fn vx_cdc_bits() -> (r: &'static [u8; 16]) ensures r@ == cdc_bits() { unimplemented!() }
#[verifier::external_body] pub fn vx_cdc_vals() -> (r: &'static [u8; 12]) ensures r@ == cdc_vals() { unimplemented!() }
#[verifier::external_body] pub fn vx_lac_bits() -> (r: &'static [u8; 16]) ensures r@ == lac_bits() { unimplemented!() }
#[verifier::external_body] pub fn vx_lac_vals() -> (r: &'static [u8; 162]) ensures r@ == lac_vals() { unimplemented!() }
#[verifier::external_body] pub fn vx_cac_bits() -> (r: &'static [u8; 16]) ensures r@ == cac_bits() { unimplemented!() }
#[verifier::external_body] pub fn vx_cac_vals() -> (r: &'static [u8; 162]) ensures r@ == cac_vals() { unimplemented!() }
//@fn src/codecs/jpeg/encoder.rs STD_LUMA_DC_HUFF_LUT init=static as=ldc_lut ret=res vis=pub
//@ subst? `&STD_LUMA_DC_CODE_LENGTHS` => `vx_ldc_bits()`
//@ subst? `&STD_LUMA_DC_VALUES` => `vx_ldc_vals()`
//@ subst? `&STD_CHROMA_DC_CODE_LENGTHS` => `vx_cdc_bits()`
//@ subst? `&STD_CHROMA_DC_VALUES` => `vx_cdc_vals()`
//@ subst? `&STD_LUMA_AC_CODE_LENGTHS` => `vx_lac_bits()`
//@ subst? `&STD_LUMA_AC_VALUES` => `vx_lac_vals()`
//@ subst? `&STD_CHROMA_AC_CODE_LENGTHS` => `vx_cac_bits()`
//@ subst? `&STD_CHROMA_AC_VALUES` => `vx_cac_vals()`
//@ spec
    ensures is_lut(res@, ldc_bits(), ldc_vals()), dc_table(res@),
//@ at body.start
    proof { table_luma_dc(); assert forall|t: Lut| is_lut(t, ldc_bits(), ldc_vals()) implies #[trigger] dc_table(t) by { lemma_dc_table(t, ldc_bits(), ldc_vals()); } }
//@end
//@fn src/codecs/jpeg/encoder.rs STD_CHROMA_DC_HUFF_LUT init=static as=cdc_lut ret=res vis=pub
//@ subst? `&STD_LUMA_DC_CODE_LENGTHS` => `vx_ldc_bits()`
//@ subst? `&STD_LUMA_DC_VALUES` => `vx_ldc_vals()`
//@ subst? `&STD_CHROMA_DC_CODE_LENGTHS` => `vx_cdc_bits()`
//@ subst? `&STD_CHROMA_DC_VALUES` => `vx_cdc_vals()`
//@ subst? `&STD_LUMA_AC_CODE_LENGTHS` => `vx_lac_bits()`
//@ subst? `&STD_LUMA_AC_VALUES` => `vx_lac_vals()`
//@ subst? `&STD_CHROMA_AC_CODE_LENGTHS` => `vx_cac_bits()`
//@ subst? `&STD_CHROMA_AC_VALUES` => `vx_cac_vals()`
//@ spec
    ensures is_lut(res@, cdc_bits(), cdc_vals()), dc_table(res@),
//@ at body.start
    proof { table_chroma_dc(); assert forall|t: Lut| is_lut(t, cdc_bits(), cdc_vals()) implies #[trigger] dc_table(t) by { lemma_dc_table(t, cdc_bits(), cdc_vals()); } }
//@end
//@fn src/codecs/jpeg/encoder.rs STD_LUMA_AC_HUFF_LUT init=static as=lac_lut ret=res vis=pub
//@ subst? `&STD_LUMA_DC_CODE_LENGTHS` => `vx_ldc_bits()`
//@ subst? `&STD_LUMA_DC_VALUES` => `vx_ldc_vals()`
//@ subst? `&STD_CHROMA_DC_CODE_LENGTHS` => `vx_cdc_bits()`
//@ subst? `&STD_CHROMA_DC_VALUES` => `vx_cdc_vals()`
//@ subst? `&STD_LUMA_AC_CODE_LENGTHS` => `vx_lac_bits()`
//@ subst? `&STD_LUMA_AC_VALUES` => `vx_lac_vals()`
//@ subst? `&STD_CHROMA_AC_CODE_LENGTHS` => `vx_cac_bits()`
//@ subst? `&STD_CHROMA_AC_VALUES` => `vx_cac_vals()`
//@ spec
    ensures is_lut(res@, lac_bits(), lac_vals()), ac_table(res@),
//@ at body.start
    proof { table_luma_ac(); assert forall|t: Lut| is_lut(t, lac_bits(), lac_vals()) implies #[trigger] ac_table(t) by { lemma_ac_table(t, lac_bits(), lac_vals()); } }
//@end
//@fn src/codecs/jpeg/encoder.rs STD_CHROMA_AC_HUFF_LUT init=static as=cac_lut ret=res vis=pub
//@ subst? `&STD_LUMA_DC_CODE_LENGTHS` => `vx_ldc_bits()`
//@ subst? `&STD_LUMA_DC_VALUES` => `vx_ldc_vals()`
//@ subst? `&STD_CHROMA_DC_CODE_LENGTHS` => `vx_cdc_bits()`
//@ subst? `&STD_CHROMA_DC_VALUES` => `vx_cdc_vals()`
//@ subst? `&STD_LUMA_AC_CODE_LENGTHS` => `vx_lac_bits()`
//@ subst? `&STD_LUMA_AC_VALUES` => `vx_lac_vals()`
//@ subst? `&STD_CHROMA_AC_CODE_LENGTHS` => `vx_cac_bits()`
//@ subst? `&STD_CHROMA_AC_VALUES` => `vx_cac_vals()`
//@ spec
    ensures is_lut(res@, cac_bits(), cac_vals()), ac_table(res@),
//@ at body.start
    proof { table_chroma_ac(); assert forall|t: Lut| is_lut(t, cac_bits(), cac_vals()) implies #[trigger] ac_table(t) by { lemma_ac_table(t, cac_bits(), cac_vals()); } }
//@end
// ---- quantiser tables: scaled by quality as libjpeg does, between 1 and 255 ----
//@table src/codecs/jpeg/encoder.rs static STD_LUMA_QTABLE as=lq type="Seq<u8>"
//@table src/codecs/jpeg/encoder.rs static STD_CHROMA_QTABLE as=cq type="Seq<u8>"
pub open spec fn clampi(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn qscale(quality: u8) -> int { let q = clampi(quality as int, 1, 100); if q < 50 { 5000int / q } else { 200 - 2 * q } }
pub open spec fn qentry(v: u8, quality: u8) -> int { clampi((v * qscale(quality) + 50) / 100, 1, 255) }
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> { pub open spec fn val(self) -> T { match self { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } } }
pub type LutArr = [(u8, u16); 256];
#[verifier::external_body] pub fn vx_ldc_lut() -> (r: &'static LutArr) ensures is_lut(r@, ldc_bits(), ldc_vals()), dc_table(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_cdc_lut() -> (r: &'static LutArr) ensures is_lut(r@, cdc_bits(), cdc_vals()), dc_table(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_lac_lut() -> (r: &'static LutArr) ensures is_lut(r@, lac_bits(), lac_vals()), ac_table(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_cac_lut() -> (r: &'static LutArr) ensures is_lut(r@, cac_bits(), cac_vals()), ac_table(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_lq() -> (r: [u8; 64]) ensures r@ == lq() { unimplemented!() }
#[verifier::external_body] pub fn vx_cq() -> (r: [u8; 64]) ensures r@ == cq() { unimplemented!() }
//@item src/codecs/jpeg/encoder.rs static LUMADESTINATION vis=pub
//@item src/codecs/jpeg/encoder.rs static CHROMADESTINATION vis=pub
//@item src/codecs/jpeg/encoder.rs static LUMAID vis=pub
//@item src/codecs/jpeg/encoder.rs static CHROMABLUEID vis=pub
//@item src/codecs/jpeg/encoder.rs static CHROMAREDID vis=pub
//@item src/codecs/jpeg/encoder.rs struct Component vis=pub attrs="#[derive(Copy, Clone)]"
//@item src/codecs/jpeg/encoder.rs enum PixelDensityUnit vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
//@item src/codecs/jpeg/encoder.rs struct PixelDensity vis=pub attrs="#[derive(Copy, Clone)]"
//@item src/codecs/jpeg/encoder.rs struct JpegEncoder vis=pub
//@fn src/utils/mod.rs clamp ret=res vis=pub
//@ sigsubst `N: PartialOrd` => `N: PartialOrd + vstd::std_specs::cmp::PartialOrdSpec`
//@ panics forbid
//@ spec
    ensures N::obeys_partial_cmp_spec() ==> res == (if $n0.partial_cmp_spec(&$n1) == Some(core::cmp::Ordering::Less) { $n1 } else if $n0.partial_cmp_spec(&$n2) == Some(core::cmp::Ordering::Greater) { $n2 } else { $n0 }),
//@end
impl PixelDensity {
//@fn src/codecs/jpeg/encoder.rs default ctx="impl Default for PixelDensity" ret=res vis=pub
//@ panics forbid
//@ spec
    ensures res.density == (1u16, 1u16), res.unit == PixelDensityUnit::PixelAspectRatio,
//@end
}
#[verifier::opaque]
pub closed spec fn comps_ok(c: Seq<Component>) -> bool {
    c.len() == 3 && c[0].tq == 0 && c[1].tq == 1 && c[2].tq == 1
        && forall|k: int| 0 <= k < 3 ==> { let x = #[trigger] c[k]; x.id == k + 1 && x.h == 1 && x.v == 1 && x.dc_table == (if k == 0 { 0 } else { 1int }) && x.ac_table == (if k == 0 { 0 } else { 1int }) }
}
impl<W: Write> JpegEncoder<W> {
    pub closed spec fn q(&self, t: int, i: int) -> u8 { self.tables[t][i] }
    pub closed spec fn lut_ok(&self) -> bool { self.tables.len() == 2 && is_lut(self.luma_dctable.val()@, ldc_bits(), ldc_vals()) && is_lut(self.luma_actable.val()@, lac_bits(), lac_vals()) && is_lut(self.chroma_dctable.val()@, cdc_bits(), cdc_vals()) && is_lut(self.chroma_actable.val()@, cac_bits(), cac_vals()) }
    pub closed spec fn comps(&self) -> bool { comps_ok(self.components@) }
//@fn src/codecs/jpeg/encoder.rs new_with_quality ret=res vis=pub
//@ panics forbid
//@ subst? `tables.iter_mut().for_each(|t| {for v in t.iter_mut() {$A}});` => `let mut vxi: usize = 0; while vxi < tables.len() { let mut vxt = tables[vxi]; let mut vxj: usize = 0; while vxj < 64 { let v = &mut vxt[vxj]; $A vxj = vxj + 1; } tables.set(vxi, vxt); vxi = vxi + 1; }`
//@ subst? `STD_LUMA_QTABLE` => `vx_lq()`
//@ subst? `STD_CHROMA_QTABLE` => `vx_cq()`
//@ subst? `&STD_LUMA_DC_HUFF_LUT` => `vx_ldc_lut()`
//@ subst? `&STD_CHROMA_DC_HUFF_LUT` => `vx_cdc_lut()`
//@ subst? `&STD_LUMA_AC_HUFF_LUT` => `vx_lac_lut()`
//@ subst? `&STD_CHROMA_AC_HUFF_LUT` => `vx_cac_lut()`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures res.ready(), res.wr().out() == $n0.out(), res.icc().len() == 0, res.dens().density == (1u16, 1u16) && res.dens().unit == PixelDensityUnit::PixelAspectRatio, forall|i: int| 0 <= i < 64 ==> #[trigger] res.q(0, i) == qentry(lq()[i], $n1), forall|i: int| 0 <= i < 64 ==> #[trigger] res.q(1, i) == qentry(cq()[i], $n1),
//@ at body.start
    proof { reveal(comps_ok); }
//@ loop 0 while
    invariant vxi <= 2, tables.len() == 2, scale as int == qscale($n1),
        forall|t: int, i: int| 0 <= t < 2 && 0 <= i < 64 ==> (#[trigger] tables[t][i]) == (if t < vxi { qentry(if t == 0 { lq()[i] } else { cq()[i] }, $n1) } else if t == 0 { lq()[i] as int } else { cq()[i] as int }),
    decreases 2 - vxi,
//@ loop 1 while
    invariant vxj <= 64, vxi < 2,
        forall|i: int| 0 <= i < 64 ==> (#[trigger] vxt[i]) == (if i < vxj { qentry(if vxi == 0 { lq()[i] } else { cq()[i] }, $n1) } else if vxi == 0 { lq()[i] as int } else { cq()[i] as int }),
    decreases 64 - vxj,
//@ at loop1.start
    proof { let x = vxt[vxj as int]; assert(0 <= x * scale <= 255 * 5000) by (nonlinear_arith) requires 0 <= x <= 255, 0 <= scale <= 5000; }
//@end
}
proof fn lemma_shlv(v: u16, d: u8)
    requires d <= 15, v * p2(d as int) < 65536 ensures (v << (d as usize)) == v * p2(d as int)
{
    lemma_p2();
    let k = d as usize;
    assert(d == 0 ==> v << 0usize == v) by (bit_vector);
    assert(v < 32768 ==> v << 1usize == v * 2) by (bit_vector); assert(v < 16384 ==> v << 2usize == v * 4) by (bit_vector); assert(v < 8192 ==> v << 3usize == v * 8) by (bit_vector);
    assert(v < 4096 ==> v << 4usize == v * 16) by (bit_vector); assert(v < 2048 ==> v << 5usize == v * 32) by (bit_vector); assert(v < 1024 ==> v << 6usize == v * 64) by (bit_vector);
    assert(v < 512 ==> v << 7usize == v * 128) by (bit_vector); assert(v < 256 ==> v << 8usize == v * 256) by (bit_vector); assert(v < 128 ==> v << 9usize == v * 512) by (bit_vector);
    assert(v < 64 ==> v << 10usize == v * 1024) by (bit_vector); assert(v < 32 ==> v << 11usize == v * 2048) by (bit_vector); assert(v < 16 ==> v << 12usize == v * 4096) by (bit_vector);
    assert(v < 8 ==> v << 13usize == v * 8192) by (bit_vector); assert(v < 4 ==> v << 14usize == v * 16384) by (bit_vector); assert(v < 2 ==> v << 15usize == v * 32768) by (bit_vector);
}

// ---- marker segments ----
pub open spec fn mk(m: u8) -> Seq<u8> { seq![0xFFu8, m] }
pub open spec fn segment(m: u8, d: Seq<u8>) -> Seq<u8> { mk(m) + b16((d.len() + 2) as u16, false) + d }
impl<W: Write> BitWriter<W> {
//@fn src/codecs/jpeg/encoder.rs write_marker ret=res vis=pub
//@ panics forbid
//@ spec
    ensures final(self).wf() == old(self).wf(), final(self).pending() == old(self).pending(), res.is_ok() ==> final(self).out() == old(self).out() + mk($n0),
//@end
//@fn src/codecs/jpeg/encoder.rs write_segment ret=res vis=pub
//@ panics forbid
//@ bytes
//@ spec
    requires $n1@.len() <= 65533,
    ensures final(self).wf() == old(self).wf(), final(self).pending() == old(self).pending(), res.is_ok() ==> final(self).out() == old(self).out() + segment($n0, $n1@),
//@ at before `self.w.write_all(data)`
    proof { assert(self.out() + data@ =~= old(self).out() + segment($n0, $n1@)); }
//@end
}
pub open spec fn unit(u: PixelDensityUnit) -> u8 { match u { PixelDensityUnit::PixelAspectRatio => 0, PixelDensityUnit::Inches => 1, PixelDensityUnit::Centimeters => 2 } }
// JFIF 1.02, no thumbnail
pub open spec fn jfif(d: PixelDensity) -> Seq<u8> { seq![0x4Au8, 0x46u8, 0x49u8, 0x46u8, 0u8, 1u8, 2u8, unit(d.unit)] + b16(d.density.0, false) + b16(d.density.1, false) + seq![0u8, 0u8] }
// the frame: 8-bit samples, size, and for every component its number, sampling factors and quantiser
pub closed spec fn frame_comps(c: Seq<Component>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { frame_comps(c, k - 1) + seq![c[k - 1].id, ((c[k - 1].h << 4) | c[k - 1].v) as u8, c[k - 1].tq] } }
pub closed spec fn frame(p: u8, w: u16, h: u16, c: Seq<Component>) -> Seq<u8> { seq![p] + b16(h, false) + b16(w, false) + seq![c.len() as u8] + frame_comps(c, c.len() as int) }
pub closed spec fn scan_comps(c: Seq<Component>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { scan_comps(c, k - 1) + seq![c[k - 1].id, ((c[k - 1].dc_table << 4) | c[k - 1].ac_table) as u8] } }
pub closed spec fn scan(c: Seq<Component>) -> Seq<u8> { seq![c.len() as u8] + scan_comps(c, c.len() as int) + seq![0u8, 63u8, 0u8] }
pub open spec fn dht(class: u8, dest: u8, bits: Seq<u8>, vals: Seq<u8>) -> Seq<u8> { seq![((class << 4) | dest) as u8] + bits + vals }
// a quantiser is sent in zigzag order
pub open spec fn dqt(dest: u8, q: Seq<u8>) -> Seq<u8> { seq![dest] + Seq::new(64, |k: int| q[zz(k)]) }
#[verifier::external_body]
pub fn vx_sum(b: &[u8; 16]) -> (r: usize) ensures r == hsum(b@, 16) { b.iter().map(|&x| x as usize).sum() }
#[verifier::external_body]
pub fn vx_refs<'a, T>(b: &'a [T]) -> (r: Vec<&'a T>) ensures r@.len() == b@.len(), forall|k: int| 0 <= k < b@.len() ==> *(#[trigger] r@[k]) == b@[k] { b.iter().collect() }
#[verifier::external_body]
pub fn vx_unzigzag_all() -> (r: Vec<&'static u8>)
    ensures r@.len() == unzigzag().len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == unzigzag()[k] { unimplemented!() }
//@fn src/codecs/jpeg/encoder.rs build_jfif_header vis=pub
//@ panics forbid
//@ bytes
//@ spec
    ensures final($n0)@ == jfif($n1),
//@ at body.end
    proof { assert(m@ =~= jfif($n1)); }
//@end
//@fn src/codecs/jpeg/encoder.rs build_frame_header vis=pub
//@ panics forbid
//@ bytes
//@ forvec 0 `components` => `vx_refs(components)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n4@.len() < 256,
    ensures final($n0)@ == frame($n1, $n2, $n3, $n4@),
//@ at loop0.before
    let ghost pre = m@;
    proof { assert(pre =~= seq![$n1] + b16($n3, false) + b16($n2, false) + seq![$n4@.len() as u8]); assert(m@ =~= pre + frame_comps($n4@, 0)); }
//@ loop 0 forvec
    invariant vxi0@.len() == $n4@.len(), vxk0 <= vxi0@.len(), m@ == pre + frame_comps($n4@, vxk0 as int),
    decreases vxi0@.len() - vxk0,
//@ at loop0.end
    proof { assert(m@ =~= pre + frame_comps($n4@, vxk0 as int)); }
//@end
//@fn src/codecs/jpeg/encoder.rs build_scan_header vis=pub
//@ panics forbid
//@ forvec 0 `components` => `vx_refs(components)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n1@.len() < 256,
    ensures final($n0)@ == scan($n1@),
//@ at loop0.before
    let ghost pre = m@;
    proof { assert(pre =~= seq![$n1@.len() as u8]); assert(m@ =~= pre + scan_comps($n1@, 0)); }
//@ loop 0 forvec
    invariant vxi0@.len() == $n1@.len(), vxk0 <= vxi0@.len(), m@ == pre + scan_comps($n1@, vxk0 as int),
    decreases vxi0@.len() - vxk0,
//@ at loop0.end
    proof { assert(m@ =~= pre + scan_comps($n1@, vxk0 as int)); }
//@end
//@fn src/codecs/jpeg/encoder.rs build_huffman_segment vis=pub
//@ panics forbid
//@ subst? `numcodes.iter().map($A).sum()` => `vx_sum(numcodes)`
//@ spec
    requires hsum($n3@, 16) == $n4@.len(),
    ensures final($n0)@ == dht($n1, $n2, $n3@, $n4@),
//@ at body.end
    proof { assert(m@ =~= dht($n1, $n2, $n3@, $n4@)); }
//@end
//@fn src/codecs/jpeg/encoder.rs build_quantization_segment vis=pub
//@ panics forbid
//@ subst? `&UNZIGZAG[..]` => `vx_unzigzag_all()`
//@ forvec 0 `vx_unzigzag_all()` => `vx_unzigzag_all()`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n1 == 8, ensures final($n0)@ == dqt($n2, $n3@),
//@ at loop0.before
    proof { table_zigzag(); lemma_zz(0); assert((0u8 << 4u8) | $n2 == $n2) by (bit_vector); assert(m@ =~= seq![$n2] + Seq::new(0, |k: int| $n3@[zz(k)])); }
//@ loop 0 forvec
    invariant vxi0@.len() == 64, vxk0 <= 64, m@ == seq![$n2] + Seq::new(vxk0 as nat, |k: int| $n3@[zz(k)]),
    decreases 64 - vxk0,
//@ at loop0.start
    proof { lemma_zz(vxk0 as int); }
//@ at loop0.end
    proof { assert(m@ =~= seq![$n2] + Seq::new(vxk0 as nat, |k: int| $n3@[zz(k)])); }
//@end
// ---- the image: samples of 8x8 blocks (edges repeated), transform, quantiser, and the bits of the scan ----
//@include colortypes.vrs
pub trait Pixel: Copy {
    type Subpixel;
    // the gray and the red, green and blue samples as bytes (to_luma, to_rgb; see C08)
    spec fn l8(self) -> u8;
    spec fn c8(self) -> (u8, u8, u8);
    spec fn channels() -> u8;
    fn channel_count() -> (r: u8) ensures r == Self::channels(), 1 <= r <= 4;
}
pub trait PixelWithColorType: Pixel {}
#[verifier::external_body]
pub fn vx_luma8<P: Pixel>(p: P) -> (r: u8) ensures r == p.l8() { unimplemented!() }
#[verifier::external_body]
pub fn vx_rgb8<P: Pixel>(p: P) -> (r: (u8, u8, u8)) ensures r == p.c8() { unimplemented!() }
pub trait GenericImageView {
    type Pixel: Pixel;
    spec fn sw(&self) -> u32;
    spec fn sh(&self) -> u32;
    spec fn px(&self, x: int, y: int) -> Self::Pixel;
    fn width(&self) -> (r: u32) ensures r == self.sw();
    fn height(&self) -> (r: u32) ensures r == self.sh();
    fn in_bounds(&self, x: u32, y: u32) -> (r: bool) ensures r == (x < self.sw() && y < self.sh());
    // get_pixel is documented to panic out of bounds: callers must prove the bounds
    fn get_pixel(&self, x: u32, y: u32) -> (r: Self::Pixel) requires x < self.sw(), y < self.sh(), ensures r == self.px(x as int, y as int);
}
pub fn vx_min32(a: u32, b: u32) -> (r: u32) ensures r == mini(a as int, b as int) { if a < b { a } else { b } }
pub open spec fn mini(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn near<I: GenericImageView>(img: &I, x: int, y: int) -> I::Pixel { img.px(mini(x, img.sw() - 1), mini(y, img.sh() - 1)) }
// the colour transform of JFIF in 16-bit fixed point
pub open spec fn ycc(c: (u8, u8, u8)) -> (int, int, int) {
    let (r, g, b) = (c.0 as int, c.1 as int, c.2 as int);
    ((19595 * r + 38469 * g + 7471 * b + 32767) / 65536, (-11059 * r - 21709 * g + 32768 * b + 8421375) / 65536, (32768 * r - 27439 * g - 5329 * b + 8421375) / 65536)
}
// it is within rounding of the coefficients of ITU-R BT.601 (0.299, 0.587, 0.114, ...) and stays in a byte
proof fn colour_transform_is_bt601(c: (u8, u8, u8))
    ensures ({ let (y, cb, cr) = ycc(c); let (r, g, b) = (c.0 as int, c.1 as int, c.2 as int);
        0 <= y <= 255 && 0 <= cb <= 255 && 0 <= cr <= 255
        && -51000 <= 100000 * y - (29900 * r + 58700 * g + 11400 * b) <= 51000
        && -51000 <= 100000 * (cb - 128) - (-16874 * r - 33126 * g + 50000 * b) <= 51000
        && -51000 <= 100000 * (cr - 128) - (50000 * r - 41869 * g - 8131 * b) <= 51000 })
{}
proof fn lemma_shr32(x: i32) ensures x >> 16 == x / 65536 { assert(x >> 16 == if x >= 0 { x / 65536 } else { -((-(x + 1)) / 65536) - 1 }) by (bit_vector); }
//@fn src/codecs/jpeg/encoder.rs rgb_to_ycbcr ret=res vis=pub
//@ panics forbid
//@ subst? `let [r, g, b] = pixel.to_rgb().0;` => `let (r, g, b) = vx_rgb8(pixel);`
//@ subst? `i32::from($A.to_u8().unwrap())` => `($A as i32)`
//@ subst? `const $A: i32 =` => `let $A: i32 =`
//@ spec
    ensures res.0 == ycc($n0.c8()).0, res.1 == ycc($n0.c8()).1, res.2 == ycc($n0.c8()).2,
//@ at body.start
    proof {
        assert(1i32 << 15 == 32768) by (bit_vector); assert(1i32 << 16 == 65536) by (bit_vector); colour_transform_is_bt601($n0.c8());
        assert forall|x: i32| #[trigger] (x >> 16) == x / 65536 by { lemma_shr32(x); }
    }
//@end
//@fn src/codecs/jpeg/encoder.rs pixel_at_or_near ret=res vis=pub
//@ panics forbid
//@ subst? `x.min($A)` => `vx_min32(x, $A)`
//@ subst? `y.min($A)` => `vx_min32(y, $A)`
//@ spec
    requires $n0.sw() > 0, $n0.sh() > 0, ensures res == near($n0, $n1 as int, $n2 as int),
//@end
pub open spec fn gblock<I: GenericImageView>(img: &I, x0: int, y0: int) -> Seq<u8> { Seq::new(64, |i: int| near(img, x0 + i % 8, y0 + i / 8).l8()) }
pub open spec fn cblock<I: GenericImageView>(img: &I, x0: int, y0: int, c: int) -> Seq<u8> { Seq::new(64, |i: int| { let t = ycc(near(img, x0 + i % 8, y0 + i / 8).c8()); (if c == 0 { t.0 } else if c == 1 { t.1 } else { t.2 }) as u8 }) }
//@fn src/codecs/jpeg/encoder.rs copy_blocks_gray vis=pub
//@ panics forbid
//@ subst? `use num_traits::cast::ToPrimitive;` => ``
//@ subst? `let [luma] = pixel.to_luma().0;` => `let luma = vx_luma8(pixel);`
//@ subst? `luma.to_u8().unwrap()` => `luma`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0.sw() > 0, $n0.sh() > 0, $n1 < $n0.sw() <= 65535, $n2 < $n0.sh() <= 65535,
    ensures final($n3)@ == gblock($n0, $n1 as int, $n2 as int),
//@ loop 0 for
    invariant forall|i: int| 0 <= i < 64 && i / 8 < $v0 ==> #[trigger] gb[i] == gblock($n0, $n1 as int, $n2 as int)[i],
//@ loop 1 for
    invariant forall|i: int| 0 <= i < 64 && (i / 8 < $v0 || (i / 8 == $v0 && i % 8 < $v1)) ==> #[trigger] gb[i] == gblock($n0, $n1 as int, $n2 as int)[i],
//@ at body.end
    proof { assert(gb@ =~= gblock($n0, $n1 as int, $n2 as int)); }
//@end
//@fn src/codecs/jpeg/encoder.rs copy_blocks_ycbcr vis=pub
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0.sw() > 0, $n0.sh() > 0, $n1 < $n0.sw() <= 65535, $n2 < $n0.sh() <= 65535,
    ensures final($n3)@ == cblock($n0, $n1 as int, $n2 as int, 0), final($n4)@ == cblock($n0, $n1 as int, $n2 as int, 1), final($n5)@ == cblock($n0, $n1 as int, $n2 as int, 2),
//@ loop 0 for
    invariant forall|i: int| 0 <= i < 64 && i / 8 < $v0 ==> #[trigger] yb[i] == cblock($n0, $n1 as int, $n2 as int, 0)[i],
        forall|i: int| 0 <= i < 64 && i / 8 < $v0 ==> #[trigger] cbb[i] == cblock($n0, $n1 as int, $n2 as int, 1)[i],
        forall|i: int| 0 <= i < 64 && i / 8 < $v0 ==> #[trigger] crb[i] == cblock($n0, $n1 as int, $n2 as int, 2)[i],
//@ loop 1 for
    invariant forall|i: int| 0 <= i < 64 && (i / 8 < $v0 || (i / 8 == $v0 && i % 8 < $v1)) ==> #[trigger] yb[i] == cblock($n0, $n1 as int, $n2 as int, 0)[i],
        forall|i: int| 0 <= i < 64 && (i / 8 < $v0 || (i / 8 == $v0 && i % 8 < $v1)) ==> #[trigger] cbb[i] == cblock($n0, $n1 as int, $n2 as int, 1)[i],
        forall|i: int| 0 <= i < 64 && (i / 8 < $v0 || (i / 8 == $v0 && i % 8 < $v1)) ==> #[trigger] crb[i] == cblock($n0, $n1 as int, $n2 as int, 2)[i],
//@ at loop1.start
    proof { colour_transform_is_bt601(near($n0, $v1 + $n1, $v0 + $n2).c8()); }
//@ at body.end
    proof { assert(yb@ =~= cblock($n0, $n1 as int, $n2 as int, 0)); assert(cbb@ =~= cblock($n0, $n1 as int, $n2 as int, 1)); assert(crb@ =~= cblock($n0, $n1 as int, $n2 as int, 2)); }
//@end
// the discrete cosine transform, scaled by eight; the range that a block of bytes can reach (proved in unit fdct)
pub uninterp spec fn fdct(s: Seq<u8>) -> Seq<i32>;
pub mod transform {
    #[allow(unused_imports)] use super::*;
    #[verifier::external_body]
    pub fn fdct(s: &[u8; 64], c: &mut [i32; 64])
        ensures final(c)@ == super::fdct(s@), forall|i: int| 1 <= i < 64 ==> -8191 <= #[trigger] final(c)[i] <= 8191, -8192 <= final(c)[0] <= 8191 { unimplemented!() }
}
pub open spec fn eighth(d: int) -> int { if d < 0 { -((-d) / 8) } else { d / 8 } }
// the nearest multiple of the quantiser, halves away from zero
pub open spec fn nearest(a: int, q: int) -> int { if a < 0 { -((2 * -a + q) / (2 * q)) } else { (2 * a + q) / (2 * q) } }
pub open spec fn quant(d: i32, q: u8) -> i32 { nearest(eighth(d as int), q as int) as i32 }
// `((d / 8) as f32 / f32::from(q)).round() as i32`: exact for values of this size
#[verifier::external_body]
pub fn vx_quant(d: i32, q: u8) -> (r: i32) requires q > 0, -8192 <= d <= 8191, ensures r == nearest(eighth(d as int), q as int) { unimplemented!() }
proof fn lemma_quant(d: i32, q: u8) requires q > 0, -8192 <= d <= 8191
    ensures quant(d, q) == nearest(eighth(d as int), q as int), -1024 <= quant(d, q) <= 1023, -8191 <= d ==> -1023 <= quant(d, q)
{
    let a = eighth(d as int); let m = if a < 0 { -a } else { a }; let z = q as int;
    assert(0 <= (2 * m + z) / (2 * z) <= m || m == 0) by {
        assert((2 * m + z) / (2 * z) <= m) by { if m >= 1 { assert(2 * m + z <= m * (2 * z) + (2 * z - 1)) by (nonlinear_arith) requires m >= 1, z >= 1;
            assert((m * (2 * z) + (2 * z - 1)) / (2 * z) == m) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m * (2 * z) + (2 * z - 1), 2 * z, m, 2 * z - 1); }
            vstd::arithmetic::div_mod::lemma_div_is_ordered(2 * m + z, m * (2 * z) + (2 * z - 1), 2 * z); } else { assert(z / (2 * z) == 0) by { assert(z / (2 * z) == 0) by (nonlinear_arith) requires z > 0; } } }
        assert(0 <= (2 * m + z) / (2 * z)) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(2 * m + z, 2 * z); }
    }
    if m == 0 { assert(z / (2 * z) == 0) by { assert(z / (2 * z) == 0) by (nonlinear_arith) requires z > 0; } }
}
pub open spec fn quantised(s: Seq<u8>, q: Seq<u8>) -> Seq<i32> { Seq::new(64, |i: int| quant(fdct(s)[i], q[i])) }
pub open spec fn blocks_across(n: int) -> int { (n + 7) / 8 }
// block k of the image, row by row
pub open spec fn gcoef<I: GenericImageView>(img: &I, k: int, q: Seq<u8>) -> Seq<i32> { let n = blocks_across(img.sw() as int); quantised(gblock(img, 8 * (k % n), 8 * (k / n)), q) }
#[verifier::opaque]
pub open spec fn ccoef<I: GenericImageView>(img: &I, k: int, q: Seq<u8>, c: int) -> Seq<i32> { let n = blocks_across(img.sw() as int); quantised(cblock(img, 8 * (k % n), 8 * (k / n), c), q) }
proof fn lemma_ccoef<I: GenericImageView>(img: &I, k: int, q: Seq<u8>, c: int, f: Seq<i32>, v: Seq<i32>)
    requires v.len() == 64, f.len() == 64, q.len() == 64, forall|j: int| 0 <= j < 64 ==> #[trigger] v[j] == quant(f[j], q[j]), forall|j: int| 0 <= j < 64 ==> #[trigger] q[j] > 0,
        f == fdct(cblock(img, 8 * (k % blocks_across(img.sw() as int)), 8 * (k / blocks_across(img.sw() as int)), c)), forall|i: int| 1 <= i < 64 ==> -8191 <= #[trigger] f[i] <= 8191, -8192 <= f[0] <= 8191
    ensures v == ccoef(img, k, q, c), forall|i: int| 0 <= i < 64 ==> -1024 <= #[trigger] v[i] <= 1023 && (i >= 1 ==> -1023 <= v[i])
{
    reveal(ccoef); assert(v =~= ccoef(img, k, q, c));
    assert forall|i: int| 0 <= i < 64 implies -1024 <= #[trigger] v[i] <= 1023 && (i >= 1 ==> -1023 <= v[i]) by { lemma_quant(f[i], q[i]); }
}
// the bits of the first k blocks; each DC value is coded as the difference to the block before of the same component
pub open spec fn gbits<I: GenericImageView>(img: &I, k: int, q: Seq<u8>, d: Lut, a: Lut) -> Seq<bool> decreases k {
    if k <= 0 { Seq::empty() } else { gbits(img, k - 1, q, d, a) + block_bits(gcoef(img, k - 1, q), gprev(img, k - 1, q), d, a) }
}
pub open spec fn gprev<I: GenericImageView>(img: &I, k: int, q: Seq<u8>) -> int { if k <= 0 { 0 } else { gcoef(img, k - 1, q)[0] as int } }
pub open spec fn cprev<I: GenericImageView>(img: &I, k: int, q: Seq<u8>, c: int) -> int { if k <= 0 { 0 } else { ccoef(img, k - 1, q, c)[0] as int } }
pub open spec fn mcu<I: GenericImageView>(img: &I, k: int, q: (Seq<u8>, Seq<u8>), d: (Lut, Lut), a: (Lut, Lut)) -> Seq<bool> {
    block_bits(ccoef(img, k, q.0, 0), cprev(img, k, q.0, 0), d.0, a.0) + block_bits(ccoef(img, k, q.1, 1), cprev(img, k, q.1, 1), d.1, a.1) + block_bits(ccoef(img, k, q.1, 2), cprev(img, k, q.1, 2), d.1, a.1)
}
pub open spec fn cbits<I: GenericImageView>(img: &I, k: int, q: (Seq<u8>, Seq<u8>), d: (Lut, Lut), a: (Lut, Lut)) -> Seq<bool> decreases k {
    if k <= 0 { Seq::empty() } else { cbits(img, k - 1, q, d, a) + mcu(img, k - 1, q, d, a) }
}
// `(0..n).step_by(s)`
#[verifier::external_body]
pub fn vx_steps(n: u32, s: usize) -> (r: Vec<u32>) requires s == 8, ensures r@.len() == blocks_across(n as int), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == 8 * k && r@[k] < n { unimplemented!() }
impl<'a, T> Cow<'a, T> { #[verifier::external_body] pub fn vx_ref(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() } }
proof fn lemma_luts(e: Lut, f: Lut, g: Lut, h: Lut)
    requires is_lut(e, ldc_bits(), ldc_vals()), is_lut(f, lac_bits(), lac_vals()), is_lut(g, cdc_bits(), cdc_vals()), is_lut(h, cac_bits(), cac_vals())
    ensures dc_table(e), ac_table(f), dc_table(g), ac_table(h)
{
    table_luma_dc(); lemma_dc_table(e, ldc_bits(), ldc_vals()); table_luma_ac(); lemma_ac_table(f, lac_bits(), lac_vals());
    table_chroma_dc(); lemma_dc_table(g, cdc_bits(), cdc_vals()); table_chroma_ac(); lemma_ac_table(h, cac_bits(), cac_vals());
}
proof fn lemma_block_no(by: int, bx: int, n: int) requires 0 <= by, 0 <= bx < n ensures (by * n + bx) / n == by, (by * n + bx) % n == bx, by * n + bx >= 0
{ assert(by * n + bx >= 0) by (nonlinear_arith) requires by >= 0, bx >= 0, n > 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(by * n + bx, n, by, bx); }
// ---- the file ----
//@item src/codecs/jpeg/encoder.rs static SOF0
//@item src/codecs/jpeg/encoder.rs static DHT
//@item src/codecs/jpeg/encoder.rs static SOI
//@item src/codecs/jpeg/encoder.rs static EOI
//@item src/codecs/jpeg/encoder.rs static SOS
//@item src/codecs/jpeg/encoder.rs static DQT
//@item src/codecs/jpeg/encoder.rs static APP0
//@item src/codecs/jpeg/encoder.rs static APP2
//@item src/codecs/jpeg/encoder.rs static DCCLASS
//@item src/codecs/jpeg/encoder.rs static ACCLASS
#[derive(Debug)]
pub enum ImageError { IoError, Parameter }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body] pub fn vx_ioerr() -> (e: IoError) { unimplemented!() }
// `u16::try_from`
pub fn vx_u16(v: u32) -> (r: ImageResult<u16>) ensures r.is_ok() <==> v <= 65535, r.is_ok() ==> r.unwrap() == v { if v <= 65535 { Ok(v as u16) } else { Err(ImageError::Parameter) } }
#[verifier::external_body] pub fn vx_to<T>(v: &Vec<T>, n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.take(n as int) { &v[..n] }
pub open spec fn icc_name() -> Seq<u8> { seq![0x49u8, 0x43u8, 0x43u8, 0x5Fu8, 0x50u8, 0x52u8, 0x4Fu8, 0x46u8, 0x49u8, 0x4Cu8, 0x45u8, 0u8] }
#[verifier::external_body] pub fn vx_icc_name() -> (r: &'static [u8; 12]) ensures r@ == icc_name() { b"ICC_PROFILE\0" }
pub open spec fn icc_count(p: Seq<u8>) -> int { (p.len() as int + 65518) / 65519 }
pub open spec fn piece(p: Seq<u8>, n: int, k: int) -> Seq<u8> { p.subrange(n * k, mini(n * k + n, p.len() as int)) }
// slices of the profile with their number, counted from one, and how many there are
pub open spec fn icc_chunk(p: Seq<u8>, k: int) -> Seq<u8> { icc_name() + seq![(k + 1) as u8, icc_count(p) as u8] + piece(p, 65519, k) }
pub open spec fn icc_segments(p: Seq<u8>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { icc_segments(p, k - 1) + segment(0xE2, icc_chunk(p, k - 1)) } }
#[verifier::external_body]
pub fn vx_chunks(v: &Vec<u8>, n: usize) -> (r: Vec<&[u8]>) requires n > 0 ensures r@.len() == (v@.len() + n - 1) / (n as int), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == piece(v@, n as int, k) && n * k <= n * k + r@[k]@.len() <= v@.len() && r@[k]@.len() <= n { v.chunks(n).collect() }
// one component for gray images (with or without alpha), three otherwise
pub open spec fn ncomp<I: GenericImageView>() -> int { if I::Pixel::channels() <= 2 { 1 } else { 3 } }
pub closed spec fn h_start<W>(e: JpegEncoder<W>) -> Seq<u8> { mk(0xD8) + segment(0xE0, jfif(e.pixel_density)) + icc_segments(e.icc_profile@, icc_count(e.icc_profile@)) }
pub closed spec fn h_frame<W>(e: JpegEncoder<W>, w: u16, h: u16, n: int) -> Seq<u8> { segment(0xC0, frame(8, w, h, e.components@.take(n))) }
pub closed spec fn h_dqt<W>(e: JpegEncoder<W>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { h_dqt(e, k - 1) + segment(0xDB, dqt((k - 1) as u8, e.tables[k - 1]@)) } }
pub open spec fn h_dht(n: int) -> Seq<u8> {
    let g = segment(0xC4, dht(0, 0, ldc_bits(), ldc_vals())) + segment(0xC4, dht(1, 0, lac_bits(), lac_vals()));
    if n == 3 { g + segment(0xC4, dht(0, 1, cdc_bits(), cdc_vals())) + segment(0xC4, dht(1, 1, cac_bits(), cac_vals())) } else { g }
}
// everything before the coded data: the quantisers, Huffman tables, components that the scan needs, and no others
pub closed spec fn head<W>(e: &JpegEncoder<W>, w: u16, h: u16, n: int) -> Seq<u8> {
    h_start(*e) + h_frame(*e, w, h, n) + h_dqt(*e, if n == 1 { 1 } else { 2 }) + h_dht(n) + segment(0xDA, scan(e.components@.take(n)))
}
pub open spec fn body_bits<W: Write, I: GenericImageView>(img: &I, e: &JpegEncoder<W>) -> Seq<bool> {
    let n = blocks_across(img.sw() as int) * blocks_across(img.sh() as int);
    if ncomp::<I>() == 1 { gbits(img, n, e.qt(0), e.luts().0, e.luts().1) } else { cbits(img, n, (e.qt(0), e.qt(1)), (e.luts().0, e.luts().2), (e.luts().1, e.luts().3)) }
}
pub open spec fn padded(s: Seq<bool>) -> Seq<bool> { s + ones(pad_of(s.len() as int)) }
proof fn lemma_comps_len(c: Seq<Component>, k: int) requires 0 <= k ensures frame_comps(c, k).len() == 3 * k, scan_comps(c, k).len() == 2 * k decreases k { if k > 0 { lemma_comps_len(c, k - 1); } }
proof fn lemma_padded(o1: Seq<u8>, o2: Seq<u8>, p2: Seq<bool>, o3: Seq<u8>, s: Seq<bool>)
    requires emits(o1, Seq::empty(), o2, p2, s), p2.len() < 8, emits(o2, p2, o3, Seq::empty(), ones(pad_of(p2.len() as int)))
    ensures emits(o1, Seq::empty(), o3, Seq::empty(), padded(s))
{
    lemma_emits_add(o1, Seq::empty(), o2, p2, o3, Seq::empty(), s, ones(pad_of(p2.len() as int)));
    reveal(emits);
    let b = choose|b: Seq<u8>| #[trigger] emitted(b, o1, Seq::empty(), o2, p2, s);
    assert((byte_bits(b) + p2).len() == (Seq::<bool>::empty() + s).len());
    assert(8 * b.len() + p2.len() == s.len());
    assert(pad_of(p2.len() as int) == pad_of(s.len() as int));
}
impl<W: Write> JpegEncoder<W> {
    pub closed spec fn wr(&self) -> BitWriter<W> { self.writer }
    pub closed spec fn qt(&self, t: int) -> Seq<u8> { self.tables[t]@ }
    pub closed spec fn qpos(&self) -> bool { forall|t: int, i: int| 0 <= t < 2 && 0 <= i < 64 ==> #[trigger] self.tables[t][i] > 0 }
    pub closed spec fn luts(&self) -> (Lut, Lut, Lut, Lut) { (self.luma_dctable.val()@, self.luma_actable.val()@, self.chroma_dctable.val()@, self.chroma_actable.val()@) }
    // everything but the writer
    pub closed spec fn same(&self, o: &Self) -> bool {
        self.components == o.components && self.tables == o.tables && self.luma_dctable == o.luma_dctable && self.luma_actable == o.luma_actable && self.chroma_dctable == o.chroma_dctable && self.chroma_actable == o.chroma_actable
            && self.pixel_density == o.pixel_density && self.icc_profile == o.icc_profile
    }
    pub closed spec fn ready(&self) -> bool { self.lut_ok() && self.comps() && self.qpos() && self.writer.wf() && self.writer.pending().len() == 0 }
//@fn src/codecs/jpeg/encoder.rs encode_gray ret=res
//@ panics forbid
//@ subst? `for ($I, $D) in $B.iter_mut().enumerate() {$A}` => `let mut vxq: usize = 0; while vxq < 64 { let $I = vxq; let $D = &mut $B[vxq]; $A vxq = vxq + 1; }`
//@ subst? `(($B / 8) as f32 / f32::from($A)).round() as i32` => `vx_quant($B, $A)`
//@ subst? `&*self.luma_actable` => `self.luma_actable.vx_ref()`
//@ subst? `&*self.luma_dctable` => `self.luma_dctable.vx_ref()`
//@ forvec 0 `(0..image.height()).step_by(8)` => `vx_steps(image.height(), 8)`
//@ forvec 1 `(0..image.width()).step_by(8)` => `vx_steps(image.width(), 8)`
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ spec
    requires old(self).ready(), $n0.sw() <= 65535, $n0.sh() <= 65535,
    ensures res.is_ok() ==> final(self).same(old(self)) && final(self).wr().put(&old(self).wr(), gbits($n0, blocks_across($n0.sw() as int) * blocks_across($n0.sh() as int), old(self).qt(0), old(self).luts().0, old(self).luts().1)),
//@ at body.start
    let ghost me = *self;
    let ghost (n, q, d, a) = (blocks_across($n0.sw() as int), self.qt(0), self.luts().0, self.luts().1);
    proof { lemma_luts(self.luts().0, self.luts().1, self.luts().2, self.luts().3); lemma_emits_nil(self.wr().out(), self.wr().pending()); assert(0 * n == 0); }
//@ loop 0 forvec
    invariant vxi0@.len() == blocks_across($n0.sh() as int), vxk0 <= vxi0@.len(), self.same(&me), n > 0 || $n0.sw() == 0, n >= 0,
        forall|k: int| 0 <= k < vxi0@.len() ==> #[trigger] vxi0@[k] == 8 * k && vxi0@[k] < $n0.sh(),
        self.writer.put(&me.writer, gbits($n0, vxk0 * n, q, d, a)), y_dcprev == gprev($n0, vxk0 * n, q), -1024 <= y_dcprev <= 1023,
    decreases vxi0@.len() - vxk0,
//@ loop 1 forvec
    invariant vxi1@.len() == n, vxk1 <= n, self.same(&me),
        forall|k: int| 0 <= k < n ==> #[trigger] vxi1@[k] == 8 * k && vxi1@[k] < $n0.sw(),
        self.writer.put(&me.writer, gbits($n0, (vxk0 - 1) * n + vxk1, q, d, a)), y_dcprev == gprev($n0, (vxk0 - 1) * n + vxk1, q), -1024 <= y_dcprev <= 1023,
    decreases n - vxk1,
//@ at loop1.start
    let ghost k = (vxk0 - 1) * n + vxk1;
    let ghost w1 = self.writer;
    proof { lemma_block_no(vxk0 - 1, vxk1 as int, n); }
//@ at loop2.before
    let ghost f = dct_yblock@;
    proof { assert(f == fdct(gblock($n0, 8 * (k % n), 8 * (k / n)))); }
//@ loop 2 while
    invariant vxq <= 64, forall|i: int| 0 <= i < 64 ==> #[trigger] dct_yblock[i] == (if i < vxq { quant(f[i], q[i]) } else { f[i] }),
    decreases 64 - vxq,
//@ at loop2.start
    proof { lemma_quant(f[vxq as int], q[vxq as int]); }
//@ at loop2.after
    proof {
        assert(dct_yblock@ =~= gcoef($n0, k, q));
        assert forall|i: int| 0 <= i < 64 implies -1024 <= #[trigger] dct_yblock[i] <= 1023 && (i >= 1 ==> -1023 <= dct_yblock[i]) by { lemma_quant(f[i], q[i]); }
    }
//@ at loop1.end
    proof {
        lemma_emits_add(me.writer.out(), me.writer.pending(), w1.out(), w1.pending(), self.writer.out(), self.writer.pending(), gbits($n0, k, q, d, a), block_bits(gcoef($n0, k, q), gprev($n0, k, q), d, a));
    }
//@ at loop1.after
    proof { assert((vxk0 - 1) * n + n == vxk0 * n) by (nonlinear_arith); }
//@ at loop0.after
    proof { assert(vxk0 * n == n * vxk0) by (nonlinear_arith); }
//@end
//@fn src/codecs/jpeg/encoder.rs encode_rgb ret=res
//@ panics forbid
//@ subst? `(($B / 8) as f32 / f32::from($A)).round() as i32` => `vx_quant($B, $A)`
//@ subst? `&*self.luma_actable` => `self.luma_actable.vx_ref()`
//@ subst? `&*self.luma_dctable` => `self.luma_dctable.vx_ref()`
//@ subst? `&*self.chroma_actable` => `self.chroma_actable.vx_ref()`
//@ subst? `&*self.chroma_dctable` => `self.chroma_dctable.vx_ref()`
//@ forvec 0 `(0..image.height()).step_by(8)` => `vx_steps(image.height(), 8)`
//@ forvec 1 `(0..image.width()).step_by(8)` => `vx_steps(image.width(), 8)`
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ spec
    requires old(self).ready(), $n0.sw() <= 65535, $n0.sh() <= 65535,
    ensures res.is_ok() ==> final(self).same(old(self)) && final(self).wr().put(&old(self).wr(), cbits($n0, blocks_across($n0.sw() as int) * blocks_across($n0.sh() as int), (old(self).qt(0), old(self).qt(1)), (old(self).luts().0, old(self).luts().2), (old(self).luts().1, old(self).luts().3))),
//@ at body.start
    let ghost me = *self;
    let ghost (n, q, d, a) = (blocks_across($n0.sw() as int), (self.qt(0), self.qt(1)), (self.luts().0, self.luts().2), (self.luts().1, self.luts().3));
    proof { lemma_luts(self.luts().0, self.luts().1, self.luts().2, self.luts().3); lemma_emits_nil(self.wr().out(), self.wr().pending()); assert(0 * n == 0); }
//@ loop 0 forvec
    invariant vxi0@.len() == blocks_across($n0.sh() as int), vxk0 <= vxi0@.len(), self.same(&me), n > 0 || $n0.sw() == 0, n >= 0,
        forall|k: int| 0 <= k < vxi0@.len() ==> #[trigger] vxi0@[k] == 8 * k && vxi0@[k] < $n0.sh(),
        self.writer.put(&me.writer, cbits($n0, vxk0 * n, q, d, a)), y_dcprev == cprev($n0, vxk0 * n, q.0, 0), -1024 <= y_dcprev <= 1023,
        cb_dcprev == cprev($n0, vxk0 * n, q.1, 1), -1024 <= cb_dcprev <= 1023, cr_dcprev == cprev($n0, vxk0 * n, q.1, 2), -1024 <= cr_dcprev <= 1023,
    decreases vxi0@.len() - vxk0,
//@ loop 1 forvec
    invariant vxi1@.len() == n, vxk1 <= n, self.same(&me),
        forall|k: int| 0 <= k < n ==> #[trigger] vxi1@[k] == 8 * k && vxi1@[k] < $n0.sw(),
        self.writer.put(&me.writer, cbits($n0, (vxk0 - 1) * n + vxk1, q, d, a)), y_dcprev == cprev($n0, (vxk0 - 1) * n + vxk1, q.0, 0), -1024 <= y_dcprev <= 1023,
        cb_dcprev == cprev($n0, (vxk0 - 1) * n + vxk1, q.1, 1), -1024 <= cb_dcprev <= 1023, cr_dcprev == cprev($n0, (vxk0 - 1) * n + vxk1, q.1, 2), -1024 <= cr_dcprev <= 1023,
    decreases n - vxk1,
//@ at loop1.start
    let ghost k = (vxk0 - 1) * n + vxk1;
    let ghost w1 = self.writer;
    proof { lemma_block_no(vxk0 - 1, vxk1 as int, n); }
//@ at loop2.before
    let ghost (f0, f1, f2) = (dct_yblock@, dct_cb_block@, dct_cr_block@);
    proof { assert(f0 == fdct(cblock($n0, 8 * (k % n), 8 * (k / n), 0)) && f1 == fdct(cblock($n0, 8 * (k % n), 8 * (k / n), 1)) && f2 == fdct(cblock($n0, 8 * (k % n), 8 * (k / n), 2))); }
//@ loop 2 for
    invariant forall|j: int| 0 <= j < 64 ==> #[trigger] dct_yblock[j] == (if j < $v2 { quant(f0[j], q.0[j]) } else { f0[j] }),
        forall|j: int| 0 <= j < 64 ==> #[trigger] dct_cb_block[j] == (if j < $v2 { quant(f1[j], q.1[j]) } else { f1[j] }),
        forall|j: int| 0 <= j < 64 ==> #[trigger] dct_cr_block[j] == (if j < $v2 { quant(f2[j], q.1[j]) } else { f2[j] }),
//@ at loop2.start
    proof { lemma_quant(f0[$v2 as int], q.0[$v2 as int]); lemma_quant(f1[$v2 as int], q.1[$v2 as int]); lemma_quant(f2[$v2 as int], q.1[$v2 as int]); }
//@ at loop2.after
    proof {
        lemma_ccoef($n0, k, q.0, 0, f0, dct_yblock@); lemma_ccoef($n0, k, q.1, 1, f1, dct_cb_block@); lemma_ccoef($n0, k, q.1, 2, f2, dct_cr_block@);
    }
//@ at before `cb_dcprev = self.writer`
    let ghost w2 = self.writer;
//@ at before `cr_dcprev = self.writer`
    let ghost w3 = self.writer;
//@ at loop1.end
    proof {
        let (b0, b1, b2) = (block_bits(ccoef($n0, k, q.0, 0), cprev($n0, k, q.0, 0), d.0, a.0), block_bits(ccoef($n0, k, q.1, 1), cprev($n0, k, q.1, 1), d.1, a.1), block_bits(ccoef($n0, k, q.1, 2), cprev($n0, k, q.1, 2), d.1, a.1));
        let (o, p) = (me.writer.out(), me.writer.pending());
        lemma_emits3((o, p), (w1.out(), w1.pending()), (w2.out(), w2.pending()), (w3.out(), w3.pending()), (self.writer.out(), self.writer.pending()), cbits($n0, k, q, d, a), b0, b1, b2);
        assert(mcu($n0, k, q, d, a) == b0 + b1 + b2);
    }
//@ at loop1.after
    proof { assert((vxk0 - 1) * n + n == vxk0 * n) by (nonlinear_arith); }
//@ at loop0.after
    proof { assert(vxk0 * n == n * vxk0) by (nonlinear_arith); }
//@end
    pub closed spec fn icc(&self) -> Seq<u8> { self.icc_profile@ }
    pub closed spec fn cmps(&self) -> Seq<Component> { self.components@ }
    pub closed spec fn dens(&self) -> PixelDensity { self.pixel_density }
//@fn src/codecs/jpeg/encoder.rs write_icc_profile_chunks ret=res
//@ panics forbid
//@ subst? `const $A: usize =` => `let $A: usize =`
//@ subst? `io::Error::new($A)` => `vx_ioerr()`
//@ subst? `self.icc_profile.chunks($A)` => `vx_chunks(&self.icc_profile, $A)`
//@ subst? `segment.reserve($A);` => ``
//@ subst? `b"ICC_PROFILE\0"` => `vx_icc_name()`
//@ subst? `for ($I, $D) in $B.enumerate() {$A}` => `let mut vxq: usize = 0; while vxq < $B.len() { let $I = vxq; let $D = $B[vxq]; $A vxq = vxq + 1; }`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures final(self).same(old(self)), final(self).wr().wf() == old(self).wr().wf(), final(self).wr().pending() == old(self).wr().pending(),
        res.is_ok() ==> old(self).icc().len() <= 65519 * 255 && final(self).wr().out() == old(self).wr().out() + icc_segments(old(self).icc(), icc_count(old(self).icc())),
//@ at body.start
    proof { assert(self.writer.out() + icc_segments(self.icc(), 0) =~= self.writer.out()); }
    let ghost p = self.icc();
//@ loop 0 while
    invariant vxq <= chunk_iter@.len(), self.same(old(self)), self.wr().wf() == old(self).wr().wf(), self.wr().pending() == old(self).wr().pending(), self.icc() == p,
        self.wr().out() == old(self).wr().out() + icc_segments(p, vxq as int),
    decreases chunk_iter@.len() - vxq,
//@ at before `self.writer.write_segment(APP2, &segment)?;`
    proof { assert(segment@ =~= icc_chunk(p, vxq as int)); }
//@ at loop0.end
    proof { assert(self.wr().out() =~= old(self).wr().out() + icc_segments(p, vxq as int)); }
//@end
//@fn src/codecs/jpeg/encoder.rs encode_image ret=res vis=pub
//@ panics allow
//@ subst? `I::Pixel::CHANNEL_COUNT` => `I::Pixel::channel_count()`
//@ subst? `u16::try_from($A).map_err(|_| {$B})?` => `vx_u16($A)?`
//@ subst? `&self.components[..$A]` => `vx_to(&self.components, $A)`
//@ subst? `for ($I, $D) in self.tables[..$B].iter().enumerate() {$A}` => `let mut vxq: usize = 0; while vxq < $B { let $I = vxq; let $D = &self.tables[vxq]; $A vxq = vxq + 1; }`
//@ subst? `&STD_LUMA_DC_CODE_LENGTHS` => `vx_ldc_bits()`
//@ subst? `&STD_LUMA_DC_VALUES` => `vx_ldc_vals()`
//@ subst? `&STD_LUMA_AC_CODE_LENGTHS` => `vx_lac_bits()`
//@ subst? `&STD_LUMA_AC_VALUES` => `vx_lac_vals()`
//@ subst? `&STD_CHROMA_DC_CODE_LENGTHS` => `vx_cdc_bits()`
//@ subst? `&STD_CHROMA_DC_VALUES` => `vx_cdc_vals()`
//@ subst? `&STD_CHROMA_AC_CODE_LENGTHS` => `vx_cac_bits()`
//@ subst? `&STD_CHROMA_AC_VALUES` => `vx_cac_vals()`
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ spec
    requires old(self).ready(),
    ensures res.is_ok() ==> final(self).same(old(self)) && final(self).ready() && $n0.sw() <= 65535 && $n0.sh() <= 65535
        && emits(old(self).wr().out() + head(old(self), $n0.sw() as u16, $n0.sh() as u16, ncomp::<I>()), Seq::empty(), final(self).wr().out().take(final(self).wr().out().len() - 2), Seq::empty(), padded(body_bits($n0, old(self))))
        && final(self).wr().out().skip(final(self).wr().out().len() - 2) == mk(0xD9),
//@ at body.start
    let ghost me = *self;
    let ghost o = self.writer.out();
    let ghost nc = ncomp::<I>();
    proof { reveal(comps_ok); table_luma_dc(); table_luma_ac(); table_chroma_dc(); table_chroma_ac(); lemma_comps_len(self.components@.take(nc), nc); assert(o + mk(0xD8) =~= o + seq![0xFFu8, 0xD8u8]); }
//@ at before `build_frame_header`
    let ghost (w16, h16) = ($n0.sw() as u16, $n0.sh() as u16);
    proof { assert(self.writer.out() =~= o + h_start(me)); }
//@ at loop0.before
    proof { assert(self.writer.out() =~= o + (h_start(me) + h_frame(me, w16, h16, nc)) + h_dqt(me, 0)); }
//@ loop 0 while
    invariant vxq <= nc, vxq <= 2, self.same(&me), self.writer.wf(), self.writer.pending() == Seq::<bool>::empty(), self.writer.out() == o + (h_start(me) + h_frame(me, w16, h16, nc)) + h_dqt(me, vxq as int),
    decreases 3 - vxq,
//@ at loop0.end
    proof { assert(self.writer.out() =~= o + (h_start(me) + h_frame(me, w16, h16, nc)) + h_dqt(me, vxq as int)); }
//@ at before `build_scan_header`
    proof { assert(self.writer.out() =~= o + (h_start(me) + h_frame(me, w16, h16, nc) + h_dqt(me, if nc == 1 { 1 } else { 2 }) + h_dht(nc))); }
//@ at before `if num_components == 3 { self.encode_rgb`
    let ghost w1 = self.writer;
    proof { assert(w1.out() =~= o + head(&me, w16, h16, nc)); }
//@ at before `self.writer.pad_byte()?;`
    let ghost w2 = self.writer;
//@ at before `self.writer.write_marker(EOI)?;`
    let ghost w3 = self.writer;
    proof { lemma_padded(w1.out(), w2.out(), w2.pending(), w3.out(), body_bits($n0, &me)); }
//@ at before `Ok(())`
    proof { assert(self.writer.out().take(self.writer.out().len() - 2) =~= w3.out()); assert(self.writer.out().skip(self.writer.out().len() - 2) =~= mk(0xD9)); }
//@end
//@fn src/codecs/jpeg/encoder.rs new ctx="impl < W : Write > JpegEncoder" ret=res vis=pub
//@ panics forbid
//@ spec
    ensures res.ready(), res.wr().out() == $n0.out(), res.icc().len() == 0, forall|i: int| 0 <= i < 64 ==> #[trigger] res.q(0, i) == qentry(lq()[i], 75), forall|i: int| 0 <= i < 64 ==> #[trigger] res.q(1, i) == qentry(cq()[i], 75),
//@end
//@fn src/codecs/jpeg/encoder.rs set_pixel_density vis=pub
//@ panics forbid
//@ spec
    ensures final(self).dens() == $n0, final(self).ready() == old(self).ready(), final(self).icc() == old(self).icc(), final(self).cmps() == old(self).cmps(), final(self).qt(0) == old(self).qt(0), final(self).qt(1) == old(self).qt(1), final(self).luts() == old(self).luts(), final(self).wr() == old(self).wr(),
//@end
//@fn src/codecs/jpeg/encoder.rs set_icc_profile vis=pub ret=res
//@ panics forbid
//@ sigsubst `UnsupportedError` => `ImageError`
//@ spec
    ensures res.is_ok(), final(self).icc() == $n0@, final(self).dens() == old(self).dens(), final(self).ready() == old(self).ready(), final(self).cmps() == old(self).cmps(), final(self).qt(0) == old(self).qt(0), final(self).qt(1) == old(self).qt(1), final(self).luts() == old(self).luts(), final(self).wr() == old(self).wr(),
//@end
}
} // verus!
fn main() {}
