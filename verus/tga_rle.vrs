#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include chunks.vrs
//@include colortypes.vrs
#[derive(Debug)]
pub enum ImageError { IoError, Other }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
// ---- the packet format: high bit repeats the next pixel, otherwise so many pixels follow ----
#[verifier::opaque]
pub open spec fn rep(p: Seq<u8>, n: int) -> Seq<u8> { Seq::new((n * p.len()) as nat, |i: int| p[i % (p.len() as int)]) }
#[verifier::opaque]
pub open spec fn expand(s: Seq<u8>, b: int) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else {
        let n = (s[0] % 128) as int + 1; let used = if s[0] >= 128 { b } else { n * b };
        if b <= 0 || s.len() < 1 + used { None }
        else { match expand(s.skip(1 + used), b) { None => None, Some(t) => Some((if s[0] >= 128 { rep(s.subrange(1, 1 + b), n) } else { s.subrange(1, 1 + used) }) + t) } }
    }
}
proof fn lemma_append(s: Seq<u8>, t: Seq<u8>, b: int)
    requires expand(s, b).is_some(), expand(t, b).is_some()
    ensures expand(s + t, b) == Some(expand(s, b).unwrap() + expand(t, b).unwrap())
    decreases s.len()
{
    reveal(expand); reveal(rep);
    if s.len() == 0 { assert(s + t =~= t); assert(expand(s, b).unwrap() + expand(t, b).unwrap() =~= expand(t, b).unwrap()); }
    else {
        let n = (s[0] % 128) as int + 1; let used = if s[0] >= 128 { b } else { n * b };
        assert(used >= 1) by (nonlinear_arith) requires used == b || used == n * b, n >= 1, b >= 1;
        lemma_append(s.skip(1 + used), t, b);
        assert((s + t).skip(1 + used) =~= s.skip(1 + used) + t);
        assert((s + t).subrange(1, 1 + b) =~= s.subrange(1, 1 + b) || s[0] < 128);
        assert((s + t).subrange(1, 1 + used) =~= s.subrange(1, 1 + used));
        let h = if s[0] >= 128 { rep(s.subrange(1, 1 + b), n) } else { s.subrange(1, 1 + used) };
        assert(h + (expand(s.skip(1 + used), b).unwrap() + expand(t, b).unwrap()) =~= (h + expand(s.skip(1 + used), b).unwrap()) + expand(t, b).unwrap());
    }
}
proof fn lemma_raw(p: Seq<u8>, c: u8, b: int)
    requires 1 <= c <= 128, p.len() == c * b, b >= 1
    ensures expand(seq![(c - 1) as u8] + p, b) == Some(p)
{
    reveal(expand); reveal(rep);
    let s = seq![(c - 1) as u8] + p;
    assert(c * b >= 1) by (nonlinear_arith) requires c >= 1, b >= 1;
    assert(s.skip(1 + p.len() as int) =~= Seq::<u8>::empty());
    assert(s.subrange(1, 1 + p.len() as int) =~= p);
    reveal_with_fuel(expand, 2);
    assert(p + Seq::<u8>::empty() =~= p);
}
proof fn lemma_run(p: Seq<u8>, c: u8, b: int)
    requires 1 <= c <= 128, p.len() == b, b >= 1
    ensures expand(seq![(127 + c) as u8] + p, b) == Some(rep(p, c as int))
{
    reveal(expand); reveal(rep);
    let s = seq![(127 + c) as u8] + p;
    assert(s.skip(1 + b) =~= Seq::<u8>::empty());
    assert(s.subrange(1, 1 + b) =~= p);
    reveal_with_fuel(expand, 2);
    assert(rep(p, c as int) + Seq::<u8>::empty() =~= rep(p, c as int));
}
proof fn lemma_rep_step(p: Seq<u8>, n: int)
    requires p.len() >= 1, n >= 0
    ensures rep(p, n + 1) == rep(p, n) + p, rep(p, n).len() == n * p.len(), n == 0 ==> rep(p, n) == Seq::<u8>::empty()
{
    reveal(rep);
    let b = p.len() as int;
    assert((n + 1) * b == n * b + b && n * b >= 0) by (nonlinear_arith) requires n >= 0, b >= 1;
    assert forall|i: int| 0 <= i < n * b + b implies rep(p, n + 1)[i] == (rep(p, n) + p)[i] by {
        if i >= n * b { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, b, n, i - n * b); }
    }
    assert(rep(p, n + 1) =~= rep(p, n) + p); assert(n == 0 ==> rep(p, n) =~= Seq::<u8>::empty());
}
// ---- the encoder ----
//@item src/codecs/tga/encoder.rs const MAX_RUN_LENGTH vis=pub
//@item src/codecs/tga/encoder.rs enum PacketType vis=pub attrs="#[derive(PartialEq, Eq, Structural)]"
//@item src/codecs/tga/encoder.rs struct TgaEncoder vis=pub
use PacketType::*;
// appending packet bytes `p` that expand to the pending bytes
proof fn facts_emit(out: Seq<u8>, o0: Seq<u8>, img: Seq<u8>, pend: Seq<u8>, pos: int, b: int)
    requires out.len() >= o0.len(), out.subrange(0, o0.len() as int) == o0, 0 <= pos - pend.len(), pos <= img.len(),
        expand(out.skip(o0.len() as int), b) == Some(img.subrange(0, pos - pend.len())), pend == img.subrange(pos - pend.len(), pos)
    ensures forall|p: Seq<u8>| expand(p, b) == Some(pend) ==> (#[trigger] (out + p)).len() >= o0.len() && (out + p).subrange(0, o0.len() as int) == o0
        && expand((out + p).skip(o0.len() as int), b) == Some(img.subrange(0, pos))
{
    assert forall|p: Seq<u8>| expand(p, b) == Some(pend) implies (#[trigger] (out + p)).len() >= o0.len() && (out + p).subrange(0, o0.len() as int) == o0
        && expand((out + p).skip(o0.len() as int), b) == Some(img.subrange(0, pos)) by {
        assert((out + p).subrange(0, o0.len() as int) =~= out.subrange(0, o0.len() as int));
        assert((out + p).skip(o0.len() as int) =~= out.skip(o0.len() as int) + p);
        lemma_append(out.skip(o0.len() as int), p, b);
        assert(img.subrange(0, pos - pend.len()) + pend =~= img.subrange(0, pos));
    }
}
impl<W: Write> TgaEncoder<W> {
    pub closed spec fn out(&self) -> Seq<u8> { self.writer.out() }
    pub closed spec fn rle(&self) -> bool { self.use_rle }
//@fn src/codecs/tga/encoder.rs write_raw_packet ctx="impl < W : Write > TgaEncoder" ret=res
//@ spec
    requires 1 <= $n1 <= 128,
    ensures final(self).rle() == old(self).rle(), res.is_ok() ==> final(self).out() == old(self).out() + (seq![($n1 - 1) as u8] + $n0@),
//@end
//@fn src/codecs/tga/encoder.rs write_rle_encoded_packet ctx="impl < W : Write > TgaEncoder" ret=res
//@ spec
    requires 1 <= $n1 <= 128,
    ensures final(self).rle() == old(self).rle(), res.is_ok() ==> final(self).out() == old(self).out() + (seq![(127 + $n1) as u8] + $n0@),
//@ at body.start
    proof { let c = $n1; assert(1 <= c <= 128 ==> 0x80u8 | ((c - 1) as u8) == (127 + c) as u8) by (bit_vector); }
//@end
//@fn src/codecs/tga/encoder.rs run_length_encode ctx="impl < W : Write > TgaEncoder" ret=res
//@ panics forbid
//@ subst? `use PacketType::*;` => ` `
//@ subst? `let mut buf = Vec::with_capacity($A);` => `let mut buf: Vec<u8> = Vec::with_capacity($A);`
//@ subst? `let mut prev_pixel = None;` => `let mut prev_pixel: Option<&[u8]> = None;`
//@ subst? `let mut counter = 0;` => `let mut counter: u8 = 0;`
//@ subst? `pixel == prev` => `vx_same(pixel, prev)`
//@ subst? `buf.extend_from_slice(pixel)` => `vx_extend(&mut buf, pixel)`
//@ forvec 0 `image.chunks($A)` => `vx_chunks(image, $A)`
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::spinoff_prover]
//@ spec
    requires ebits($n1) % 8 == 0, 8 <= ebits($n1), $n0@.len() % (ebits($n1) / 8) as nat == 0,
    ensures final(self).rle() == old(self).rle(),
        // what is written expands to the image, in packets of at most 128 pixels
        res.is_ok() ==> final(self).out().len() >= old(self).out().len() && final(self).out().subrange(0, old(self).out().len() as int) == old(self).out()
            && expand(final(self).out().skip(old(self).out().len() as int), ebits($n1) / 8) == Some($n0@),
//@ at loop0.before
    let ghost b = bytes_per_pixel as int;
    let ghost mut pos = 0int; let ghost mut kk = 0int;
    let ghost o0 = self.out();
    proof {
        reveal_with_fuel(expand, 1);
        assert(0 * b == 0);
        assert(o0.skip(o0.len() as int) =~= Seq::<u8>::empty()); assert(o0.subrange(0, o0.len() as int) =~= o0); assert(image@.subrange(0, 0) =~= Seq::<u8>::empty());
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(image@.len() as int, b);
        let q = image@.len() as int / b; let l = vxi0.len() as int;
        assert(q * b == b * q) by (nonlinear_arith);
        assert(l == q) by (nonlinear_arith) requires image@.len() == b * q, b * l >= image@.len(), b * (l - 1) < image@.len() || l == 0, q >= 0, b >= 1;
        assert forall|k: int| 0 <= k < vxi0.len() implies (#[trigger] vxi0[k])@ == image@.subrange(k * b, k * b + b) by {
            assert((k + 1) * b == k * b + b && k * b + b <= image@.len()) by (nonlinear_arith) requires k + 1 <= q, image@.len() == b * q, b >= 1;
        }
    }
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), vxi0.len() * b == image@.len(), b >= 1, kk == vxk0, pos == kk * b, pos <= image@.len(), b == ebits(color_type) / 8, self.rle() == old(self).rle(),
        forall|k: int| 0 <= k < vxi0.len() ==> (#[trigger] vxi0[k])@ == image@.subrange(k * b, k * b + b),
        counter <= 127, buf@.len() == counter * b, counter <= vxk0,
        vxk0 > 0 ==> prev_pixel.is_some() && prev_pixel.unwrap()@ == image@.subrange(pos - b, pos),
        vxk0 == 0 ==> prev_pixel.is_none(),
        self.out().len() >= o0.len(), self.out().subrange(0, o0.len() as int) == o0,
        pos - buf@.len() >= 0,
        expand(self.out().skip(o0.len() as int), b) == Some(image@.subrange(0, pos - buf@.len())),
        buf@ == image@.subrange(pos - buf@.len(), pos),
        packet_type == Rle && counter > 0 ==> buf@ == rep(prev_pixel.unwrap()@, counter as int),
    decreases vxi0.len() - vxk0,
//@ at loop0.start
    proof {
        assert((kk + 1) * b == pos + b && pos + b <= image@.len() && pos >= 0 && (kk >= 1 ==> pos >= b)) by (nonlinear_arith) requires pos == kk * b, 0 <= kk, kk + 1 <= vxi0.len(), vxi0.len() * b == image@.len(), b >= 1;
        assert((counter + 1) * b == counter * b + b && 0int * b == 0 && 1int * b == b && counter * b + b <= 128 * b) by (nonlinear_arith) requires counter + 1 <= 128, b >= 1;
        facts_emit(self.out(), o0, image@, buf@, pos, b);
        if prev_pixel.is_some() { lemma_rep_step(prev_pixel.unwrap()@, counter as int); if counter > 0 { lemma_run(prev_pixel.unwrap()@, counter, b); } }
        if counter > 0 { lemma_raw(buf@, counter, b); }
        let px = image@.subrange(pos, pos + b);
        lemma_rep_step(px, 0); assert(rep(px, 0) + px =~= px);
        assert(buf@ + px =~= image@.subrange(pos - buf@.len(), pos + b));
        assert(Seq::<u8>::empty() + px =~= px);
        // a packet of everything pending and this pixel
        let pend = buf@ + px;
        if counter == 127 { lemma_raw(pend, 128, b); lemma_run(px, 128, b); }
        facts_emit(self.out(), o0, image@, pend, pos + b, b);
        pos = pos + b; kk = kk + 1;
    }
//@ at loop0.end
    proof { assert(image@.subrange(pos, pos) =~= Seq::<u8>::empty()); assert(0int * b == 0); assert(buf@.len() == 0 ==> buf@ =~= Seq::<u8>::empty()); }
//@ at loop0.after
    proof {
        facts_emit(self.out(), o0, image@, buf@, pos, b); assert(image@.subrange(0, pos) =~= image@);
        assert(kk >= 1 ==> pos >= b) by (nonlinear_arith) requires pos == kk * b, b >= 1;
        if counter > 0 { lemma_raw(buf@, counter, b); lemma_run(prev_pixel.unwrap()@, counter, b); }
    }
//@end
}
// ---- the decoder ----
// what reading packets until `need` bytes are there yields; a literal packet may be cut short by the end of the stream
#[verifier::opaque]
pub open spec fn rd(s: Seq<u8>, b: int, need: int) -> Option<Seq<u8>> decreases s.len() {
    if need <= 0 { Some(Seq::empty()) }
    else if s.len() == 0 || b <= 0 { None }
    else {
        let n = (s[0] % 128) as int + 1;
        if s[0] >= 128 {
            if s.len() < 1 + b { None } else { match rd(s.skip(1 + b), b, need - n * b) { None => None, Some(t) => Some(rep(s.subrange(1, 1 + b), n) + t) } }
        } else {
            let k = if n * b <= s.len() - 1 { n * b } else { s.len() - 1 };
            match rd(s.skip(1 + k), b, need - k) { None => None, Some(t) => Some(s.subrange(1, 1 + k) + t) }
        }
    }
}
proof fn lemma_rd_len(s: Seq<u8>, b: int, need: int)
    ensures rd(s, b, need) matches Some(x) ==> x.len() >= need
    decreases s.len()
{
    reveal(rd); reveal(rep);
    if need > 0 && s.len() > 0 && b > 0 {
        let n = (s[0] % 128) as int + 1; let k = if n * b <= s.len() - 1 { n * b } else { s.len() - 1 };
        assert(n * b >= 1) by (nonlinear_arith) requires n >= 1, b >= 1;
        if s[0] >= 128 { if s.len() >= 1 + b { lemma_rd_len(s.skip(1 + b), b, need - n * b); } } else { lemma_rd_len(s.skip(1 + k), b, need - k); }
    }
}
// a stream that expands to exactly the bytes needed is read as those bytes
proof fn lemma_rd_expand(s: Seq<u8>, b: int, t: Seq<u8>)
    requires expand(s, b).is_some(), b >= 1
    ensures rd(s + t, b, expand(s, b).unwrap().len() as int) == expand(s, b)
    decreases s.len()
{
    reveal(rd); reveal(expand);
    let x = expand(s, b).unwrap();
    if s.len() > 0 {
        let n = (s[0] % 128) as int + 1; let used = if s[0] >= 128 { b } else { n * b };
        assert(n * b >= 1) by (nonlinear_arith) requires n >= 1, b >= 1;
        let h = if s[0] >= 128 { rep(s.subrange(1, 1 + b), n) } else { s.subrange(1, 1 + used) };
        assert(h.len() == n * b) by { reveal(rep); }
        lemma_rd_expand(s.skip(1 + used), b, t);
        assert((s + t).skip(1 + used) =~= s.skip(1 + used) + t);
        assert((s + t).subrange(1, 1 + used) =~= s.subrange(1, 1 + used));
        assert(x.len() == n * b + expand(s.skip(1 + used), b).unwrap().len());
    } else { assert(x =~= Seq::<u8>::empty()); }
}
#[verifier::external_body]
pub fn vx_extend_cycle(v: &mut Vec<u8>, p: &[u8], n: usize)
    requires p@.len() >= 1, ensures final(v)@ == old(v)@ + Seq::new(n as nat, |i: int| p@[i % (p@.len() as int)]) { unimplemented!() }
//@item src/codecs/tga/header.rs const ALPHA_BIT_MASK vis=pub
//@item src/codecs/tga/header.rs const SCREEN_ORIGIN_BIT_MASK vis=pub
//@item src/codecs/tga/header.rs enum ImageType vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
//@item src/codecs/tga/header.rs struct Header vis=pub attrs="#[derive(Copy, Clone)]" sub="pub(crate)=>pub"
//@item src/codecs/tga/decoder.rs struct ColorMap vis=pub
//@item src/codecs/tga/decoder.rs struct TgaDecoder vis=pub
impl<R: Read> TgaDecoder<R> {
//@fn src/codecs/tga/decoder.rs read_encoded_data ctx="impl < R : Read > TgaDecoder" ret=res
//@ panics forbid
//@ subst? `let mut pixel_data = Vec::with_capacity($A);` => `let mut pixel_data: Vec<u8> = Vec::with_capacity($A);`
//@ subst? `let mut repeat_buf = Vec::with_capacity($A);` => `let mut repeat_buf: Vec<u8> = Vec::with_capacity($A);`
//@ subst? `repeat_buf.resize($A, 0);` => `vx_resize(&mut repeat_buf, $A, 0);`
//@ subst? `self.r.read_exact(&mut repeat_buf)?;` => `self.r.read_exact(vx_all_mut(&mut repeat_buf))?;`
//@ subst? `let data = repeat_buf.iter().cycle().take($A); pixel_data.extend(data);` => `vx_extend_cycle(&mut pixel_data, &repeat_buf, $A);`
//@ subst? `self.r.by_ref().take($A).read_to_end(&mut pixel_data)?;` => `self.r.vx_take_read_to_end($A, &mut pixel_data)?;`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires 1 <= old(self).bytes_per_pixel <= 32 || (old(self).bytes_per_pixel == 0 && $n0 == 0),
    ensures res.is_ok() <==> rd(old(self).r.rest(), old(self).bytes_per_pixel as int, $n0 as int).is_some(),
        res matches Ok(v) ==> v@ == rd(old(self).r.rest(), old(self).bytes_per_pixel as int, $n0 as int).unwrap().subrange(0, $n0 as int),
        same_state(*old(self), *final(self)),
//@ loop 0 while
    invariant same_state(*old(self), *self), 1 <= self.bytes_per_pixel <= 32 || (self.bytes_per_pixel == 0 && $n0 == 0), repeat_buf@.len() == 0,
        ({ let (a, c) = (rd(old(self).r.rest(), self.bytes_per_pixel as int, $n0 as int), rd(self.r.rest(), self.bytes_per_pixel as int, $n0 - pixel_data@.len()));
           a == (match c { None => None, Some(t) => Some(pixel_data@ + t) }) }),
    decreases self.r.rest().len(),
//@ at loop0.start
    let ghost (r0, p0, b) = (self.r.rest(), pixel_data@, self.bytes_per_pixel as int);
    proof {
        reveal(rd); reveal(rep); lemma_hi();
        assert(forall|k: int| 1 <= k <= 128 ==> 1 <= #[trigger] (k * b) <= 128 * 32) by (nonlinear_arith) requires 1 <= b <= 32;
    }
//@ at loop0.end
    proof {
        let n = (r0[0] % 128) as int + 1;
        let k = if n * b <= r0.len() - 1 { n * b } else { r0.len() - 1 };
        let used = if r0[0] >= 128 { b } else { k };
        assert(r0.skip(1).skip(used) =~= r0.skip(1 + used));
        let h = if r0[0] >= 128 { rep(r0.subrange(1, 1 + b), n) } else { r0.subrange(1, 1 + k) };
        if r0[0] >= 128 { assert(r0.skip(1).subrange(0, b) =~= r0.subrange(1, 1 + b)); assert(pixel_data@ =~= p0 + h); }
        else { assert(r0.skip(1).subrange(0, k) =~= r0.subrange(1, 1 + k)); assert(pixel_data@ =~= p0 + h); }
        match rd(self.r.rest(), b, $n0 - pixel_data@.len()) { None => {}, Some(t) => { assert(p0 + (h + t) =~= (p0 + h) + t); } }
    }
//@ at loop0.before
    proof { match rd(self.r.rest(), self.bytes_per_pixel as int, $n0 as int) { None => {}, Some(t) => { assert(Seq::<u8>::empty() + t =~= t); } } }
//@ at loop0.after
    proof { reveal(rd); assert(pixel_data@ + Seq::<u8>::empty() =~= pixel_data@); assert(pixel_data@.len() == $n0 ==> pixel_data@.subrange(0, $n0 as int) =~= pixel_data@); }
//@end
}
pub closed spec fn same_state<R>(a: TgaDecoder<R>, b: TgaDecoder<R>) -> bool {
    a.width == b.width && a.height == b.height && a.bytes_per_pixel == b.bytes_per_pixel && a.image_type == b.image_type && a.color_type == b.color_type && a.header == b.header && a.color_map == b.color_map
}
proof fn lemma_hi()
    ensures forall|x: u8| (#[trigger] (x & 0x80) != 0) <==> x >= 128, forall|x: u8| #[trigger] (x & !0x80) == x % 128
{
    assert(forall|x: u8| (#[trigger] (x & 0x80) != 0) <==> x >= 128) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & !0x80) == x % 128) by (bit_vector);
}
} // verus!
fn main() {}
