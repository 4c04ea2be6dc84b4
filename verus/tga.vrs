//@include tga_rle.vrs
// the rest of the TGA codec: header, colour maps, channel order, row order, and reading what was written
verus! {
//@include chunk_mut.vrs
#[verifier::external_body]
pub fn vx_header0() -> (r: Header) ensures r == header0() { unimplemented!() }
pub open spec fn header0() -> Header { Header { id_length: 0, map_type: 0, image_type: 0, map_origin: 0, map_length: 0, map_entry_size: 0, x_origin: 0, y_origin: 0, image_width: 0, image_height: 0, pixel_depth: 0, image_desc: 0 } }
#[verifier::external_body]
pub fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { vec![0; n] }
#[verifier::external_body]
pub fn vx_swap(s: &mut [u8], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len(), ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]) { s.swap(a, b) }
#[verifier::external_body]
pub fn vx_u16(x: u32) -> (r: ImageResult<u16>) ensures r.is_ok() <==> x <= u16::MAX, r matches Ok(v) ==> v == x { unimplemented!() }
// `v.get(a..b)`
#[verifier::external_body]
pub fn vx_get(v: &Vec<u8>, a: usize, b: usize) -> (r: Option<&[u8]>) ensures r.is_some() <==> a <= b <= v@.len(), r matches Some(x) ==> x@ == v@.subrange(a as int, b as int) { v.get(a..b) }
#[verifier::external_body]
pub fn vx_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { Vec::from(s) }
#[verifier::external_body]
pub fn vx_vmut(v: &mut Vec<u8>) -> (o: &mut [u8]) ensures o@ == old(v)@, final(v)@ == final(o)@ { v }
// proved under C07
#[verifier::external_body]
pub fn vx_buffer_size(c: ExtendedColorType, w: u32, h: u32) -> (r: u64) ensures r == (if (w * ebits(c) + 7) / 8 * h > u64::MAX { u64::MAX as int } else { (w * ebits(c) + 7) / 8 * h }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_total(w: usize, h: usize, c: ColorType) -> (r: u64) ensures r == (if w * h * cbytes(c) > u64::MAX { u64::MAX as int } else { w * h * cbytes(c) }) { unimplemented!() }
// ---- the header ----
pub open spec fn itype(x: u8) -> ImageType {
    if x == 0 { ImageType::NoImageData } else if x == 1 { ImageType::RawColorMap } else if x == 2 { ImageType::RawTrueColor } else if x == 3 { ImageType::RawGrayScale }
    else if x == 9 { ImageType::RunColorMap } else if x == 10 { ImageType::RunTrueColor } else if x == 11 { ImageType::RunGrayScale } else { ImageType::Unknown }
}
pub open spec fn colored(t: ImageType) -> bool { t is RawColorMap || t is RunColorMap || t is RawTrueColor || t is RunTrueColor }
pub open spec fn mapped(t: ImageType) -> bool { t is RawColorMap || t is RunColorMap }
pub open spec fn encoded(t: ImageType) -> bool { t is RunGrayScale || t is RunColorMap || t is RunTrueColor }
impl ImageType {
//@fn src/codecs/tga/header.rs new ctx="impl ImageType" ret=res vis=pub
//@ spec
    ensures res == itype($n0),
//@end
//@fn src/codecs/tga/header.rs is_color ctx="impl ImageType" ret=res vis=pub
//@ spec
    ensures res == colored(*self),
//@end
//@fn src/codecs/tga/header.rs is_color_mapped ctx="impl ImageType" ret=res vis=pub
//@ spec
    ensures res == mapped(*self),
//@end
//@fn src/codecs/tga/header.rs is_encoded ctx="impl ImageType" ret=res vis=pub
//@ spec
    ensures res == encoded(*self),
//@end
}
pub open spec fn parse(s: Seq<u8>) -> Header {
    Header { id_length: s[0], map_type: s[1], image_type: s[2], map_origin: v16(s, 3, true) as u16, map_length: v16(s, 5, true) as u16, map_entry_size: s[7],
        x_origin: v16(s, 8, true) as u16, y_origin: v16(s, 10, true) as u16, image_width: v16(s, 12, true) as u16, image_height: v16(s, 14, true) as u16, pixel_depth: s[16], image_desc: s[17] }
}
pub open spec fn hdr_bytes(h: Header) -> Seq<u8> {
    seq![h.id_length, h.map_type, h.image_type, (h.map_origin % 256) as u8, (h.map_origin / 256) as u8, (h.map_length % 256) as u8, (h.map_length / 256) as u8, h.map_entry_size,
        (h.x_origin % 256) as u8, (h.x_origin / 256) as u8, (h.y_origin % 256) as u8, (h.y_origin / 256) as u8, (h.image_width % 256) as u8, (h.image_width / 256) as u8,
        (h.image_height % 256) as u8, (h.image_height / 256) as u8, h.pixel_depth, h.image_desc]
}
// a header is read as it was written
proof fn lemma_parse(h: Header, t: Seq<u8>) ensures parse(hdr_bytes(h) + t) == h, (hdr_bytes(h) + t).skip(18) == t { assert((hdr_bytes(h) + t).skip(18) =~= t); }
pub open spec fn writable(c: ExtendedColorType) -> bool { c is L8 || c is La8 || c is Rgb8 || c is Rgba8 }
pub open spec fn has_alpha(c: ExtendedColorType) -> bool { c is La8 || c is Rgba8 }
pub open spec fn has_color(c: ExtendedColorType) -> bool { c is Rgb8 || c is Rgba8 }
// depth in bits, alpha bits and the top-left origin in the descriptor, true colour 2 / gray 3, run-length coded 8 more
pub open spec fn header_for(c: ExtendedColorType, w: u16, h: u16, rle: bool) -> Header {
    Header { image_type: ((if has_color(c) { 2int } else { 3 }) + (if rle { 8int } else { 0 })) as u8, image_width: w, image_height: h, pixel_depth: ebits(c) as u8,
        image_desc: if has_alpha(c) { 40 } else { 32 }, ..header0() }
}
impl Header {
//@fn src/codecs/tga/header.rs from_pixel_info ctx="impl Header" ret=res vis=pub
//@ subst? `Self::default()` => `vx_header0()`
//@ subst? `ImageError::Unsupported($A)` => `ImageError::Other`
//@ spec
    ensures $n1 > 0 && $n2 > 0 ==> (res.is_ok() <==> writable($n0)) && (res.is_ok() ==> res.unwrap() == header_for($n0, $n1, $n2, $n3)),
        $n1 == 0 || $n2 == 0 ==> res == ImageResult::<Header>::Ok(header0()),
//@ at body.start
    proof { assert(8u8 & 0b1111u8 == 8u8 && 0u8 & 0b1111u8 == 0u8 && 8u8 | 0b10_0000u8 == 40u8 && 0u8 | 0b10_0000u8 == 32u8) by (bit_vector); }
//@end
//@fn src/codecs/tga/header.rs from_reader ctx="impl Header" ret=res vis=pub
//@ sigsubst `from_reader` => `from_reader<R: Read>`
//@ sigsubst `&mut dyn Read` => `&mut R`
//@ spec
    ensures res.is_ok() <==> old($n0).rest().len() >= 18,
        res.is_ok() ==> res.unwrap() == parse(old($n0).rest()) && final($n0).rest() == old($n0).rest().skip(18),
//@ at body.start
    let ghost s = $n0.rest();
    proof {
        assert forall|a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    }
//@end
//@fn src/codecs/tga/header.rs write_to ctx="impl Header" ret=res vis=pub
//@ sigsubst `write_to` => `write_to<W: Write>`
//@ sigsubst `&mut dyn Write` => `&mut W`
//@ spec
    ensures res.is_ok() ==> final($n0).out() == old($n0).out() + hdr_bytes(*self),
//@ at before `Ok(())`
    proof { assert(w.out() =~= old($n0).out() + hdr_bytes(*self)); }
//@end
}
// ---- the encoder ----
// the first and third byte of every pixel of n bytes changed over
pub open spec fn swap3(s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(s.len(), |k: int| if k % n == 0 && k + 2 < s.len() { s[k + 2] } else if k % n == 2 { s[k - 2] } else { s[k] }) }
pub open spec fn stored(c: ExtendedColorType, s: Seq<u8>) -> Seq<u8> { if has_color(c) { swap3(s, ebits(c) / 8) } else { s } }
proof fn lemma_mod_parts(k: int, n: int, q: int, r: int)
    requires n > 0, k == q * n + r, 0 <= r < n
    ensures k % n == r, k / n == q
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n, q, r); }
// changing over piece q of a sequence whose earlier pieces are done
proof fn lemma_piece(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>, n: int, q: int)
    requires n == 3 || n == 4, q >= 0, q * n + n <= s.len(), a.len() == s.len(), s.len() % n as nat == 0,
        forall|k: int| 0 <= k < s.len() ==> #[trigger] a[k] == (if k < q * n { swap3(s, n)[k] } else { s[k] }),
        b == a.subrange(0, q * n) + a.subrange(q * n, q * n + n).update(0, a[q * n + 2]).update(2, a[q * n]) + a.subrange(q * n + n, a.len() as int),
    ensures b.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] b[k] == (if k < q * n + n { swap3(s, n)[k] } else { s[k] }),
{
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] b[k] == (if k < q * n + n { swap3(s, n)[k] } else { s[k] }) by {
        if q * n <= k < q * n + n { lemma_mod_parts(k, n, q, k - q * n); assert(a[k] == s[k] && a[q * n] == s[q * n] && a[q * n + 2] == s[q * n + 2]); }
        else { assert(a[k] == if k < q * n { swap3(s, n)[k] } else { s[k] }); }
    }
}
proof fn lemma_size(w: int, h: int, e: int)
    requires 0 <= w <= u32::MAX, 0 <= h <= u32::MAX, 0 <= e
    ensures e % 8 == 0 ==> (w * e + 7) / 8 * h == w * h * (e / 8), e >= 8 && e % 8 == 0 ==> (w * h * (e / 8)) % (e / 8) == 0, w * h * (e / 8) >= 0
{
    if e % 8 == 0 {
        let b = e / 8;
        assert(w * e == 8 * (w * b)) by (nonlinear_arith) requires e == 8 * b;
        assert((w * b) * h == w * h * b) by (nonlinear_arith);
        if b > 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w * h, b); }
    }
    assert(w * h * (e / 8) >= 0) by (nonlinear_arith) requires w >= 0, h >= 0, e / 8 >= 0;
}
impl<W: Write> TgaEncoder<W> {
//@fn src/codecs/tga/encoder.rs encode ctx="impl < W : Write > TgaEncoder" ret=res vis=pub
//@ panics allow
//@ sigsubst `mut self` => `&mut self`
//@ subst? `color_type.buffer_size(width, height)` => `vx_buffer_size(color_type, width, height)`
//@ subst? `u16::try_from($A).map_err($B)` => `vx_u16($A)`
//@ subst? `Vec::from(buf)` => `vx_vec(buf)`
//@ subst? `for pixel in image.chunks_mut($N) {$B}` => `let ghost s0 = image@; let vxs: usize = $N; let vxn = vx_nchunks(image.len(), vxs); for vxk in 0..vxn { let ghost a0 = image@; let pixel = vx_chunk_mut(vx_vmut(&mut image), vxs, vxk); $B proof { lemma_piece(a0, image@, s0, vxs as int, vxk as int); } }`
//@ subst? `pixel.swap($A, $B)` => `vx_swap(pixel, $A, $B)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires $n0@.len() <= isize::MAX,   // no slice is longer
    ensures final(self).rle() == old(self).rle(),
        // the header, and the pixels in file order, as they are or run-length coded
        res.is_ok() && $n1 > 0 && $n2 > 0 ==> writable($n3) && $n1 <= u16::MAX && $n2 <= u16::MAX && $n0@.len() == $n1 * $n2 * (ebits($n3) / 8)
            && exists|body: Seq<u8>| #![trigger written(*old(self), *final(self), body)] written(*old(self), *final(self), body)
                && final(self).out() == old(self).out() + hdr_bytes(header_for($n3, $n1 as u16, $n2 as u16, old(self).rle())) + body && codes($n3, old(self).rle(), body, $n0@),
//@ at body.start
    let ghost o0 = self.out(); let ghost (w0, h0) = ($n1 as int, $n2 as int); let ghost b0 = ebits($n3) / 8; let ghost rle = self.use_rle; let ghost buf0 = $n0@;
    proof { lemma_size(w0, h0, ebits($n3)); }
//@ at before `let width`
    proof { if ebits($n3) % 8 == 0 { assert(buf0.len() == w0 * h0 * b0); if b0 > 0 { assert(buf0.len() % b0 as nat == 0); } } assert(0 * b0 == 0); }
//@ at after `let header = Header::from_pixel_info(color_type, width, height, self.use_rle)?;`
    let ghost hb = hdr_bytes(header_for($n3, width, height, rle));
    proof {
        if w0 > 0 && h0 > 0 { assert(itype(header.image_type) == (if has_color($n3) { if rle { ImageType::RunTrueColor } else { ImageType::RawTrueColor } } else { if rle { ImageType::RunGrayScale } else { ImageType::RawGrayScale } })); }
        else { assert(w0 * h0 * b0 == 0) by (nonlinear_arith) requires w0 == 0 || h0 == 0; }
    }
//@ at before `Ok(())`
    proof {
        if w0 > 0 && h0 > 0 {
            let body = self.out().skip(o0.len() as int + 18);
            if has_color($n3) { assert(stored($n3, buf0) =~= swap3(buf0, b0)); }
            assert((o0 + hb).len() == o0.len() as int + 18);
            assert(self.out().subrange(0, o0.len() as int + 18) =~= o0 + hb);
            assert(self.out() =~= o0 + hb + body);
            if !rle { assert(body =~= stored($n3, buf0)); }
            assert(written(*old(self), *self, body));
        }
    }
//@ at loop0.before
    proof { assert(has_color($n3) ==> b0 == 3 || b0 == 4); }
//@ at loop0.start
    proof { assert(vxk * b0 + b0 <= s0.len() && (vxk + 1) * b0 == vxk * b0 + b0) by (nonlinear_arith) requires vxk + 1 <= vxn, vxn * b0 == s0.len(), b0 >= 1; }
//@ at loop0.after
    proof { assert(image@ =~= swap3(buf0, b0)); }
//@ loop 0 for
    invariant image@.len() == s0.len(), forall|k: int| 0 <= k < s0.len() ==> #[trigger] image@[k] == (if k < vxk * (ebits($n3) / 8) { swap3(s0, ebits($n3) / 8)[k] } else { s0[k] }),
//@ at loop1.before
    proof { assert(has_color($n3) ==> b0 == 3 || b0 == 4); }
//@ at loop1.start
    proof { assert(vxk * b0 + b0 <= s0.len() && (vxk + 1) * b0 == vxk * b0 + b0) by (nonlinear_arith) requires vxk + 1 <= vxn, vxn * b0 == s0.len(), b0 >= 1; }
//@ at loop1.after
    proof { assert(image@ =~= swap3(buf0, b0)); }
//@ loop 1 for
    invariant image@.len() == s0.len(), forall|k: int| 0 <= k < s0.len() ==> #[trigger] image@[k] == (if k < vxk * (ebits($n3) / 8) { swap3(s0, ebits($n3) / 8)[k] } else { s0[k] }),
//@end
}
pub open spec fn written<W: Write>(a: TgaEncoder<W>, b: TgaEncoder<W>, body: Seq<u8>) -> bool { true }
pub open spec fn codes(c: ExtendedColorType, rle: bool, body: Seq<u8>, img: Seq<u8>) -> bool { if rle { expand(body, ebits(c) / 8) == Some(stored(c, img)) } else { body == stored(c, img) } }
// ---- the decoder ----
impl ColorMap {
    pub closed spec fn start(&self) -> int { self.start_offset as int }
    pub closed spec fn esize(&self) -> int { self.entry_size as int }
    pub closed spec fn all(&self) -> Seq<u8> { self.bytes@ }
    // entry i, counted in entries after an offset in bytes
    pub open spec fn entry(&self, i: int) -> Option<Seq<u8>> {
        let a = self.start() + self.esize() * i; if a + self.esize() <= self.all().len() { Some(self.all().subrange(a, a + self.esize())) } else { None } }
//@fn src/codecs/tga/decoder.rs from_reader ctx="impl ColorMap" ret=res vis=pub
//@ sigsubst `from_reader` => `from_reader<R: Read>`
//@ sigsubst `&mut dyn Read` => `&mut R`
//@ subst? `vec![0; $A]` => `vx_zeros($A)`
//@ subst? `r.read_exact(&mut bytes)` => `r.read_exact(vx_vmut(&mut bytes))`
//@ spec
    ensures ({ let e = ($n3 as int + 7) / 8; let n = e * $n2; let s = old($n0).rest();
        (res.is_ok() <==> s.len() >= n) && (res.is_ok() ==> res.unwrap().all() == s.subrange(0, n) && res.unwrap().esize() == e && res.unwrap().start() == $n1 && final($n0).rest() == s.skip(n)) }),
//@ at body.start
    proof { let e = ($n3 as int + 7) / 8; assert(0 <= e * $n2 <= 33 * 65536) by (nonlinear_arith) requires 0 <= e <= 33, 0 <= $n2 <= 65535; }
//@end
//@fn src/codecs/tga/decoder.rs get ctx="impl ColorMap" ret=res vis=pub
//@ subst? `self.bytes.get($A..$B)` => `vx_get(&self.bytes, $A, $B)`
//@ spec
    requires self.start() + self.esize() * ($n0 + 1) <= usize::MAX,
    ensures match res { None => self.entry($n0 as int).is_none(), Some(x) => self.entry($n0 as int) == Some(x@) },
//@ at body.start
    proof { assert(self.esize() * ($n0 + 1) == self.esize() * $n0 + self.esize() && self.esize() * $n0 >= 0) by (nonlinear_arith) requires self.esize() >= 0, $n0 >= 0; }
//@end
}
// the colour layout the header describes
pub open spec fn layout(h: Header) -> Option<ColorType> {
    let a = (h.image_desc & 0b1111u8) as int; let d = h.pixel_depth as int; let o = if h.map_type != 0 { h.map_entry_size as int } else { d - a }; let c = colored(itype(h.image_type));
    if d % 8 != 0 || d > 32 || o < 0 { None }
    else if c && ((a == 0 && o == 32) || (a == 8 && o == 24)) { Some(ColorType::Rgba8) }
    else if c && a == 0 && o == 24 { Some(ColorType::Rgb8) }
    else if !c && a == 8 && o == 8 { Some(ColorType::La8) }
    else if !c && ((a == 0 && o == 8) || (a == 8 && o == 0)) { Some(ColorType::L8) }
    else { None }
}
// where the colour map and the pixels start
pub open spec fn map_at(s: Seq<u8>) -> int { 18 + s[0] as int }
pub open spec fn map_len(h: Header) -> int { if h.map_type == 1 { ((h.map_entry_size as int + 7) / 8) * h.map_length } else { 0 } }
pub open spec fn opens(s: Seq<u8>) -> bool { s.len() >= 18 && s.len() >= map_at(s) + map_len(parse(s)) && layout(parse(s)).is_some() }
pub open spec fn pixels_at(s: Seq<u8>) -> int { map_at(s) + map_len(parse(s)) }
// colour-mapped pixels: big-endian indices of b bytes
pub open spec fn index_of(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 256 * index_of(s.drop_last()) + s.last() } }
pub open spec fn mapped_all(m: ColorMap, s: Seq<u8>, b: int) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 || b <= 0 { Some(Seq::empty()) }
    else { let p = if s.len() <= b { s } else { s.subrange(0, b) };
        match m.entry(index_of(p)) { None => None, Some(c) => match mapped_all(m, s.skip(p.len() as int), b) { None => None, Some(t) => Some(c + t) } } }
}
// ---- rows ----
pub open spec fn upright(s: Seq<u8>, h: int, bottom_up: bool) -> Seq<u8> {
    if bottom_up && h > 0 { let w = s.len() as int / h; Seq::new(s.len(), |k: int| s[(h - 1 - k / w) * w + k % w]) } else { s } }
pub open spec fn bottom_up(h: Header) -> bool { 0b10_0000u8 & h.image_desc == 0 }
pub open spec fn unstored(c: ColorType, s: Seq<u8>) -> Seq<u8> { if c is Rgb8 || c is Rgba8 { swap3(s, cbytes(c)) } else { s } }
pub open spec fn cell(s: Seq<u8>, w: int, r: int, c: int) -> u8 { s[r * w + c] }
pub proof fn lemma_cells(a: Seq<u8>, b: Seq<u8>, w: int, h: int)
    requires w >= 0, h > 0, a.len() == w * h, b.len() == w * h, forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> #[trigger] cell(b, w, r, c) == cell(a, w, h - 1 - r, c)
    ensures b == upright(a, h, true)
{
    assert(a.len() as int / h == w) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a.len() as int, h, w, 0); assert(w * h == h * w) by (nonlinear_arith); }
    assert forall|k: int| 0 <= k < b.len() implies b[k] == upright(a, h, true)[k] by {
        assert(w != 0) by (nonlinear_arith) requires 0 <= k, k < w * h;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, w);
        let (r, c) = (k / w, k % w);
        assert(r * w == w * r) by (nonlinear_arith);
        assert(k == w * r + c && 0 <= c < w);
        assert(r >= 0) by (nonlinear_arith) requires k == w * r + c, 0 <= c, c < w, 0 <= k;
        assert(r < h) by (nonlinear_arith) requires k == w * r + c, 0 <= c, c < w, k < w * h;
        assert(cell(b, w, r, c) == cell(a, w, h - 1 - r, c));
    }
    assert(b =~= upright(a, h, true));
}
impl<R: Read> TgaDecoder<R> {
    pub closed spec fn head(&self) -> Header { self.header }
    pub closed spec fn map(&self) -> Option<ColorMap> { self.color_map }
    pub closed spec fn src(&self) -> Seq<u8> { self.r.rest() }
    pub closed spec fn kind(&self) -> ColorType { self.color_type }
    pub closed spec fn bpp(&self) -> int { self.bytes_per_pixel as int }
    pub closed spec fn w(&self) -> int { self.width as int }
    pub closed spec fn h(&self) -> int { self.height as int }
    pub closed spec fn headed(&self) -> bool {
        self.width == self.header.image_width && self.height == self.header.image_height && self.bytes_per_pixel == (self.header.pixel_depth as int + 7) / 8 && self.image_type == itype(self.header.image_type) }
    pub open spec fn ready(&self) -> bool {
        self.headed() && layout(self.head()) == Some(self.kind()) && (self.map() matches Some(m) ==> m.start() <= u16::MAX && m.esize() == (self.head().map_entry_size + 7) / 8) }
//@fn src/codecs/tga/decoder.rs read_header ctx="impl < R : Read > TgaDecoder" ret=res
//@ spec
    ensures res.is_ok() <==> old(self).src().len() >= 18,
        res.is_ok() ==> final(self).headed() && final(self).head() == parse(old(self).src()) && final(self).src() == old(self).src().skip(18) && final(self).map() == old(self).map(),
//@end
//@fn src/codecs/tga/decoder.rs read_image_id ctx="impl < R : Read > TgaDecoder" ret=res
//@ subst? `self.r.read_exact(&mut vec![0; $A])?` => `let mut vxb = vx_zeros($A); self.r.read_exact(vx_vmut(&mut vxb))?`
//@ spec
    ensures ({ let n = old(self).head().id_length as int;
        (res.is_ok() <==> old(self).src().len() >= n) && (res.is_ok() ==> final(self).src() == old(self).src().skip(n)) }), same_state(*old(self), *final(self)),
//@end
//@fn src/codecs/tga/decoder.rs read_color_map ctx="impl < R : Read > TgaDecoder" ret=res
//@ spec
    ensures ({ let n = map_len(old(self).head());
        (res.is_ok() <==> old(self).src().len() >= n) && (res.is_ok() ==> final(self).src() == old(self).src().skip(n) && final(self).head() == old(self).head() && (old(self).headed() ==> final(self).headed())
            && if old(self).head().map_type == 1 { final(self).map().is_some() && final(self).map().unwrap().all() == old(self).src().subrange(0, n) && final(self).map().unwrap().start() == old(self).head().map_origin
                && final(self).map().unwrap().esize() == (old(self).head().map_entry_size + 7) / 8 } else { final(self).map() == old(self).map() }) }),
//@ at body.start
    proof { assert(self.r.rest().skip(0) =~= self.r.rest()); }
//@end
//@fn src/codecs/tga/decoder.rs read_color_information ctx="impl < R : Read > TgaDecoder" ret=res
//@ subst? `ImageError::Unsupported($A)` => `ImageError::Other`
//@ spec
    requires old(self).headed(),
    ensures res.is_ok() <==> layout(old(self).head()).is_some(),
        res.is_ok() ==> final(self).headed() && final(self).head() == old(self).head() && final(self).map() == old(self).map() && final(self).src() == old(self).src() && layout(final(self).head()) == Some(final(self).kind()),
//@ at body.start
    proof { let d = self.header.image_desc; assert(0 <= d & 0b1111u8 <= 15) by (bit_vector); }
//@end
    pub closed spec fn fresh(&self) -> bool { !self.has_loaded_metadata && self.color_map.is_none() }
//@fn src/codecs/tga/decoder.rs read_metadata ctx="impl < R : Read > TgaDecoder" ret=res
//@ spec
    requires old(self).fresh(),
    ensures res.is_ok() <==> opens(old(self).src()), res.is_ok() ==> final(self).of(old(self).src()),
//@ at body.start
    let ghost s = self.r.rest();
    proof { assert forall|a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
        if s.len() >= 18 { let h = parse(s); assert(map_len(h) >= 0) by (nonlinear_arith) requires map_len(h) == ((h.map_entry_size as int + 7) / 8) * h.map_length || map_len(h) == 0; } }
//@ at before `Ok(())`
    proof { assert(s.skip(map_at(s)).subrange(0, map_len(parse(s))) =~= s.subrange(map_at(s), pixels_at(s))); assert(self.map() matches Some(m) ==> m.all() == s.subrange(map_at(s), pixels_at(s))); }
//@end
    // the decoder a file that starts with `s` opens
    pub open spec fn of(&self, s: Seq<u8>) -> bool {
        opens(s) && self.ready() && self.head() == parse(s) && self.src() == s.skip(pixels_at(s)) && (self.map().is_some() <==> parse(s).map_type == 1)
            && (self.map() matches Some(m) ==> m.all() == s.subrange(map_at(s), pixels_at(s)) && m.start() == parse(s).map_origin && m.esize() == (parse(s).map_entry_size as int + 7) / 8) }
//@fn src/codecs/tga/decoder.rs new ctx="impl < R : Read > TgaDecoder" ret=res vis=pub
//@ subst? `Header::default()` => `vx_header0()`
//@ spec
    ensures res.is_ok() <==> opens($n0.rest()), res matches Ok(d) ==> d.of($n0.rest()),
//@end
//@fn src/codecs/tga/decoder.rs is_flipped_vertically ctx="impl < R : Read > TgaDecoder" ret=res
//@ spec
    ensures res == bottom_up(self.head()),
//@ at body.start
    proof { let d = self.header.image_desc; assert(d & 0b10_0000u8 == 0b10_0000u8 & d && (0b10_0000u8 & d == 0 || 0b10_0000u8 & d == 0b10_0000u8)) by (bit_vector);
        assert(d >> 5 & 1 == 0 <==> 0b10_0000u8 & d == 0) by (bit_vector); }
//@end
//@fn src/codecs/tga/decoder.rs reverse_encoding_in_output ctx="impl < R : Read > TgaDecoder"
//@ subst? `for chunk in pixels.chunks_mut($N) {$B}` => `let ghost s0 = pixels@; let vxs: usize = $N; let vxn = vx_nchunks(pixels.len(), vxs); for vxk in 0..vxn { let ghost a0 = pixels@; let chunk = vx_chunk_mut(pixels, vxs, vxk); $B proof { lemma_piece(a0, pixels@, s0, vxs as int, vxk as int); } }`
//@ subst? `chunk.swap($A, $B)` => `vx_swap(chunk, $A, $B)`
//@ subst? `self.color_type.bytes_per_pixel().into()` => `usize::from(self.color_type.bytes_per_pixel())`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old($n0)@.len() % cbytes(old(self).kind()) as nat == 0,
    ensures *final(self) == *old(self), final($n0)@ == unstored(old(self).kind(), old($n0)@),
//@ at loop0.before
    let ghost b0 = cbytes(self.kind());
//@ at loop0.start
    proof { assert(vxk * b0 + b0 <= s0.len() && (vxk + 1) * b0 == vxk * b0 + b0) by (nonlinear_arith) requires vxk + 1 <= vxn, vxn * b0 == s0.len(), b0 >= 1; }
//@ at loop0.after
    proof { assert(pixels@ =~= swap3(s0, b0)); }
//@ loop 0 for
    invariant final($n0)@ == final(pixels)@, pixels@.len() == s0.len(), forall|k: int| 0 <= k < s0.len() ==> #[trigger] pixels@[k] == (if k < vxk * b0 { swap3(s0, b0)[k] } else { s0[k] }),
//@end
//@fn src/codecs/tga/decoder.rs flip_vertically ctx="impl < R : Read > TgaDecoder"
//@ subst? `pixels.swap($A, $B)` => `vx_swap(pixels, $A, $B)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).h() > 0 ==> old($n0)@.len() % old(self).h() as nat == 0, old($n0)@.len() <= isize::MAX,
    ensures *final(self) == *old(self), final($n0)@ == upright(old($n0)@, old(self).h(), bottom_up(old(self).head())),
//@ at loop0.before
    let ghost (s0, wd, ht) = (pixels@, width_bytes as int, self.height as int);
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s0.len() as int, ht); assert(wd * ht == ht * wd) by (nonlinear_arith); }
//@ loop 0 for
    invariant final($n0)@ == final(pixels)@, pixels@.len() == s0.len(), s0.len() == wd * ht, wd >= 0,
        forall|r: int, c: int| 0 <= r < ht && 0 <= c < wd ==> #[trigger] cell(pixels@, wd, r, c) == (if r < $v0 || r >= ht - $v0 { cell(s0, wd, ht - 1 - r, c) } else { cell(s0, wd, r, c) }),
//@ at loop0.start
    proof {
        assert($v0 + $v0 + 2 <= ht); let a = $v0 as int;
        assert((ht - a) * wd - wd == (ht - 1 - a) * wd && (ht - a) * wd <= wd * ht && (ht - 1 - a) * wd + wd <= wd * ht && 0 <= a * wd && a * wd + wd <= (ht - 1 - a) * wd && (ht - a) * wd >= wd) by (nonlinear_arith) requires 0 <= a, a + a + 2 <= ht, wd >= 0;
    }
//@ loop 1 for
    invariant final($n0)@ == final(pixels)@, pixels@.len() == s0.len(),
        forall|r: int, c: int| 0 <= r < ht && 0 <= c < wd ==> #[trigger] cell(pixels@, wd, r, c) == (if r < $v0 || r >= ht - $v0 || ((r == $v0 || r == ht - 1 - $v0) && c < $v1) { cell(s0, wd, ht - 1 - r, c) } else { cell(s0, wd, r, c) }),
//@ at loop1.start
    let ghost p0 = pixels@;
//@ at loop1.end
    proof {
        let (v, x) = ($v0 as int, $v1 as int);
        assert(cell(p0, wd, v, x) == cell(s0, wd, v, x) && cell(p0, wd, ht - 1 - v, x) == cell(s0, wd, ht - 1 - v, x));
        assert forall|r: int, c: int| 0 <= r < ht && 0 <= c < wd implies #[trigger] cell(pixels@, wd, r, c) == (if r < v || r >= ht - v || ((r == v || r == ht - 1 - v) && c < x + 1) { cell(s0, wd, ht - 1 - r, c) } else { cell(s0, wd, r, c) }) by {
            let k = r * wd + c;
            assert(cell(p0, wd, r, c) == p0[k]);
            assert(0 <= k < wd * ht) by (nonlinear_arith) requires 0 <= r < ht, 0 <= c < wd, k == r * wd + c;
            if k == v * wd + x || k == (ht - 1 - v) * wd + x {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, wd, r, c);
                if k == v * wd + x { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, wd, v, x); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, wd, ht - 1 - v, x); }
            }
        }
    }
//@ at loop0.after
    proof { lemma_cells(s0, pixels@, wd, ht); }
//@end
//@fn src/codecs/tga/decoder.rs expand_color_map ctx="impl < R : Read > TgaDecoder" ret=res
//@ subst? `fn bytes_to_index($A) -> usize {$B}` => ` `
//@ subst? `Vec::with_capacity($A)` => `Vec::<u8>::with_capacity($A)`
//@ subst? `Err(io::ErrorKind::Other.into())` => `Err(vx_io_other())`
//@ subst? `self.color_map.as_ref().ok_or_else($A)?` => `(match self.color_map { Some(ref vxm) => vxm, None => return Err(vx_io_other()) })`
//@ subst? `result.extend_from_slice($A)` => `vx_extend(&mut result, $A)`
//@ forvec 0 `pixel_data.chunks($A)` => `vx_chunks(pixel_data, $A)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires self.ready(),
    ensures res.is_ok() <==> self.looked_up($n0@).is_some(), res matches Ok(v) ==> v@ == self.looked_up($n0@).unwrap(),
//@ at body.start
    proof { assert(0 <= self.width * self.height * 33 <= 65535 * 65535 * 33 && 0 <= self.width * self.height) by (nonlinear_arith) requires 0 <= self.width <= 65535, 0 <= self.height <= 65535;
        assert(self.width * self.height * ((self.header.map_entry_size as int + 7) / 8) <= 65535 * 65535 * 33) by (nonlinear_arith) requires 0 <= self.width * self.height <= 65535 * 65535, 0 <= (self.header.map_entry_size as int + 7) / 8 <= 33; }
//@ at loop0.before
    let ghost m = self.map().unwrap(); let ghost b = self.bpp(); let ghost mut pos = 0int;
    proof { assert($n0@.skip(0) =~= $n0@); assert(0 * b == 0); match mapped_all(m, $n0@, b) { None => {}, Some(t) => { assert(result@ + t =~= t); } } }
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), b == self.bytes_per_pixel, 1 <= b <= 4, m == self.map().unwrap(), self.ready(), *color_map == m,
        pos == (if vxk0 * b <= $n0@.len() { vxk0 * b } else { $n0@.len() as int }), b * vxi0.len() >= $n0@.len(), b * (vxi0.len() - 1) < $n0@.len() || vxi0.len() == 0,
        forall|k: int| 0 <= k < vxi0.len() ==> (#[trigger] vxi0[k])@ == $n0@.subrange(k * b, if (k + 1) * b <= $n0@.len() { (k + 1) * b } else { $n0@.len() as int }),
        mapped_all(m, $n0@, b) == (match mapped_all(m, $n0@.skip(pos), b) { None => None, Some(t) => Some(result@ + t) }),
    decreases vxi0.len() - vxk0,
//@ at loop0.start
    let ghost (pos0, r0) = (pos, result@); let ghost vxc = m.entry(index_of(vxi0[vxk0 as int]@)).unwrap();
    proof {
        let k = vxk0 as int; let n = $n0@.len() as int;
        assert(k * b < n && k * b >= 0 && (k + 1) * b == k * b + b) by (nonlinear_arith) requires 0 <= k, k + 1 <= vxi0.len(), b * (vxi0.len() - 1) < n, b >= 1;
        let s = $n0@.skip(pos0); let p = if s.len() <= b { s } else { s.subrange(0, b) };
        assert(p =~= vxi0[k]@);
        pos = pos0 + p.len();
        assert(s.skip(p.len() as int) =~= $n0@.skip(pos));
        lemma_index(p);
        assert(m.esize() * (index_of(p) + 1) <= 33 * 0x1_0000_0000) by (nonlinear_arith) requires 0 <= m.esize() <= 33, 0 <= index_of(p) + 1 <= 0x1_0000_0000;
    }
//@ at loop0.end
    proof { match mapped_all(m, $n0@.skip(pos), b) { None => {}, Some(t) => { assert(r0 + (vxc + t) =~= (r0 + vxc) + t); } } }
//@ at loop0.after
    proof { assert(vxk0 * b >= $n0@.len()) by (nonlinear_arith) requires vxk0 == vxi0.len(), b * vxi0.len() >= $n0@.len(); assert($n0@.skip(pos).len() == 0); assert(result@ + Seq::<u8>::empty() =~= result@); }
//@end
    pub open spec fn looked_up(&self, s: Seq<u8>) -> Option<Seq<u8>> { if self.bpp() == 0 || self.map().is_none() { None } else { mapped_all(self.map().unwrap(), s, self.bpp()) } }
    pub open spec fn raw_len(&self) -> int { self.w() * self.h() * self.bpp() }
    pub closed spec fn rle(&self) -> bool { encoded(self.image_type) }
    // the bytes of the pixels as the file has them
    pub open spec fn raw(&self) -> Option<Seq<u8>> {
        if self.rle() { match rd(self.src(), self.bpp(), self.raw_len()) { None => None, Some(x) => Some(x.subrange(0, self.raw_len())) } }
        else if self.src().len() >= self.raw_len() { Some(self.src().subrange(0, self.raw_len())) } else { None } }
    pub closed spec fn indexed(&self) -> bool { mapped(self.image_type) }
//@fn src/codecs/tga/decoder.rs read_all_encoded_data ctx="impl < R : Read > TgaDecoder" ret=res
//@ spec
    requires old(self).headed(), old(self).bpp() <= 4,
    ensures ({ let x = rd(old(self).src(), old(self).bpp(), old(self).raw_len()); (res.is_ok() <==> x.is_some()) && (res matches Ok(v) ==> v@ == x.unwrap().subrange(0, old(self).raw_len())) }), same_state(*old(self), *final(self)),
//@ at body.start
    proof { lemma_product(self.width as int, self.height as int, self.bytes_per_pixel as int); }
//@end
//@fn src/codecs/tga/decoder.rs read_image ctx="impl < R : Read > ImageDecoder for TgaDecoder" ret=res vis=pub
//@ panics allow
//@ sigsubst `mut self` => `&mut self`
//@ subst? `(u64::try_from(buf.len())) == (Ok(self.total_bytes()))` => `(buf.len() as u64) == vx_total(self.width, self.height, self.color_type)`
//@ subst? `let mut fallback_buf = vec![];` => `let mut fallback_buf: Vec<u8> = Vec::new();`
//@ subst? `self.color_type.bytes_per_pixel()` => `vx_cbytes(self.color_type)`
//@ subst? `buf[..$A].copy_from_slice(&pixel_data)` => `vx_copy_into(buf, 0, $A, vx_all(&pixel_data))`
//@ subst? `buf.copy_from_slice(&pixel_data)` => `vx_copy_all(buf, vx_all(&pixel_data))`
//@ subst? `&buf[..$A]` => `vx_idx(buf, 0, $A)`
//@ subst? `&fallback_buf[..]` => `vx_all(&fallback_buf)`
//@ subst? `&fallback_buf[..$A]` => `vx_idx(&fallback_buf, 0, $A)`
//@ subst? `self.r.by_ref().read_exact(&mut buf[..$A])` => `self.r.read_exact(vx_slice_mut(buf, 0, $A))`
//@ subst? `self.r.by_ref().read_exact(&mut fallback_buf[..$A])` => `self.r.read_exact(vx_slice_mut(vx_vmut(&mut fallback_buf), 0, $A))`
//@ subst? `fallback_buf.resize($A, 0u8)` => `vx_resize(&mut fallback_buf, $A, 0u8)`
//@ subst? `ImageError::Limits($A)` => `ImageError::Other`
//@ spec
    requires old(self).ready(), old($n0)@.len() <= isize::MAX,
    ensures old($n0)@.len() == old(self).w() * old(self).h() * cbytes(old(self).kind()),
        final($n0)@.len() == old($n0)@.len(),
        res.is_ok() <==> old(self).raw().is_some() && (old(self).indexed() ==> (old(self).looked_up(old(self).raw().unwrap()) matches Some(x) && x.len() == old($n0)@.len())),
        res.is_ok() ==> final($n0)@ == upright(unstored(old(self).kind(), old(self).stored_pixels(old($n0)@)), old(self).h(), bottom_up(old(self).head())),
//@ at body.start
    let ghost (wd, ht, nb, cb) = (self.width as int, self.height as int, self.bytes_per_pixel as int, cbytes(self.color_type));
    proof {
        lemma_product(wd, ht, nb); lemma_product(wd, ht, cb); lemma_rd_len(self.src(), nb, wd * ht * nb);
        assert(nb <= cb ==> wd * ht * nb <= wd * ht * cb) by (nonlinear_arith) requires wd * ht >= 0;
        assert(wd * ht * cb == (wd * cb) * ht) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(wd * ht, cb);
        if ht > 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(wd * cb, ht); }
    }
//@ at before `if self.image_type.is_color_mapped()`
    proof { assert(rawbuf@ =~= old(self).raw().unwrap()); if nb == cb { assert(buf@ =~= old(self).raw().unwrap()); } else if nb < cb { assert(buf@ =~= old(self).raw().unwrap() + old($n0)@.skip(wd * ht * nb)); } }
//@end
    // what of the buffer the file's pixels fill before channels and rows are put in order
    pub open spec fn stored_pixels(&self, b: Seq<u8>) -> Seq<u8> {
        if self.indexed() { self.looked_up(self.raw().unwrap()).unwrap() } else if self.bpp() == cbytes(self.kind()) { self.raw().unwrap() }
        else if self.bpp() < cbytes(self.kind()) { self.raw().unwrap() + b.skip(self.raw_len()) } else { b } }
}
//@fn src/codecs/tga/decoder.rs bytes_to_index ret=res
//@ forvec 0 `bytes` => `vx_bytes($n0)`
//@ spec
    requires $n0@.len() <= 4,
    ensures res == index_of($n0@), 
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), vxi0.len() == $n0@.len(), $n0@.len() <= 4, forall|k: int| 0 <= k < vxi0.len() ==> *#[trigger] vxi0[k] == $n0@[k], result == index_of($n0@.subrange(0, vxk0 as int)),
        result < (if vxk0 == 0 { 1int } else if vxk0 == 1 { 0x100 } else if vxk0 == 2 { 0x10000 } else if vxk0 == 3 { 0x1000000 } else { 0x100000000 }),
    decreases vxi0.len() - vxk0,
//@ at loop0.start
    proof { let (a, b) = (result as usize, *vxi0[vxk0 as int]); assert(a < 0x1000000 ==> (a << 8) | b as usize == a * 256 + b) by (bit_vector);
        assert($n0@.subrange(0, vxk0 + 1).drop_last() =~= $n0@.subrange(0, vxk0 as int)); }
//@ at loop0.after
    proof { assert($n0@.subrange(0, vxk0 as int) =~= $n0@); }
//@end
#[verifier::external_body]
pub fn vx_bytes<'a>(s: &'a [u8]) -> (r: Vec<&'a u8>) ensures r.len() == s@.len(), forall|k: int| 0 <= k < r.len() ==> *#[trigger] r[k] == s@[k] { s.iter().collect() }
// ---- what was encoded is what is decoded ----
pub open spec fn as_color(c: ExtendedColorType) -> ColorType { if c is L8 { ColorType::L8 } else if c is La8 { ColorType::La8 } else if c is Rgb8 { ColorType::Rgb8 } else { ColorType::Rgba8 } }
pub proof fn lemma_swap_twice(s: Seq<u8>, n: int) requires n == 3 || n == 4, s.len() % n as nat == 0 ensures swap3(swap3(s, n), n) == s
{
    assert forall|k: int| 0 <= k < s.len() implies swap3(swap3(s, n), n)[k] == s[k] by {
        let q = k / n; let l = s.len() as int / n;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s.len() as int, n);
        assert(n * q + n <= n * l) by (nonlinear_arith) requires n * q <= k, k < n * l, n >= 1, l >= 0, q >= 0, q < l || n * q >= n * l;
        if k % n == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k + 2, n, q, 2); }
        if k % n == 2 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k - 2, n, q, 0); }
    }
    assert(swap3(swap3(s, n), n) =~= s);
}
pub proof fn round_trip<R: Read>(d: TgaDecoder<R>, c: ExtendedColorType, w: u16, h: u16, rle: bool, body: Seq<u8>, img: Seq<u8>, t: Seq<u8>, buf: Seq<u8>)
    requires writable(c), w > 0, h > 0, img.len() == w * h * (ebits(c) / 8), codes(c, rle, body, img), d.of(hdr_bytes(header_for(c, w, h, rle)) + body + t), buf.len() == img.len()
    ensures opens(hdr_bytes(header_for(c, w, h, rle)) + body + t), d.w() == w, d.h() == h, d.kind() == as_color(c), !d.indexed(), d.raw().is_some(),
        upright(unstored(d.kind(), d.stored_pixels(buf)), d.h(), bottom_up(d.head())) == img
{
    let hd = header_for(c, w, h, rle); let f = hdr_bytes(hd) + body + t; let b = ebits(c) / 8;
    assert(f =~= hdr_bytes(hd) + (body + t)); lemma_parse(hd, body + t);
    assert(parse(f) == hd); assert(f[0] == 0); assert(f.skip(18) =~= body + t); assert(pixels_at(f) == 18);
    assert(d.src() == body + t); assert(d.head() == hd);
    assert(32u8 & 0b1111u8 == 0u8 && 40u8 & 0b1111u8 == 8u8 && 0b10_0000u8 & 32u8 == 32u8 && 0b10_0000u8 & 40u8 == 32u8) by (bit_vector);
    assert(layout(hd) == Some(as_color(c))); assert(!bottom_up(hd)); assert(d.kind() == as_color(c)); assert(cbytes(d.kind()) == b); assert(d.bpp() == b); assert(!d.indexed());
    let x = stored(c, img); assert(x.len() == img.len()); lemma_product(w as int, h as int, b); lemma_size(w as int, h as int, ebits(c));
    assert(d.raw_len() == img.len()); assert(d.rle() == rle);
    if rle { lemma_rd_expand(body, b, t); assert(x.subrange(0, d.raw_len()) =~= x); assert(d.raw() == Some(x)); }
    else { assert((body + t).subrange(0, d.raw_len()) =~= x); assert(d.raw() == Some(x)); }
    assert(d.stored_pixels(buf) == x);
    if has_color(c) { lemma_swap_twice(img, b); }
}
#[verifier::external_body]
pub fn vx_io_other() -> IoError { unimplemented!() }
pub fn vx_cbytes(c: ColorType) -> (r: u8) ensures r == cbytes(c) { c.bytes_per_pixel() }
proof fn lemma_index(s: Seq<u8>) ensures 0 <= index_of(s), s.len() <= 4 ==> index_of(s) < (if s.len() == 0 { 1int } else if s.len() == 1 { 0x100 } else if s.len() == 2 { 0x10000 } else if s.len() == 3 { 0x1000000 } else { 0x100000000 }) decreases s.len()
{ if s.len() > 0 { lemma_index(s.drop_last()); } }
proof fn lemma_product(w: int, h: int, b: int) requires 0 <= w <= 65535, 0 <= h <= 65535, 0 <= b <= 33 ensures 0 <= w * h <= 65535 * 65535, 0 <= w * h * b <= 65535 * 65535 * 33, b == 0 ==> w * h * b == 0 {
    assert(0 <= w * h <= 65535 * 65535) by (nonlinear_arith) requires 0 <= w <= 65535, 0 <= h <= 65535;
    assert(0 <= w * h * b <= 65535 * 65535 * 33) by (nonlinear_arith) requires 0 <= w * h <= 65535 * 65535, 0 <= b <= 33; }
} // verus!
