#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include rw.vrs
//@include slices.vrs
//@include chunks.vrs
//@include colortypes.vrs
#[derive(Debug)]
pub enum ImageError { IoError, Parameter, Encoding }
impl From<IoError> for ImageError { #[verifier::external_body] fn from(e: IoError) -> ImageError { ImageError::IoError } }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body]
pub fn vx_err() -> (e: ImageError) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ioerr() -> (e: IoError) { unimplemented!() }
//@item src/codecs/bmp/encoder.rs const BITMAPFILEHEADER_SIZE
//@item src/codecs/bmp/encoder.rs const BITMAPINFOHEADER_SIZE
//@item src/codecs/bmp/encoder.rs const BITMAPV4HEADER_SIZE
// ---- the pixel array: rows bottom-up, samples blue first, each row padded with zeros ----
// the bytes of pixel i of an image with n samples a pixel
pub open spec fn pxb(n: int, img: Seq<u8>, i: int) -> Seq<u8> {
    if n == 3 { seq![img[3 * i + 2], img[3 * i + 1], img[3 * i]] } else if n == 4 { seq![img[4 * i + 2], img[4 * i + 1], img[4 * i], img[4 * i + 3]] } else { seq![img[n * i]] }
}
pub open spec fn bpp(n: int) -> int { if n == 3 { 3 } else if n == 4 { 4 } else { 1 } }
#[verifier::opaque]
pub open spec fn run(n: int, img: Seq<u8>, start: int, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { run(n, img, start, k - 1) + pxb(n, img, start + k - 1) } }
pub open spec fn zeros(k: int) -> Seq<u8> { Seq::new(k as nat, |i: int| 0u8) }
#[verifier::opaque]
pub open spec fn rows(n: int, img: Seq<u8>, w: int, h: int, pad: int, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::empty() } else { rows(n, img, w, h, pad, k - 1) + run(n, img, (h - k) * w, w) + zeros(pad) }
}
proof fn lemma_run(n: int, img: Seq<u8>, start: int, k: int)
    requires k >= 0
    ensures run(n, img, start, k).len() == k * bpp(n), forall|x: int, c: int| 0 <= x < k && 0 <= c < bpp(n) ==> #[trigger] px_at(run(n, img, start, k), x * bpp(n) + c, pxb(n, img, start + x)[c]),
    decreases k
{
    reveal(run); let b = bpp(n);
    if k > 0 {
        lemma_run(n, img, start, k - 1);
        assert((k - 1) * b + b == k * b) by (nonlinear_arith);
        assert forall|x: int, c: int| 0 <= x < k && 0 <= c < bpp(n) implies #[trigger] px_at(run(n, img, start, k), x * bpp(n) + c, pxb(n, img, start + x)[c]) by {
            assert(x * b >= 0) by (nonlinear_arith) requires x >= 0, b >= 0;
            if x < k - 1 { assert(x * b + b <= (k - 1) * b) by (nonlinear_arith) requires x + 1 <= k - 1, b > 0; assert(px_at(run(n, img, start, k - 1), x * bpp(n) + c, pxb(n, img, start + x)[c])); }
        }
    } else { assert(k * b == 0) by (nonlinear_arith) requires k == 0; }
}
pub open spec fn px_at(s: Seq<u8>, i: int, v: u8) -> bool { 0 <= i < s.len() && s[i] == v }
// every sample is where the format says: pixel (x, y) starts at byte (h - 1 - y) * (w * bpp + pad) + x * bpp
pub proof fn lemma_rows(n: int, img: Seq<u8>, w: int, h: int, pad: int, k: int)
    requires k >= 0, w >= 0, pad >= 0
    ensures rows(n, img, w, h, pad, k).len() == k * (w * bpp(n) + pad),
        forall|y: int, x: int, c: int| h - k <= y < h && 0 <= x < w && 0 <= c < bpp(n) ==> #[trigger] at_row(rows(n, img, w, h, pad, k), n, img, w, h, pad, y, x, c),
    decreases k
{
    reveal(rows); let b = bpp(n); let p = w * b + pad;
    assert(w * b >= 0) by (nonlinear_arith) requires w >= 0, b >= 0;
    if k > 0 {
        lemma_rows(n, img, w, h, pad, k - 1); lemma_run(n, img, (h - k) * w, w);
        assert((k - 1) * p + p == k * p) by (nonlinear_arith);
        let a = rows(n, img, w, h, pad, k - 1); let r = run(n, img, (h - k) * w, w);
        assert forall|y: int, x: int, c: int| h - k <= y < h && 0 <= x < w && 0 <= c < bpp(n) implies #[trigger] at_row(rows(n, img, w, h, pad, k), n, img, w, h, pad, y, x, c) by {
            assert((h - 1 - y) * p >= 0) by (nonlinear_arith) requires h - 1 - y >= 0, p >= 0;
            assert(x * b >= 0 && x * b + b <= w * b) by (nonlinear_arith) requires 0 <= x, x + 1 <= w, b >= 0;
            if y == h - k { assert(px_at(r, x * bpp(n) + c, pxb(n, img, (h - k) * w + x)[c])); assert(h - 1 - y == k - 1); }
            else { assert(at_row(a, n, img, w, h, pad, y, x, c)); assert((h - 1 - y) * p + p <= (k - 1) * p) by (nonlinear_arith) requires h - 1 - y + 1 <= k - 1, p >= 0; }
        }
    } else { assert(k * p == 0) by (nonlinear_arith) requires k == 0; }
}
pub open spec fn at_row(s: Seq<u8>, n: int, img: Seq<u8>, w: int, h: int, pad: int, y: int, x: int, c: int) -> bool {
    px_at(s, (h - 1 - y) * (w * bpp(n) + pad) + x * bpp(n) + c, pxb(n, img, y * w + x)[c])
}
// the colour table: blue, green, red, 0 for each entry
pub open spec fn entries(p: Seq<[u8; 3]>) -> Seq<u8> { Seq::new((4 * p.len()) as nat, |i: int| if i % 4 == 3 { 0u8 } else { p[i / 4]@[2 - i % 4] }) }
pub open spec fn grays() -> Seq<u8> { Seq::new(1024, |i: int| if i % 4 == 3 { 0u8 } else { (i / 4) as u8 }) }
pub open spec fn table(p: Option<&[[u8; 3]]>) -> Seq<u8> { match p { Some(q) => entries(q@), None => grays() } }
// the encoder holds its writer by reference; here by value
pub struct BmpEncoder<W> { writer: W }
impl<W: Write> BmpEncoder<W> {
    pub closed spec fn o(&self) -> Seq<u8> { self.writer.out() }
//@fn src/codecs/bmp/encoder.rs write_row_pad ret=res
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ panics forbid
//@ at body.start
    let ghost o0 = self.writer.out();
    proof { assert(o0 + zeros(0) =~= o0); }
//@ loop 0 for it=it
    invariant self.writer.out() == o0 + zeros(it.index@),
//@ at loop0.end
    proof { assert(o0 + zeros(it.index@) + seq![0u8] =~= o0 + zeros(it.index@ + 1)); }
//@ spec
    ensures res.is_ok() ==> final(self).o() == old(self).o() + zeros($n0 as int),
//@end
//@fn src/codecs/bmp/encoder.rs encode_rgb ret=res
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `for row in (0..height).rev() {$A}` => `for vxr in 0..height { let row = height - 1 - vxr; $A }`
//@ forvec 1 `image[$A..][..$B].chunks_exact($C)` => `vx_chunks_exact(vx_idx(image, $A, $A + $B), $C)`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ at body.start
    let ghost o0 = self.writer.out(); let ghost w = $n1 as int; let ghost h = $n2 as int; let ghost pad = $n3 as int;
    proof { lemma_size(w, h, 3, $n0@.len() as int); reveal(rows); assert(o0 + rows(3, $n0@, w, h, pad, 0) =~= o0); }
//@ at after `let row = height - 1 - vxr ;`
    let ghost orow = self.writer.out();
    proof { lemma_pos(w, h, 3, row as int); }
//@ loop 0 for it=it
    invariant self.writer.out() == o0 + rows(3, $n0@, w, h, pad, it.index@),
//@ at before `let vxi1`
    proof { reveal(run); assert(orow + run(3, $n0@, row * w, 0) =~= orow); }
    let ghost st = row * w; let ghost sl = $n0@.subrange(row_start as int, row_start + y_stride);
//@ loop 1 forvec
    invariant vxi1@.len() == w, vxk1 <= w, forall|k: int| 0 <= k < vxi1@.len() ==> (#[trigger] vxi1@[k])@ == sl.subrange(k * 3, k * 3 + 3),
        self.writer.out() == orow + run(3, $n0@, st, vxk1 as int),
    decreases w - vxk1
//@ at loop1.end
    proof {
        let k = vxk1 - 1; let ch = vxi1@[k]@; reveal(run);
        assert(ch =~= $n0@.subrange(3 * (st + k), 3 * (st + k) + 3)) by { assert(row_start == 3 * st); }
        assert(self.writer.out() =~= orow + (run(3, $n0@, st, k) + pxb(3, $n0@, st + k)));
    }
//@ at loop0.end
    proof { reveal(rows); assert(self.writer.out() =~= o0 + rows(3, $n0@, w, h, pad, it.index@ + 1)); }
//@ spec
    requires $n4 == 3, $n0@.len() == 3 * ($n1 * $n2), $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> final(self).o() == old(self).o() + rows(3, $n0@, $n1 as int, $n2 as int, $n3 as int, $n2 as int),
//@end
//@fn src/codecs/bmp/encoder.rs encode_rgba ret=res
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `for row in (0..height).rev() {$A}` => `for vxr in 0..height { let row = height - 1 - vxr; $A }`
//@ forvec 1 `image[$A..][..$B].chunks_exact($C)` => `vx_chunks_exact(vx_idx(image, $A, $A + $B), $C)`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ at body.start
    let ghost o0 = self.writer.out(); let ghost w = $n1 as int; let ghost h = $n2 as int; let ghost pad = $n3 as int;
    proof { lemma_size(w, h, 4, $n0@.len() as int); reveal(rows); assert(o0 + rows(4, $n0@, w, h, pad, 0) =~= o0); }
//@ at after `let row = height - 1 - vxr ;`
    let ghost orow = self.writer.out();
    proof { lemma_pos(w, h, 4, row as int); }
//@ loop 0 for it=it
    invariant self.writer.out() == o0 + rows(4, $n0@, w, h, pad, it.index@),
//@ at before `let vxi1`
    proof { reveal(run); assert(orow + run(4, $n0@, row * w, 0) =~= orow); }
    let ghost st = row * w; let ghost sl = $n0@.subrange(row_start as int, row_start + y_stride);
//@ loop 1 forvec
    invariant vxi1@.len() == w, vxk1 <= w, forall|k: int| 0 <= k < vxi1@.len() ==> (#[trigger] vxi1@[k])@ == sl.subrange(k * 4, k * 4 + 4),
        self.writer.out() == orow + run(4, $n0@, st, vxk1 as int),
    decreases w - vxk1
//@ at loop1.end
    proof {
        let k = vxk1 - 1; let ch = vxi1@[k]@; reveal(run);
        assert(ch =~= $n0@.subrange(4 * (st + k), 4 * (st + k) + 4)) by { assert(row_start == 4 * st); }
        assert(self.writer.out() =~= orow + (run(4, $n0@, st, k) + pxb(4, $n0@, st + k)));
    }
//@ at loop0.end
    proof { reveal(rows); assert(self.writer.out() =~= o0 + rows(4, $n0@, w, h, pad, it.index@ + 1)); }
//@ spec
    requires $n4 == 4, $n0@.len() == 4 * ($n1 * $n2), $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> final(self).o() == old(self).o() + rows(4, $n0@, $n1 as int, $n2 as int, $n3 as int, $n2 as int),
//@end
}
// a row of one-sample pixels is the row itself
proof fn lemma_run1(img: Seq<u8>, start: int, k: int) requires 0 <= start, k >= 0, start + k <= img.len() ensures run(1, img, start, k) == img.subrange(start, start + k) decreases k
{
    reveal(run);
    if k == 0 { assert(img.subrange(start, start) =~= Seq::<u8>::empty()); }
    else { lemma_run1(img, start, k - 1); assert(img.subrange(start, start + k - 1) + pxb(1, img, start + k - 1) =~= img.subrange(start, start + k)); }
}
impl<W: Write> BmpEncoder<W> {
//@fn src/codecs/bmp/encoder.rs encode_gray ret=res
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `for val in 0u8..=255 {$A}` => `for vxv in 0u16..256 { let val = vxv as u8; $A }`
//@ subst? `for row in (0..height).rev() {$A}` => `for vxr in 0..height { let row = height - 1 - vxr; $A }`
//@ subst? `&image[$A..][..$B]` => `vx_idx(image, $A, $A + $B)`
//@ forvec 0 `palette` => `palette`
//@ panics forbid
//@ attrs
#[verifier::loop_isolation(false)]
//@ at body.start
    let ghost o0 = self.writer.out(); let ghost w = $n1 as int; let ghost h = $n2 as int; let ghost pad = $n3 as int; let ghost n = $n4 as int; let ghost pal = $n5;
    proof { lemma_size(w, h, n, $n0@.len() as int); }
//@ at before `let vxi0`
    proof { assert(o0 =~= o0 + entries(pal.unwrap()@).subrange(0, 0)); }
//@ loop 0 forvec
    invariant vxi0@ == pal.unwrap()@, vxk0 <= vxi0@.len(), self.writer.out() == o0 + entries(pal.unwrap()@).subrange(0, 4 * vxk0),
    decreases vxi0@.len() - vxk0
//@ at loop0.end
    proof { assert(self.writer.out() =~= o0 + entries(pal.unwrap()@).subrange(0, 4 * vxk0)); }
//@ at loop0.after
    proof { assert(entries(pal.unwrap()@).subrange(0, 4 * vxk0) =~= entries(pal.unwrap()@)); }
//@ at loop1.before
    proof { assert(o0 =~= o0 + grays().subrange(0, 0)); }
//@ loop 1 for it=it
    invariant self.writer.out() == o0 + grays().subrange(0, 4 * it.index@),
//@ at loop1.end
    proof { assert(self.writer.out() =~= o0 + grays().subrange(0, 4 * (it.index@ + 1))); }
//@ at loop1.after
    proof { assert(grays().subrange(0, 1024) =~= grays()); }
//@ at before `let width = width as usize ;`
    let ghost ob = self.writer.out();
    proof { reveal(rows); assert(ob == o0 + table(pal)); assert(ob + rows(n, $n0@, w, h, pad, 0) =~= ob); }
//@ at after `let row = height - 1 - vxr ;`
    let ghost orow = self.writer.out(); let ghost st = row * w;
    proof { lemma_pos(w, h, n, row as int); reveal(run); assert(orow + run(n, $n0@, st, 0) =~= orow); }
//@ loop 2 for it=it
    invariant self.writer.out() == ob + rows(n, $n0@, w, h, pad, it.index@),
//@ at before `self . writer . write_all ( vx_idx (`
    proof { assert(1 * st == st); lemma_run1($n0@, st, w); }
//@ loop 3 for it=it2
    invariant self.writer.out() == orow + run(n, $n0@, st, it2.index@),
//@ at loop3.start
    proof { assert(n * (st + $v3) == n * st + $v3 * n) by (nonlinear_arith); assert($v3 * n + n <= w * n) by (nonlinear_arith) requires $v3 + 1 <= w, n >= 0; }
//@ at loop3.end
    proof { reveal(run); assert(self.writer.out() =~= orow + (run(n, $n0@, st, it2.index@) + pxb(n, $n0@, st + it2.index@))); }
//@ at loop2.end
    proof { reveal(rows); assert(self.writer.out() =~= ob + rows(n, $n0@, w, h, pad, it.index@ + 1)); }
//@ spec
    requires $n4 == 1 || $n4 == 2, $n0@.len() == $n4 * ($n1 * $n2), $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> final(self).o() == old(self).o() + table($n5) + rows($n4 as int, $n0@, $n1 as int, $n2 as int, $n3 as int, $n2 as int),
//@end
}
// ---- the headers ----
pub open spec fn kind_ok(c: ExtendedColorType) -> bool { c == ExtendedColorType::Rgb8 || c == ExtendedColorType::Rgba8 || c == ExtendedColorType::L8 || c == ExtendedColorType::La8 }
pub open spec fn gray(c: ExtendedColorType) -> bool { c == ExtendedColorType::L8 || c == ExtendedColorType::La8 }
pub open spec fn nsamp(c: ExtendedColorType) -> int { if c == ExtendedColorType::Rgb8 { 3 } else if c == ExtendedColorType::Rgba8 { 4 } else if c == ExtendedColorType::La8 { 2 } else { 1 } }
pub open spec fn dib(c: ExtendedColorType) -> int { if c == ExtendedColorType::Rgba8 { 108 } else { 40 } }
pub open spec fn ncolors(c: ExtendedColorType, p: Option<&[[u8; 3]]>) -> int { if gray(c) { match p { Some(q) => q@.len() as int, None => 256 } } else { 0 } }
pub open spec fn pal_len(p: Option<&[[u8; 3]]>) -> int { match p { Some(q) => q@.len() as int, None => 0 } }
pub open spec fn padof(c: ExtendedColorType, w: int) -> int { (4 - (w * bpp(nsamp(c))) % 4) % 4 }
pub open spec fn imgsize(c: ExtendedColorType, w: int, h: int) -> int { (w * bpp(nsamp(c)) + padof(c, w)) * h }
pub open spec fn offset(c: ExtendedColorType, p: Option<&[[u8; 3]]>) -> int { 14 + dib(c) + 4 * ncolors(c, p) }
pub open spec fn d(v: int) -> Seq<u8> { b32(v as u32, true) }
pub open spec fn wd(v: int) -> Seq<u8> { b16(v as u16, true) }
pub open spec fn file_header(total: int, off: int) -> Seq<u8> { seq![0x42u8, 0x4du8] + d(total) + wd(0) + wd(0) + d(off) }
pub open spec fn info_header(c: ExtendedColorType, p: Option<&[[u8; 3]]>, w: int, h: int) -> Seq<u8> {
    d(dib(c)) + d(w) + d(h) + wd(1) + wd(8 * bpp(nsamp(c))) + d(if c == ExtendedColorType::Rgba8 { 3 } else { 0 }) + d(imgsize(c, w, h)) + d(0) + d(0) + d(ncolors(c, p)) + d(0)
}
// the red, green, blue and alpha masks, "sRGB", and 12 zero words
pub open spec fn v4_rest(c: ExtendedColorType) -> Seq<u8> { if c == ExtendedColorType::Rgba8 { d(0xff0000) + d(0xff00) + d(0xff) + d(0xff000000) + d(0x73524742) + zeros(48) } else { Seq::empty() } }
pub open spec fn bmp_file(c: ExtendedColorType, p: Option<&[[u8; 3]]>, img: Seq<u8>, w: int, h: int) -> Seq<u8> {
    file_header(offset(c, p) + imgsize(c, w, h), offset(c, p)) + info_header(c, p, w, h) + v4_rest(c)
        + (if gray(c) { table(p) } else { Seq::empty() }) + rows(nsamp(c), img, w, h, padof(c, w), h)
}
proof fn lemma_cat11(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>, h: Seq<u8>, i: Seq<u8>, j: Seq<u8>, k: Seq<u8>, l: Seq<u8>)
    ensures o + a + b + c + e + f + g + h + i + j + k + l == o + (a + b + c + e + f + g + h + i + j + k + l)
{
    assert(o + a + b + c + e =~= o + (a + b + c + e)); let x = a + b + c + e;
    assert(o + x + f + g + h =~= o + (x + f + g + h)); let y = x + f + g + h;
    assert(o + y + i + j + k + l =~= o + (y + i + j + k + l));
}
pub proof fn lemma_d(v: int) ensures d(v).len() == 4, wd(v).len() == 2 {}
// the header's sizes are the sizes of what is written
pub proof fn lemma_sizes(c: ExtendedColorType, p: Option<&[[u8; 3]]>, img: Seq<u8>, w: int, h: int)
    requires kind_ok(c), 0 <= w, 0 <= h,
    ensures bmp_file(c, p, img, w, h).len() == offset(c, p) + imgsize(c, w, h),
{
    lemma_rows(nsamp(c), img, w, h, padof(c, w), h);
    let l = w * bpp(nsamp(c)) + padof(c, w);
    assert(h * l == l * h) by (nonlinear_arith);
}
//@fn src/codecs/bmp/encoder.rs get_pixel_info ret=res
//@ sigsubst `io::Result<$A>` => `IoResult<$A>`
//@ subst? `io::Error::new($A)` => `vx_ioerr()`
//@ closure 0 (&[[u8; 3]]) -> (cr: usize)
    ensures cr == $p0@.len()
//@ closure 1 (&[[u8; 3]]) -> (cr: usize)
    ensures cr == $p0@.len()
//@ panics forbid
//@ spec
    requires pal_len($n1) <= u32::MAX,
    ensures res.is_ok() <==> kind_ok($n0), res.is_ok() ==> res.unwrap() == (dib($n0) as u32, bpp(nsamp($n0)) as u32, ncolors($n0, $n1) as u32),
//@end
impl ExtendedColorType {
//@fn src/color.rs buffer_size ctx="impl ExtendedColorType" ret=res vis=pub
//@ spec
    ensures res == smin64(((($n0 as int) * ebits(self) + 7) / 8) * $n1),
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound($n0 as int, u32::MAX as int, ebits(self), 255); }
//@end
}
pub open spec fn smin64(a: int) -> int { if a > u64::MAX { u64::MAX as int } else { a } }
pub open spec fn need(c: ExtendedColorType, w: u32, h: u32) -> int { smin64((((w as int) * ebits(c) + 7) / 8) * h) }
impl<W: Write> BmpEncoder<W> {
//@fn src/codecs/bmp/encoder.rs encode_with_palette ret=res vis=pub
//@ subst? `io::Error::new($A)` => `vx_ioerr()`
//@ subst? `ImageError::IoError($A)` => `vx_err()`
//@ subst? `.ok_or_else($A)?` => `.ok_or(vx_err())?`
//@ closure 0 (u64) -> (cr: Option<u32>)
    ensures cr == (if $p0 <= u32::MAX { Some($p0 as u32) } else { None })
//@ closure 1 (u32) -> (cr: Option<u32>)
    ensures cr == (if $p0 + palette_size <= u32::MAX { Some(($p0 + palette_size) as u32) } else { None })
//@ closure 2 (u32) -> (cr: Option<u32>)
    ensures cr == (if $p0 + image_size <= u32::MAX { Some(($p0 + image_size) as u32) } else { None })
//@ panics allow
//@ attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(200)]
#[verifier::spinoff_prover]
//@ at body.start
    let ghost o0 = self.writer.out(); let ghost w = $n1 as int; let ghost h = $n2 as int; let ghost n = nsamp($n3); let ghost c0 = $n3; let ghost p0 = $n4; let ghost im = $n0@;
    proof { assert(0 <= w * bpp(n) <= 0xffff_ffff * 4) by (nonlinear_arith) requires 0 <= w <= 0xffff_ffff, 1 <= bpp(n) <= 4; }
//@ at before `let row_size = u64 :: from ( width )`
    proof {
        assert(kind_ok(c0));
        assert(w * ebits(c0) == 8 * (n * w)) by (nonlinear_arith) requires ebits(c0) == 8 * n;
        assert((n * w) * h == n * (w * h)) by (nonlinear_arith);
        assert(im.len() == n * (w * h));
        assert(0 <= (w * bpp(n) + padof(c0, w)) * h) by (nonlinear_arith) requires 0 <= w * bpp(n) + padof(c0, w), 0 <= h;
    }
//@ at before `self . writer . write_u8 ( b'B' )`
    proof { assert(file_size == offset(c0, p0) + imgsize(c0, w, h)); assert(image_size == imgsize(c0, w, h)); }
//@ at before `self . writer . write_u32 :: < LittleEndian > ( dib_header_size )`
    let ghost o1 = self.writer.out();
    proof { assert(o1 =~= o0 + file_header(offset(c0, p0) + imgsize(c0, w, h), offset(c0, p0))); }
//@ at before `if dib_header_size >= BITMAPV4HEADER_SIZE { self . writer . write_u32 :: < LittleEndian > ( 0xff << 16 )`
    let ghost o2 = self.writer.out();
    proof {
        assert(width as i32 as u32 == width && height as i32 as u32 == height && 0i32 as u32 == 0) by (bit_vector);
        assert(dib_header_size as int == dib(c0) && palette_color_count as int == ncolors(c0, p0) && (written_pixel_size * 8) as int == 8 * bpp(n));
        lemma_cat11(o1, d(dib(c0)), d(w), d(h), wd(1), wd(8 * bpp(n)), d(if c0 == ExtendedColorType::Rgba8 { 3 } else { 0 }), d(imgsize(c0, w, h)), d(0), d(0), d(ncolors(c0, p0)), d(0));
        assert(o2 == o1 + info_header(c0, p0, w, h));
    }
//@ at loop0.before
    let ghost oz = self.writer.out();
    proof { assert((0xffu32 << 16) == 0xff0000 && (0xffu32 << 8) == 0xff00 && (0xffu32 << 24) == 0xff000000) by (bit_vector); assert(oz =~= oz + zeros(0)); }
//@ loop 0 for it=it
    invariant self.writer.out() == oz + zeros(4 * it.index@),
//@ at loop0.end
    proof { assert(self.writer.out() =~= oz + zeros(4 * (it.index@ + 1))); }
//@ at before `match c`
    let ghost o3 = self.writer.out();
    proof { assert(o3 =~= o2 + v4_rest(c0)); }
//@ at before `Ok ( ( ) )`
    proof { lemma_sizes(c0, p0, im, w, h); assert(self.writer.out() =~= o0 + bmp_file(c0, p0, im, w, h)); }
//@ spec
    requires pal_len($n4) < 0x4000_0000, $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> kind_ok($n3) && ($n4.is_some() ==> gray($n3)) && $n0@.len() == need($n3, $n1, $n2)
        && final(self).o() == old(self).o() + bmp_file($n3, $n4, $n0@, $n1 as int, $n2 as int)
        && bmp_file($n3, $n4, $n0@, $n1 as int, $n2 as int).len() <= u32::MAX,
//@end
//@fn src/codecs/bmp/encoder.rs encode ret=res vis=pub
//@ panics allow
//@ spec
    requires $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> kind_ok($n3) && $n0@.len() == need($n3, $n1, $n2) && final(self).o() == old(self).o() + bmp_file($n3, None, $n0@, $n1 as int, $n2 as int),
//@end
//@fn src/codecs/bmp/encoder.rs write_image ctx="ImageEncoder for BmpEncoder" ret=res vis=pub
//@ sigsubst? `mut self` => `&mut self`
//@ panics allow
//@ spec
    requires $n0@.len() <= isize::MAX,
    ensures res.is_ok() ==> kind_ok($n3) && $n0@.len() == need($n3, $n1, $n2) && final(self).o() == old(self).o() + bmp_file($n3, None, $n0@, $n1 as int, $n2 as int),
//@end
}
proof fn lemma_size(w: int, h: int, n: int, len: int)
    requires len == n * (w * h), 0 <= w <= 0xffff_ffff, 0 <= h, 1 <= n <= 4, len <= usize::MAX
    ensures 0 <= w * n <= 0x3_ffff_fffc
{ assert(0 <= w * n <= 0xffff_ffff * 4) by (nonlinear_arith) requires 0 <= w <= 0xffff_ffff, 1 <= n <= 4; }
// row `row` of the image: bytes row * (w * n) to (row + 1) * (w * n)
proof fn lemma_pos(w: int, h: int, n: int, row: int)
    requires 0 <= row < h, 0 <= w, 1 <= n <= 4
    ensures row * (w * n) == n * (row * w), 0 <= row * w, row * (w * n) + w * n <= n * (w * h), row * w + w <= w * h, 0 <= w * n, (w * n) / n == w
{
    assert(row * (w * n) == n * (row * w)) by (nonlinear_arith);
    assert(0 <= row * w) by (nonlinear_arith) requires row >= 0, w >= 0;
    assert(row * w + w <= w * h) by (nonlinear_arith) requires row + 1 <= h, w >= 0;
    assert(n * (row * w + w) <= n * (w * h)) by (nonlinear_arith) requires row * w + w <= w * h, n >= 0;
    assert(n * (row * w + w) == n * (row * w) + w * n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(w, n);
    assert(w * n == n * w) by (nonlinear_arith);
    assert(0 <= w * n) by (nonlinear_arith) requires w >= 0, n >= 0;
}
}
fn main() {}
