#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@item src/image.rs enum ImageFormat vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
//@table src/image_reader/free_functions.rs static MAGIC_BYTES as=magic type="Seq<(Seq<u8>, Seq<u8>, ImageFormat)>"
// the rows of the static table (assumed: this is its literal, translated above)
#[verifier::external_body]
pub fn vx_magic() -> (r: Vec<(&'static [u8], &'static [u8], ImageFormat)>)
    ensures r.len() == magic().len(), forall|k: int| 0 <= k < magic().len() ==> (#[trigger] r[k]).0@ =~= magic()[k].0 && r[k].1@ =~= magic()[k].1 && r[k].2 == magic()[k].2
{ unimplemented!() }
// assumed contract of slice::starts_with
#[verifier::external_body]
pub fn vx_starts(b: &[u8], s: &[u8]) -> (r: bool) ensures r <==> s@.len() <= b@.len() && forall|k: int| 0 <= k < s@.len() ==> #[trigger] b@[k] == s@[k] { unimplemented!() }
// assumed contract of `a.iter().zip(b.iter()).zip(m.iter().chain(repeat(&fill))).all(f)`
#[verifier::external_body]
pub fn vx_zip_zip_all<'a, F: Fn(((&'a u8, &'a u8), &'a u8)) -> bool>(a: &'a [u8], b: &'a [u8], m: &'a [u8], fill: u8, f: F) -> (r: bool)
    requires forall|x: ((&'a u8, &'a u8), &'a u8)| f.requires((x,)),
        forall|x: ((&'a u8, &'a u8), &'a u8), o: bool| f.ensures((x,), o) ==> o == ((*x.0.0 & *x.1) == *x.0.1),
    ensures r <==> forall|k: int| 0 <= k < a@.len() && k < b@.len() ==> (#[trigger] a@[k] & mk(m@, k, fill)) == b@[k],
{ unimplemented!() }
pub open spec fn mk(m: Seq<u8>, k: int, fill: u8) -> u8 { if k < m.len() { m[k] } else { fill } }
pub open spec fn row_match(row: (Seq<u8>, Seq<u8>, ImageFormat), b: Seq<u8>) -> bool {
    row.0.len() <= b.len() && forall|k: int| 0 <= k < row.0.len() ==> (#[trigger] b[k] & mk(row.1, k, 0xff)) == row.0[k]
}
pub open spec fn scan(b: Seq<u8>, k: int) -> Option<ImageFormat> decreases magic().len() - k {
    if k < 0 || k >= magic().len() { None } else if row_match(magic()[k], b) { Some(magic()[k].2) } else { scan(b, k + 1) }
}
// ---- the documented signatures ----
pub open spec fn st(b: Seq<u8>, o: int, s: Seq<u8>) -> bool { o + s.len() <= b.len() && forall|k: int| 0 <= k < s.len() ==> b[o + k] == #[trigger] s[k] }
pub open spec fn documented(f: ImageFormat, b: Seq<u8>) -> bool {
    match f {
        ImageFormat::Png => st(b, 0, seq![0x89u8, 0x50, 0x4e, 0x47, 13, 10, 26, 10]),
        ImageFormat::Jpeg => st(b, 0, seq![0xffu8, 0xd8, 0xff]),
        ImageFormat::Gif => st(b, 0, seq![0x47u8, 0x49, 0x46, 0x38, 0x37, 0x61]) || st(b, 0, seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61]),
        ImageFormat::WebP => st(b, 0, seq![0x52u8, 0x49, 0x46, 0x46]) && st(b, 8, seq![0x57u8, 0x45, 0x42, 0x50]),
        ImageFormat::Tiff => st(b, 0, seq![0x4du8, 0x4d, 0, 42]) || st(b, 0, seq![0x49u8, 0x49, 42, 0]),
        ImageFormat::Dds => st(b, 0, seq![0x44u8, 0x44, 0x53, 0x20]),
        ImageFormat::Bmp => st(b, 0, seq![0x42u8, 0x4d]),
        ImageFormat::Ico => st(b, 0, seq![0u8, 0, 1, 0]),
        ImageFormat::Hdr => st(b, 0, seq![0x23u8, 0x3f, 0x52, 0x41, 0x44, 0x49, 0x41, 0x4e, 0x43, 0x45]),
        ImageFormat::Avif => st(b, 0, seq![0u8, 0]) && st(b, 4, seq![0x66u8, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66]),
        ImageFormat::OpenExr => st(b, 0, seq![0x76u8, 0x2f, 0x31, 1]),
        ImageFormat::Qoi => st(b, 0, seq![0x71u8, 0x6f, 0x69, 0x66]),
        ImageFormat::Pnm => b.len() >= 2 && b[0] == 0x50 && 0x31 <= b[1] <= 0x37,
        ImageFormat::Farbfeld => st(b, 0, seq![0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]),
        ImageFormat::Pcx => b.len() >= 2 && b[0] == 10 && b[1] < 8,
        ImageFormat::Tga => false, // no signature
    }
}
pub open spec fn known(b: Seq<u8>) -> bool { exists|f: ImageFormat| #[trigger] documented(f, b) }
proof fn lemma_masks() ensures forall|x: u8| #[trigger] (x & 0xff) == x, forall|x: u8| #[trigger] (x & 0) == 0, forall|x: u8| (#[trigger] (x & 0xf8) == 0) <==> x < 8
{
    assert(forall|x: u8| #[trigger] (x & 0xff) == x) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 0) == 0) by (bit_vector);
    assert(forall|x: u8| (#[trigger] (x & 0xf8) == 0) <==> x < 8) by (bit_vector);
}
// an unmasked row matches exactly the buffers that start with it
proof fn lemma_row(k: int, b: Seq<u8>)
    requires 0 <= k < magic().len(), magic()[k].1.len() == 0
    ensures row_match(magic()[k], b) <==> st(b, 0, magic()[k].0)
{
    lemma_masks();
    let r = magic()[k];
    if row_match(r, b) { assert forall|j: int| 0 <= j < r.0.len() implies b[0 + j] == #[trigger] r.0[j] by { assert((b[j] & mk(r.1, j, 0xff)) == r.0[j]); } }
    if st(b, 0, r.0) { assert forall|j: int| 0 <= j < r.0.len() implies (#[trigger] b[j] & mk(r.1, j, 0xff)) == r.0[j] by { assert(b[0 + j] == r.0[j]); } }
}
//@fn src/image_reader/free_functions.rs guess_format_impl ret=res vis=pub
//@ forvec 0 `&MAGIC_BYTES` => `vx_magic()`
//@ subst? `for &(signature, mask, format) in` => `for (signature, mask, format) in`
//@ subst? `buffer.starts_with(signature)` => `vx_starts(buffer, signature)`
//@ subst? `buffer.iter().zip(signature.iter()).zip(mask.iter().chain(iter::repeat(&0xFF))).all(|((&byte, &sig), &mask)| $A)` => `vx_zip_zip_all(buffer, signature, mask, 0xFF, |x: ((&u8, &u8), &u8)| -> (cr: bool) ensures cr == ((*x.0.0 & *x.1) == *x.0.1) { let byte = *x.0.0; let sig = *x.0.1; let mask = *x.1; $A })`
//@ spec
    // a format is answered exactly when one of the documented signatures is present, and it is one of those formats
    ensures res == scan($n0@, 0), match res { Some(f) => documented(f, $n0@), None => !known($n0@) },
//@ at body.start
    proof { lemma_scan($n0@, 0); }
//@ loop 0 forvec
    invariant vxk0 <= vxi0.len(), vxi0.len() == magic().len(), scan(buffer@, 0) == scan(buffer@, vxk0 as int),
        forall|k: int| 0 <= k < magic().len() ==> (#[trigger] vxi0[k]).0@ =~= magic()[k].0 && vxi0[k].1@ =~= magic()[k].1 && vxi0[k].2 == magic()[k].2,
    decreases vxi0.len() - vxk0,
//@ at loop0.start
    proof { lemma_masks(); if magic()[vxk0 as int].1.len() == 0 { lemma_row(vxk0 as int, buffer@); } reveal_with_fuel(scan, 2); }
//@end
// the table identifies exactly the documented signatures, in whatever order its rows stand
proof fn lemma_st(b: Seq<u8>, o: int, s: Seq<u8>)
    requires s.len() <= 16
    ensures st(b, o, s) <==> (o + s.len() <= b.len() && (0 < s.len() ==> b[o + 0] == s[0]) && (1 < s.len() ==> b[o + 1] == s[1]) && (2 < s.len() ==> b[o + 2] == s[2]) && (3 < s.len() ==> b[o + 3] == s[3]) && (4 < s.len() ==> b[o + 4] == s[4]) && (5 < s.len() ==> b[o + 5] == s[5]) && (6 < s.len() ==> b[o + 6] == s[6]) && (7 < s.len() ==> b[o + 7] == s[7]) && (8 < s.len() ==> b[o + 8] == s[8]) && (9 < s.len() ==> b[o + 9] == s[9]) && (10 < s.len() ==> b[o + 10] == s[10]) && (11 < s.len() ==> b[o + 11] == s[11]) && (12 < s.len() ==> b[o + 12] == s[12]) && (13 < s.len() ==> b[o + 13] == s[13]) && (14 < s.len() ==> b[o + 14] == s[14]) && (15 < s.len() ==> b[o + 15] == s[15]))
{
    if o + s.len() <= b.len() && (0 < s.len() ==> b[o + 0] == s[0]) && (1 < s.len() ==> b[o + 1] == s[1]) && (2 < s.len() ==> b[o + 2] == s[2]) && (3 < s.len() ==> b[o + 3] == s[3]) && (4 < s.len() ==> b[o + 4] == s[4]) && (5 < s.len() ==> b[o + 5] == s[5]) && (6 < s.len() ==> b[o + 6] == s[6]) && (7 < s.len() ==> b[o + 7] == s[7]) && (8 < s.len() ==> b[o + 8] == s[8]) && (9 < s.len() ==> b[o + 9] == s[9]) && (10 < s.len() ==> b[o + 10] == s[10]) && (11 < s.len() ==> b[o + 11] == s[11]) && (12 < s.len() ==> b[o + 12] == s[12]) && (13 < s.len() ==> b[o + 13] == s[13]) && (14 < s.len() ==> b[o + 14] == s[14]) && (15 < s.len() ==> b[o + 15] == s[15]) {
        assert forall|k: int| 0 <= k < s.len() implies b[o + k] == #[trigger] s[k] by {
            if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else if k == 15 { }
        }
    }
}
proof fn lemma_masked(r: (Seq<u8>, Seq<u8>, ImageFormat), b: Seq<u8>)
    requires r.0.len() <= 16
    ensures row_match(r, b) <==> (r.0.len() <= b.len() && (0 < r.0.len() ==> (b[0] & mk(r.1, 0, 0xff)) == r.0[0]) && (1 < r.0.len() ==> (b[1] & mk(r.1, 1, 0xff)) == r.0[1]) && (2 < r.0.len() ==> (b[2] & mk(r.1, 2, 0xff)) == r.0[2]) && (3 < r.0.len() ==> (b[3] & mk(r.1, 3, 0xff)) == r.0[3]) && (4 < r.0.len() ==> (b[4] & mk(r.1, 4, 0xff)) == r.0[4]) && (5 < r.0.len() ==> (b[5] & mk(r.1, 5, 0xff)) == r.0[5]) && (6 < r.0.len() ==> (b[6] & mk(r.1, 6, 0xff)) == r.0[6]) && (7 < r.0.len() ==> (b[7] & mk(r.1, 7, 0xff)) == r.0[7]) && (8 < r.0.len() ==> (b[8] & mk(r.1, 8, 0xff)) == r.0[8]) && (9 < r.0.len() ==> (b[9] & mk(r.1, 9, 0xff)) == r.0[9]) && (10 < r.0.len() ==> (b[10] & mk(r.1, 10, 0xff)) == r.0[10]) && (11 < r.0.len() ==> (b[11] & mk(r.1, 11, 0xff)) == r.0[11]) && (12 < r.0.len() ==> (b[12] & mk(r.1, 12, 0xff)) == r.0[12]) && (13 < r.0.len() ==> (b[13] & mk(r.1, 13, 0xff)) == r.0[13]) && (14 < r.0.len() ==> (b[14] & mk(r.1, 14, 0xff)) == r.0[14]) && (15 < r.0.len() ==> (b[15] & mk(r.1, 15, 0xff)) == r.0[15]))
{
    if r.0.len() <= b.len() && (0 < r.0.len() ==> (b[0] & mk(r.1, 0, 0xff)) == r.0[0]) && (1 < r.0.len() ==> (b[1] & mk(r.1, 1, 0xff)) == r.0[1]) && (2 < r.0.len() ==> (b[2] & mk(r.1, 2, 0xff)) == r.0[2]) && (3 < r.0.len() ==> (b[3] & mk(r.1, 3, 0xff)) == r.0[3]) && (4 < r.0.len() ==> (b[4] & mk(r.1, 4, 0xff)) == r.0[4]) && (5 < r.0.len() ==> (b[5] & mk(r.1, 5, 0xff)) == r.0[5]) && (6 < r.0.len() ==> (b[6] & mk(r.1, 6, 0xff)) == r.0[6]) && (7 < r.0.len() ==> (b[7] & mk(r.1, 7, 0xff)) == r.0[7]) && (8 < r.0.len() ==> (b[8] & mk(r.1, 8, 0xff)) == r.0[8]) && (9 < r.0.len() ==> (b[9] & mk(r.1, 9, 0xff)) == r.0[9]) && (10 < r.0.len() ==> (b[10] & mk(r.1, 10, 0xff)) == r.0[10]) && (11 < r.0.len() ==> (b[11] & mk(r.1, 11, 0xff)) == r.0[11]) && (12 < r.0.len() ==> (b[12] & mk(r.1, 12, 0xff)) == r.0[12]) && (13 < r.0.len() ==> (b[13] & mk(r.1, 13, 0xff)) == r.0[13]) && (14 < r.0.len() ==> (b[14] & mk(r.1, 14, 0xff)) == r.0[14]) && (15 < r.0.len() ==> (b[15] & mk(r.1, 15, 0xff)) == r.0[15]) {
        assert forall|k: int| 0 <= k < r.0.len() implies (#[trigger] b[k] & mk(r.1, k, 0xff)) == r.0[k] by {
            if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else if k == 15 { }
        }
    }
}
proof fn lemma_sigs(b: Seq<u8>)
    ensures st(b, 0, seq![0x89u8, 0x50, 0x4e, 0x47, 13, 10, 26, 10]) <==> (8 <= b.len() && b[0] == 0x89 && b[1] == 0x50 && b[2] == 0x4e && b[3] == 0x47 && b[4] == 13 && b[5] == 10 && b[6] == 26 && b[7] == 10), st(b, 0, seq![0xffu8, 0xd8, 0xff]) <==> (3 <= b.len() && b[0] == 0xff && b[1] == 0xd8 && b[2] == 0xff), st(b, 0, seq![0x47u8, 0x49, 0x46, 0x38, 0x37, 0x61]) <==> (6 <= b.len() && b[0] == 0x47 && b[1] == 0x49 && b[2] == 0x46 && b[3] == 0x38 && b[4] == 0x37 && b[5] == 0x61), st(b, 0, seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61]) <==> (6 <= b.len() && b[0] == 0x47 && b[1] == 0x49 && b[2] == 0x46 && b[3] == 0x38 && b[4] == 0x39 && b[5] == 0x61), st(b, 0, seq![0x52u8, 0x49, 0x46, 0x46]) <==> (4 <= b.len() && b[0] == 0x52 && b[1] == 0x49 && b[2] == 0x46 && b[3] == 0x46), st(b, 8, seq![0x57u8, 0x45, 0x42, 0x50]) <==> (12 <= b.len() && b[8] == 0x57 && b[9] == 0x45 && b[10] == 0x42 && b[11] == 0x50), st(b, 0, seq![0x4du8, 0x4d, 0, 42]) <==> (4 <= b.len() && b[0] == 0x4d && b[1] == 0x4d && b[2] == 0 && b[3] == 42), st(b, 0, seq![0x49u8, 0x49, 42, 0]) <==> (4 <= b.len() && b[0] == 0x49 && b[1] == 0x49 && b[2] == 42 && b[3] == 0), st(b, 0, seq![0x44u8, 0x44, 0x53, 0x20]) <==> (4 <= b.len() && b[0] == 0x44 && b[1] == 0x44 && b[2] == 0x53 && b[3] == 0x20), st(b, 0, seq![0x42u8, 0x4d]) <==> (2 <= b.len() && b[0] == 0x42 && b[1] == 0x4d), st(b, 0, seq![0u8, 0, 1, 0]) <==> (4 <= b.len() && b[0] == 0 && b[1] == 0 && b[2] == 1 && b[3] == 0), st(b, 0, seq![0x23u8, 0x3f, 0x52, 0x41, 0x44, 0x49, 0x41, 0x4e, 0x43, 0x45]) <==> (10 <= b.len() && b[0] == 0x23 && b[1] == 0x3f && b[2] == 0x52 && b[3] == 0x41 && b[4] == 0x44 && b[5] == 0x49 && b[6] == 0x41 && b[7] == 0x4e && b[8] == 0x43 && b[9] == 0x45), st(b, 0, seq![0u8, 0]) <==> (2 <= b.len() && b[0] == 0 && b[1] == 0), st(b, 4, seq![0x66u8, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66]) <==> (12 <= b.len() && b[4] == 0x66 && b[5] == 0x74 && b[6] == 0x79 && b[7] == 0x70 && b[8] == 0x61 && b[9] == 0x76 && b[10] == 0x69 && b[11] == 0x66), st(b, 0, seq![0x76u8, 0x2f, 0x31, 1]) <==> (4 <= b.len() && b[0] == 0x76 && b[1] == 0x2f && b[2] == 0x31 && b[3] == 1), st(b, 0, seq![0x71u8, 0x6f, 0x69, 0x66]) <==> (4 <= b.len() && b[0] == 0x71 && b[1] == 0x6f && b[2] == 0x69 && b[3] == 0x66), st(b, 0, seq![0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]) <==> (8 <= b.len() && b[0] == 0x66 && b[1] == 0x61 && b[2] == 0x72 && b[3] == 0x62 && b[4] == 0x66 && b[5] == 0x65 && b[6] == 0x6c && b[7] == 0x64)
{
    lemma_st(b, 0, seq![0x89u8, 0x50, 0x4e, 0x47, 13, 10, 26, 10]); lemma_st(b, 0, seq![0xffu8, 0xd8, 0xff]); lemma_st(b, 0, seq![0x47u8, 0x49, 0x46, 0x38, 0x37, 0x61]); lemma_st(b, 0, seq![0x47u8, 0x49, 0x46, 0x38, 0x39, 0x61]); lemma_st(b, 0, seq![0x52u8, 0x49, 0x46, 0x46]); lemma_st(b, 8, seq![0x57u8, 0x45, 0x42, 0x50]); lemma_st(b, 0, seq![0x4du8, 0x4d, 0, 42]); lemma_st(b, 0, seq![0x49u8, 0x49, 42, 0]); lemma_st(b, 0, seq![0x44u8, 0x44, 0x53, 0x20]); lemma_st(b, 0, seq![0x42u8, 0x4d]); lemma_st(b, 0, seq![0u8, 0, 1, 0]); lemma_st(b, 0, seq![0x23u8, 0x3f, 0x52, 0x41, 0x44, 0x49, 0x41, 0x4e, 0x43, 0x45]); lemma_st(b, 0, seq![0u8, 0]); lemma_st(b, 4, seq![0x66u8, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66]); lemma_st(b, 0, seq![0x76u8, 0x2f, 0x31, 1]); lemma_st(b, 0, seq![0x71u8, 0x6f, 0x69, 0x66]); lemma_st(b, 0, seq![0x66u8, 0x61, 0x72, 0x62, 0x66, 0x65, 0x6c, 0x64]);
}
// every row of the table is (part of) the documented signature of its format
pub proof fn table_row_documented(b: Seq<u8>, k: int)
    requires 0 <= k < magic().len()
    ensures row_match(magic()[k], b) ==> documented(magic()[k].2, b)
{
    lemma_masks(); lemma_sigs(b); lemma_masked(magic()[k], b);
    let r = magic()[k];
    if k == 0 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 1 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 2 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 3 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 4 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 5 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 6 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 7 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 8 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 9 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 10 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 11 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 12 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 13 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 14 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 15 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 16 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 17 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 18 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 19 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 20 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 21 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 22 { assert(row_match(r, b) ==> documented(r.2, b)); } else if k == 23 { assert(row_match(r, b) ==> documented(r.2, b)); }
}
pub open spec fn some_row(b: Seq<u8>) -> bool { exists|k: int| 0 <= k < magic().len() && #[trigger] row_match(magic()[k], b) }
// every documented signature is recognised by some row
pub proof fn table_covers_documented(b: Seq<u8>, f: ImageFormat)
    requires documented(f, b), forall|k: int| 0 <= k < magic().len() ==> !#[trigger] row_match(magic()[k], b)
    ensures false
{
    lemma_masks(); lemma_sigs(b);
    if 0 < magic().len() { lemma_masked(magic()[0], b); assert(!row_match(magic()[0], b)); }
    if 1 < magic().len() { lemma_masked(magic()[1], b); assert(!row_match(magic()[1], b)); }
    if 2 < magic().len() { lemma_masked(magic()[2], b); assert(!row_match(magic()[2], b)); }
    if 3 < magic().len() { lemma_masked(magic()[3], b); assert(!row_match(magic()[3], b)); }
    if 4 < magic().len() { lemma_masked(magic()[4], b); assert(!row_match(magic()[4], b)); }
    if 5 < magic().len() { lemma_masked(magic()[5], b); assert(!row_match(magic()[5], b)); }
    if 6 < magic().len() { lemma_masked(magic()[6], b); assert(!row_match(magic()[6], b)); }
    if 7 < magic().len() { lemma_masked(magic()[7], b); assert(!row_match(magic()[7], b)); }
    if 8 < magic().len() { lemma_masked(magic()[8], b); assert(!row_match(magic()[8], b)); }
    if 9 < magic().len() { lemma_masked(magic()[9], b); assert(!row_match(magic()[9], b)); }
    if 10 < magic().len() { lemma_masked(magic()[10], b); assert(!row_match(magic()[10], b)); }
    if 11 < magic().len() { lemma_masked(magic()[11], b); assert(!row_match(magic()[11], b)); }
    if 12 < magic().len() { lemma_masked(magic()[12], b); assert(!row_match(magic()[12], b)); }
    if 13 < magic().len() { lemma_masked(magic()[13], b); assert(!row_match(magic()[13], b)); }
    if 14 < magic().len() { lemma_masked(magic()[14], b); assert(!row_match(magic()[14], b)); }
    if 15 < magic().len() { lemma_masked(magic()[15], b); assert(!row_match(magic()[15], b)); }
    if 16 < magic().len() { lemma_masked(magic()[16], b); assert(!row_match(magic()[16], b)); }
    if 17 < magic().len() { lemma_masked(magic()[17], b); assert(!row_match(magic()[17], b)); }
    if 18 < magic().len() { lemma_masked(magic()[18], b); assert(!row_match(magic()[18], b)); }
    if 19 < magic().len() { lemma_masked(magic()[19], b); assert(!row_match(magic()[19], b)); }
    if 20 < magic().len() { lemma_masked(magic()[20], b); assert(!row_match(magic()[20], b)); }
    if 21 < magic().len() { lemma_masked(magic()[21], b); assert(!row_match(magic()[21], b)); }
    if 22 < magic().len() { lemma_masked(magic()[22], b); assert(!row_match(magic()[22], b)); }
    if 23 < magic().len() { lemma_masked(magic()[23], b); assert(!row_match(magic()[23], b)); }
    match f { ImageFormat::Png => { assert(false); } ImageFormat::Jpeg => { assert(false); } ImageFormat::Gif => { assert(false); } ImageFormat::WebP => { assert(false); } ImageFormat::Tiff => { assert(false); } ImageFormat::Dds => { assert(false); }
        ImageFormat::Bmp => { assert(false); } ImageFormat::Ico => { assert(false); } ImageFormat::Hdr => { assert(false); } ImageFormat::Avif => { assert(false); } ImageFormat::OpenExr => { assert(false); } ImageFormat::Qoi => { assert(false); }
        ImageFormat::Pnm => { assert(false); } ImageFormat::Farbfeld => { assert(false); } ImageFormat::Pcx => { assert(false); } ImageFormat::Tga => { assert(false); } }
}
proof fn lemma_scan(b: Seq<u8>, k: int)
    requires 0 <= k <= magic().len(), forall|j: int| 0 <= j < k ==> !#[trigger] row_match(magic()[j], b)
    ensures scan(b, k) is Some ==> documented(scan(b, k).unwrap(), b), scan(b, k) is None ==> !known(b)
    decreases magic().len() - k
{
    if k < magic().len() {
        table_row_documented(b, k);
        if !row_match(magic()[k], b) { lemma_scan(b, k + 1); }
    } else if known(b) {
        let f = choose|f: ImageFormat| #[trigger] documented(f, b);
        table_covers_documented(b, f);
    }
}
//@fn src/image_reader/free_functions.rs guess_format ret=res vis=pub
//@ subst? `Err(ImageError::Unsupported(ImageFormatHint::Unknown.into()))` => `Err(ImageError::Unsupported)`
//@ spec
    ensures match res { Ok(f) => documented(f, $n0@), Err(_) => !known($n0@) },
//@end
#[derive(Debug)]
pub enum ImageError { Unsupported }
pub type ImageResult<T> = Result<T, ImageError>;
} // verus!
fn main() {}
