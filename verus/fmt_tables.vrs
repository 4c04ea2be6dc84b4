#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@item src/image.rs enum ImageFormat vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
// the documented tables; `of` is written once per direction and the two are compared by lemmas below
pub open spec fn ext_of(s: Seq<char>) -> Option<ImageFormat> {
    if s == "avif"@ { Some(ImageFormat::Avif) }
    else if s == "jpg"@ || s == "jpeg"@ || s == "jfif"@ { Some(ImageFormat::Jpeg) }
    else if s == "png"@ || s == "apng"@ { Some(ImageFormat::Png) }
    else if s == "gif"@ { Some(ImageFormat::Gif) }
    else if s == "webp"@ { Some(ImageFormat::WebP) }
    else if s == "tif"@ || s == "tiff"@ { Some(ImageFormat::Tiff) }
    else if s == "tga"@ { Some(ImageFormat::Tga) }
    else if s == "dds"@ { Some(ImageFormat::Dds) }
    else if s == "bmp"@ { Some(ImageFormat::Bmp) }
    else if s == "ico"@ { Some(ImageFormat::Ico) }
    else if s == "hdr"@ { Some(ImageFormat::Hdr) }
    else if s == "exr"@ { Some(ImageFormat::OpenExr) }
    else if s == "pbm"@ || s == "pam"@ || s == "ppm"@ || s == "pgm"@ { Some(ImageFormat::Pnm) }
    else if s == "ff"@ { Some(ImageFormat::Farbfeld) }
    else if s == "qoi"@ { Some(ImageFormat::Qoi) }
    else if s == "pcx"@ { Some(ImageFormat::Pcx) }
    else { None }
}
pub open spec fn mime_of(s: Seq<char>) -> Option<ImageFormat> {
    if s == "image/avif"@ { Some(ImageFormat::Avif) }
    else if s == "image/jpeg"@ { Some(ImageFormat::Jpeg) }
    else if s == "image/png"@ { Some(ImageFormat::Png) }
    else if s == "image/gif"@ { Some(ImageFormat::Gif) }
    else if s == "image/webp"@ { Some(ImageFormat::WebP) }
    else if s == "image/tiff"@ { Some(ImageFormat::Tiff) }
    else if s == "image/x-targa"@ || s == "image/x-tga"@ { Some(ImageFormat::Tga) }
    else if s == "image/vnd-ms.dds"@ { Some(ImageFormat::Dds) }
    else if s == "image/bmp"@ { Some(ImageFormat::Bmp) }
    else if s == "image/x-icon"@ || s == "image/vnd.microsoft.icon"@ { Some(ImageFormat::Ico) }
    else if s == "image/vnd.radiance"@ { Some(ImageFormat::Hdr) }
    else if s == "image/x-exr"@ { Some(ImageFormat::OpenExr) }
    else if s == "image/x-portable-bitmap"@ || s == "image/x-portable-graymap"@ || s == "image/x-portable-pixmap"@ || s == "image/x-portable-anymap"@ { Some(ImageFormat::Pnm) }
    else if s == "image/x-qoi"@ { Some(ImageFormat::Qoi) }
    else if s == "image/vnd.zbrush.pcx"@ || s == "image/x-pcx"@ { Some(ImageFormat::Pcx) }
    else { None }
}
// literals with different characters are different
pub proof fn lits()
    ensures
        "apng"@ == seq!['a', 'p', 'n', 'g'],
        "application/octet-stream"@ == seq!['a', 'p', 'p', 'l', 'i', 'c', 'a', 't', 'i', 'o', 'n', '/', 'o', 'c', 't', 'e', 't', '-', 's', 't', 'r', 'e', 'a', 'm'],
        "avif"@ == seq!['a', 'v', 'i', 'f'],
        "bmp"@ == seq!['b', 'm', 'p'],
        "dds"@ == seq!['d', 'd', 's'],
        "exr"@ == seq!['e', 'x', 'r'],
        "ff"@ == seq!['f', 'f'],
        "gif"@ == seq!['g', 'i', 'f'],
        "hdr"@ == seq!['h', 'd', 'r'],
        "ico"@ == seq!['i', 'c', 'o'],
        "image/avif"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'a', 'v', 'i', 'f'],
        "image/bmp"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'b', 'm', 'p'],
        "image/gif"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'g', 'i', 'f'],
        "image/jpeg"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'j', 'p', 'e', 'g'],
        "image/png"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'p', 'n', 'g'],
        "image/tiff"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 't', 'i', 'f', 'f'],
        "image/vnd-ms.dds"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '-', 'm', 's', '.', 'd', 'd', 's'],
        "image/vnd.microsoft.icon"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '.', 'm', 'i', 'c', 'r', 'o', 's', 'o', 'f', 't', '.', 'i', 'c', 'o', 'n'],
        "image/vnd.radiance"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '.', 'r', 'a', 'd', 'i', 'a', 'n', 'c', 'e'],
        "image/vnd.zbrush.pcx"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '.', 'z', 'b', 'r', 'u', 's', 'h', '.', 'p', 'c', 'x'],
        "image/webp"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'w', 'e', 'b', 'p'],
        "image/x-exr"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'e', 'x', 'r'],
        "image/x-icon"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'i', 'c', 'o', 'n'],
        "image/x-pcx"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'c', 'x'],
        "image/x-portable-anymap"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'a', 'n', 'y', 'm', 'a', 'p'],
        "image/x-portable-bitmap"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'b', 'i', 't', 'm', 'a', 'p'],
        "image/x-portable-graymap"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'g', 'r', 'a', 'y', 'm', 'a', 'p'],
        "image/x-portable-pixmap"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'p', 'i', 'x', 'm', 'a', 'p'],
        "image/x-qoi"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'q', 'o', 'i'],
        "image/x-targa"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 't', 'a', 'r', 'g', 'a'],
        "image/x-tga"@ == seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 't', 'g', 'a'],
        "jfif"@ == seq!['j', 'f', 'i', 'f'],
        "jpeg"@ == seq!['j', 'p', 'e', 'g'],
        "jpg"@ == seq!['j', 'p', 'g'],
        "pam"@ == seq!['p', 'a', 'm'],
        "pbm"@ == seq!['p', 'b', 'm'],
        "pcx"@ == seq!['p', 'c', 'x'],
        "pgm"@ == seq!['p', 'g', 'm'],
        "png"@ == seq!['p', 'n', 'g'],
        "ppm"@ == seq!['p', 'p', 'm'],
        "qoi"@ == seq!['q', 'o', 'i'],
        "tga"@ == seq!['t', 'g', 'a'],
        "tif"@ == seq!['t', 'i', 'f'],
        "tiff"@ == seq!['t', 'i', 'f', 'f'],
        "webp"@ == seq!['w', 'e', 'b', 'p'],
{
    reveal_strlit("apng"); assert("apng"@ =~= seq!['a', 'p', 'n', 'g']);
    reveal_strlit("application/octet-stream"); assert("application/octet-stream"@ =~= seq!['a', 'p', 'p', 'l', 'i', 'c', 'a', 't', 'i', 'o', 'n', '/', 'o', 'c', 't', 'e', 't', '-', 's', 't', 'r', 'e', 'a', 'm']);
    reveal_strlit("avif"); assert("avif"@ =~= seq!['a', 'v', 'i', 'f']);
    reveal_strlit("bmp"); assert("bmp"@ =~= seq!['b', 'm', 'p']);
    reveal_strlit("dds"); assert("dds"@ =~= seq!['d', 'd', 's']);
    reveal_strlit("exr"); assert("exr"@ =~= seq!['e', 'x', 'r']);
    reveal_strlit("ff"); assert("ff"@ =~= seq!['f', 'f']);
    reveal_strlit("gif"); assert("gif"@ =~= seq!['g', 'i', 'f']);
    reveal_strlit("hdr"); assert("hdr"@ =~= seq!['h', 'd', 'r']);
    reveal_strlit("ico"); assert("ico"@ =~= seq!['i', 'c', 'o']);
    reveal_strlit("image/avif"); assert("image/avif"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'a', 'v', 'i', 'f']);
    reveal_strlit("image/bmp"); assert("image/bmp"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'b', 'm', 'p']);
    reveal_strlit("image/gif"); assert("image/gif"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'g', 'i', 'f']);
    reveal_strlit("image/jpeg"); assert("image/jpeg"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'j', 'p', 'e', 'g']);
    reveal_strlit("image/png"); assert("image/png"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'p', 'n', 'g']);
    reveal_strlit("image/tiff"); assert("image/tiff"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 't', 'i', 'f', 'f']);
    reveal_strlit("image/vnd-ms.dds"); assert("image/vnd-ms.dds"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '-', 'm', 's', '.', 'd', 'd', 's']);
    reveal_strlit("image/vnd.microsoft.icon"); assert("image/vnd.microsoft.icon"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '.', 'm', 'i', 'c', 'r', 'o', 's', 'o', 'f', 't', '.', 'i', 'c', 'o', 'n']);
    reveal_strlit("image/vnd.radiance"); assert("image/vnd.radiance"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '.', 'r', 'a', 'd', 'i', 'a', 'n', 'c', 'e']);
    reveal_strlit("image/vnd.zbrush.pcx"); assert("image/vnd.zbrush.pcx"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'v', 'n', 'd', '.', 'z', 'b', 'r', 'u', 's', 'h', '.', 'p', 'c', 'x']);
    reveal_strlit("image/webp"); assert("image/webp"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'w', 'e', 'b', 'p']);
    reveal_strlit("image/x-exr"); assert("image/x-exr"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'e', 'x', 'r']);
    reveal_strlit("image/x-icon"); assert("image/x-icon"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'i', 'c', 'o', 'n']);
    reveal_strlit("image/x-pcx"); assert("image/x-pcx"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'c', 'x']);
    reveal_strlit("image/x-portable-anymap"); assert("image/x-portable-anymap"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'a', 'n', 'y', 'm', 'a', 'p']);
    reveal_strlit("image/x-portable-bitmap"); assert("image/x-portable-bitmap"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'b', 'i', 't', 'm', 'a', 'p']);
    reveal_strlit("image/x-portable-graymap"); assert("image/x-portable-graymap"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'g', 'r', 'a', 'y', 'm', 'a', 'p']);
    reveal_strlit("image/x-portable-pixmap"); assert("image/x-portable-pixmap"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'p', 'o', 'r', 't', 'a', 'b', 'l', 'e', '-', 'p', 'i', 'x', 'm', 'a', 'p']);
    reveal_strlit("image/x-qoi"); assert("image/x-qoi"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 'q', 'o', 'i']);
    reveal_strlit("image/x-targa"); assert("image/x-targa"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 't', 'a', 'r', 'g', 'a']);
    reveal_strlit("image/x-tga"); assert("image/x-tga"@ =~= seq!['i', 'm', 'a', 'g', 'e', '/', 'x', '-', 't', 'g', 'a']);
    reveal_strlit("jfif"); assert("jfif"@ =~= seq!['j', 'f', 'i', 'f']);
    reveal_strlit("jpeg"); assert("jpeg"@ =~= seq!['j', 'p', 'e', 'g']);
    reveal_strlit("jpg"); assert("jpg"@ =~= seq!['j', 'p', 'g']);
    reveal_strlit("pam"); assert("pam"@ =~= seq!['p', 'a', 'm']);
    reveal_strlit("pbm"); assert("pbm"@ =~= seq!['p', 'b', 'm']);
    reveal_strlit("pcx"); assert("pcx"@ =~= seq!['p', 'c', 'x']);
    reveal_strlit("pgm"); assert("pgm"@ =~= seq!['p', 'g', 'm']);
    reveal_strlit("png"); assert("png"@ =~= seq!['p', 'n', 'g']);
    reveal_strlit("ppm"); assert("ppm"@ =~= seq!['p', 'p', 'm']);
    reveal_strlit("qoi"); assert("qoi"@ =~= seq!['q', 'o', 'i']);
    reveal_strlit("tga"); assert("tga"@ =~= seq!['t', 'g', 'a']);
    reveal_strlit("tif"); assert("tif"@ =~= seq!['t', 'i', 'f']);
    reveal_strlit("tiff"); assert("tiff"@ =~= seq!['t', 'i', 'f', 'f']);
    reveal_strlit("webp"); assert("webp"@ =~= seq!['w', 'e', 'b', 'p']);
}
// assumed: a string value is determined by its characters
pub broadcast axiom fn axiom_str(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == lower(s@);
// std::ffi::OsStr and std::path::Path: what they are in UTF-8, if they are
pub struct OsStr { pub k: u8 }
pub uninterp spec fn os(o: OsStr) -> Option<Seq<char>>;
impl OsStr {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> os(*self) is Some, r is Some ==> r.unwrap()@ == os(*self).unwrap() { unimplemented!() }
}
pub open spec fn ext_os(o: OsStr) -> Option<ImageFormat> { match os(o) { Some(s) => ext_of(lower(s)), None => None } }
pub struct Path { pub k: u8 }
pub uninterp spec fn path_ext(p: Path) -> Option<OsStr>;
impl Path {
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is Some <==> path_ext(*self) is Some, r is Some ==> *r.unwrap() == path_ext(*self).unwrap() { unimplemented!() }
}
pub enum ImageError { Unsupported }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body]
pub fn vx_items<const N: usize>(a: &[ImageFormat; N]) -> (r: Vec<ImageFormat>) ensures r@ == a@ { a.to_vec() }
impl ImageFormat {
//@fn src/image.rs inner ctx="impl ImageFormat" nth=0 as=from_extension ret=res vis=pub
//@ spec
    ensures res == ext_os(*$n0),
//@ at body.start
    broadcast use axiom_str; proof { lits(); }
//@end
//@fn src/image.rs inner ctx="impl ImageFormat" nth=1 as=from_path ret=res vis=pub
//@ subst? `.ok_or_else(|| {$A})` => `.ok_or(ImageError::Unsupported)`
//@ spec
    ensures match res { Ok(f) => path_ext(*$n0) is Some && ext_os(path_ext(*$n0).unwrap()) == Some(f), Err(_) => path_ext(*$n0) is None || ext_os(path_ext(*$n0).unwrap()) is None },
//@end
//@fn src/image.rs from_mime_type ret=res vis=pub
//@ sigsubst `<M>` => ``
//@ sigsubst? `where M: AsRef<str>,` => ``
//@ sigsubst `: M` => `: &str`
//@ subst? `mime_type.as_ref()` => `mime_type`
//@ spec
    ensures res == mime_of($n0@),
//@ at body.start
    broadcast use axiom_str; proof { lits(); }
//@end
//@fn src/image.rs to_mime_type ret=res vis=pub
//@ spec
    // a media type of its own is recognised; formats without one answer the generic type
    ensures mime_of(res@) == Some(*self) || (*self is Farbfeld && res@ == "application/octet-stream"@),
//@ at body.start
    proof { lits(); }
//@end
//@fn src/image.rs extensions_str ret=res vis=pub
//@ spec
    ensures res@.len() > 0, forall|k: int| 0 <= k < res@.len() ==> ext_of((#[trigger] res@[k])@) == Some(self),
//@ at body.start
    proof { lits(); }
//@end
//@fn src/image.rs all ret=res vis=pub
//@ sigsubst `impl Iterator<Item = ImageFormat>` => `Vec<ImageFormat>`
//@ subst? `$A.iter().copied()` => `vx_items(&$A)`
//@ spec
    ensures forall|f: ImageFormat| res@.contains(f), res@.no_duplicates(),
//@end
}
}
fn main() {}
