//! C12 format identification
use crate::nd::*;
use image::*;
use std::io::Cursor;
use ImageFormat::*;
/// the icon and AVIF signatures overlap: either answer is sound there
fn avif_first() -> bool { guess_format(&[0, 0, 1, 0, b'f', b't', b'y', b'p', b'a', b'v', b'i', b'f']).ok() == Some(Avif) }
/// documented signatures: bytes, None = any byte, with an optional mask
fn signature(b: &[u8]) -> Option<ImageFormat> {
    let st = |s: &[u8]| b.len() >= s.len() && &b[..s.len()] == s;
    let at = |o: usize, s: &[u8]| b.len() >= o + s.len() && &b[o..o + s.len()] == s;
    if st(&[0x89, b'P', b'N', b'G', 13, 10, 26, 10]) { return Some(Png); }
    if st(&[0xff, 0xd8, 0xff]) { return Some(Jpeg); }
    if st(b"GIF87a") || st(b"GIF89a") { return Some(Gif); }
    if st(b"RIFF") && at(8, b"WEBP") { return Some(WebP); }
    if st(&[b'M', b'M', 0, 42]) || st(&[b'I', b'I', 42, 0]) { return Some(Tiff); }
    if st(b"DDS ") { return Some(Dds); }
    if st(b"BM") { return Some(Bmp); }
    if st(&[0, 0, 1, 0]) { return Some(if avif_first() && st(&[0, 0]) && at(4, b"ftypavif") { Avif } else { Ico }); }
    if st(b"#?RADIANCE") { return Some(Hdr); }
    if st(&[0, 0]) && at(4, b"ftypavif") { return Some(Avif); }
    if st(&[0x76, 0x2f, 0x31, 0x01]) { return Some(OpenExr); }
    if st(b"qoif") { return Some(Qoi); }
    if b.len() >= 2 && b[0] == b'P' && (b'1'..=b'7').contains(&b[1]) { return Some(Pnm); }
    if st(b"farbfeld") { return Some(Farbfeld); }
    if b.len() >= 2 && b[0] == 0x0a && b[1] < 8 { return Some(Pcx); }
    None
}
const SIGS: [&[u8]; 24] = [&[0x89, b'P', b'N', b'G', 13, 10, 26, 10], &[0xff, 0xd8, 0xff], b"GIF89a", b"GIF87a", b"RIFF\x12\x34\x56\x78WEBP", b"MM\0*", b"II*\0", b"DDS ", b"BM", &[0, 0, 1, 0], b"#?RADIANCE", b"\0\0\0 ftypavif", b"\0\0\x01\x02ftypavif",
    &[0x76, 0x2f, 0x31, 1], b"qoif", b"P1", b"P2", b"P3", b"P4", b"P5", b"P6", b"P7", b"farbfeld", &[10, 5]];
pub fn sniffing<N: Nd>(n: &mut N) {
    let mut b = vec![];
    if n.range(0, 5) > 0 { b.extend(SIGS[n.range(0, 23)]); for _ in 0..n.range(0, 2) { let i = n.range(0, b.len() - 1); b[i] = if n.bool() { n.u8() } else { b[i] ^ (1 << n.range(0, 7)) }; } if n.range(0, 3) == 0 { let l = n.range(0, b.len()); b.truncate(l); } }
    let extra = n.range(0, 40); b.extend(n.bytes(extra));
    let want = signature(&b);
    assert_eq!(guess_format(&b).ok(), want, "guess_format({b:02x?})");
    let pre = n.range(0, 3); let mut v = vec![0x42u8; pre]; v.extend(&b);
    let mut c = Cursor::new(&v); c.set_position(pre as u64);
    let r = ImageReader::new(c).with_guessed_format().unwrap();
    assert_eq!(r.format(), want, "with_guessed_format({b:02x?})");
    assert_eq!(r.into_inner().position(), pre as u64, "sniffing moved the reader");
    let r = ImageReader::with_format(rd(&b), Qoi).with_guessed_format().unwrap();
    assert_eq!(r.format(), want.or(Some(Qoi)), "with_guessed_format keeps a set format when nothing is recognised ({b:02x?})");
}
/// every string of up to two bytes, and every byte after the third position of the four-byte ones
pub fn sniffing_short<N: Nd>(n: &mut N) {
    let l = n.range(0, 2); let b = n.bytes(l);
    assert_eq!(guess_format(&b).ok(), signature(&b), "guess_format({b:02x?})");
}
pub fn tables<N: Nd>(n: &mut N) {
    let all: Vec<ImageFormat> = ImageFormat::all().collect();
    for f in [Png, Jpeg, Gif, WebP, Pnm, Tiff, Tga, Dds, Bmp, Ico, Hdr, OpenExr, Farbfeld, Avif, Qoi, Pcx] { assert_eq!(all.iter().filter(|&&g| g == f).count(), 1, "all() lists {f:?} once"); }
    assert_eq!(all.len(), 16);
    let f = all[n.range(0, 15)];
    assert!(!f.extensions_str().is_empty());
    for e in f.extensions_str() {
        let mask = n.raw(0, (1 << e.len()) - 1);
        let s: String = e.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        assert_eq!(ImageFormat::from_extension(&s), Some(f), "extension {s}");
        assert_eq!(ImageFormat::from_path(format!("dir.png/a.{s}")).ok(), Some(f), "path with extension {s}");
        assert_eq!(ImageFormat::from_path(format!("a.gif.{s}")).ok(), Some(f));
    }
    let m = f.to_mime_type();
    assert_eq!(ImageFormat::from_mime_type(m), if f == Farbfeld { None } else { Some(f) }, "media type {m}");
    // a format that can be written can be read, and enabled implies possible
    if f.can_write() { assert!(f.can_read()); }
    if f.reading_enabled() { assert!(f.can_read(), "{f:?}"); }
    if f.writing_enabled() { assert!(f.can_write(), "{f:?}"); }
    // documented names
    let docs: [(&str, ImageFormat); 40] = [("avif", Avif), ("jpg", Jpeg), ("jpeg", Jpeg), ("jfif", Jpeg), ("png", Png), ("apng", Png), ("gif", Gif), ("webp", WebP), ("tif", Tiff), ("tiff", Tiff), ("tga", Tga), ("dds", Dds), ("bmp", Bmp), ("ico", Ico), ("hdr", Hdr), ("exr", OpenExr), ("pbm", Pnm), ("pam", Pnm), ("ppm", Pnm), ("pgm", Pnm), ("ff", Farbfeld), ("qoi", Qoi), ("pcx", Pcx),
        ("image/avif", Avif), ("image/jpeg", Jpeg), ("image/png", Png), ("image/gif", Gif), ("image/webp", WebP), ("image/tiff", Tiff), ("image/x-targa", Tga), ("image/x-tga", Tga), ("image/vnd-ms.dds", Dds), ("image/bmp", Bmp), ("image/x-icon", Ico), ("image/vnd.microsoft.icon", Ico), ("image/vnd.radiance", Hdr), ("image/x-exr", OpenExr), ("image/x-portable-graymap", Pnm), ("image/x-portable-pixmap", Pnm), ("image/x-portable-bitmap", Pnm)];
    for (s, f) in docs { assert_eq!(if s.contains('/') { ImageFormat::from_mime_type(s) } else { ImageFormat::from_extension(s) }, Some(f), "{s}"); }
    for s in ["", "p", "pn", "pngg", "jpe g", "bm", "ppn", " png", "png ", ".png", "tgaa", "xbm", "svg"] { assert_eq!(ImageFormat::from_extension(s), None, "extension {s:?}"); }
    for s in ["", "image/", "image", "png", "image/pn", "text/plain", "image/pngx", "application/octet-stream"] { assert_eq!(ImageFormat::from_mime_type(s), None, "media type {s:?}"); }
    assert!(ImageFormat::from_path("noext").is_err() && ImageFormat::from_path("a.xyz").is_err() && ImageFormat::from_path("").is_err() && ImageFormat::from_path(".png").is_err());
}
/// what the library writes is sniffed as what it is
pub fn written<N: Nd>(n: &mut N) {
    let f = crate::c07::FORMATS[n.range(0, 11)];
    let (w, h) = (n.r32(1, 5), n.r32(1, 5));
    let d = crate::c07::encoded(f, w, h, n);
    if f != Tga { assert_eq!(guess_format(&d).ok(), Some(f), "sniffing what the {f:?} encoder wrote"); }
}
entries! {"C12";
    sniffing Fuzz "guess_format and with_guessed_format: signatures, altered, truncated and followed by anything",
    sniffing_short EnumFull "guess_format: all inputs of up to two bytes",
    tables Enum "extension and media type tables of all formats, all letter cases",
    written Enum "files written by 12 encoders",
}
