//! C11 orientation
use crate::nd::*;
use image::metadata::Orientation;
use image::*;
use std::io::Cursor;
struct Mock { exif: Option<Vec<u8>>, fixed: Option<Orientation> }
impl ImageDecoder for Mock {
    fn dimensions(&self) -> (u32, u32) { (1, 1) }
    fn color_type(&self) -> ColorType { ColorType::L8 }
    fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> { Ok(self.exif.clone()) }
    fn read_image(self, _: &mut [u8]) -> ImageResult<()> { Ok(()) }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> { (*self).read_image(buf) }
}
struct Over(Orientation);
impl ImageDecoder for Over {
    fn dimensions(&self) -> (u32, u32) { (1, 1) }
    fn color_type(&self) -> ColorType { ColorType::L8 }
    fn orientation(&mut self) -> ImageResult<Orientation> { Ok(self.0) }
    fn exif_metadata(&mut self) -> ImageResult<Option<Vec<u8>>> { Ok(Some(vec![1, 2])) }
    fn icc_profile(&mut self) -> ImageResult<Option<Vec<u8>>> { Ok(Some(vec![3])) }
    fn original_color_type(&self) -> ExtendedColorType { ExtendedColorType::L1 }
    fn total_bytes(&self) -> u64 { 77 }
    fn read_image(self, _: &mut [u8]) -> ImageResult<()> { Ok(()) }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> { (*self).read_image(buf) }
}
/// the eight codes, as EXIF 2.3 table for tag 0x112 defines them
pub fn codes<N: Nd>(n: &mut N) {
    use Orientation::*;
    let t = [NoTransforms, FlipHorizontal, Rotate180, FlipVertical, Rotate90FlipH, Rotate90, Rotate270FlipH, Rotate270];
    let k = n.u8();
    let want = if (1..=8).contains(&k) { Some(t[k as usize - 1]) } else { None };
    assert_eq!(Orientation::from_exif(k), want, "from_exif({k})");
    if let Some(o) = want { assert_eq!(o.to_exif(), k, "to_exif({o:?})");
        let mut b: Box<dyn ImageDecoder> = Box::new(Over(o));
        assert_eq!(b.orientation().unwrap(), o, "boxed decoder");
        let mut b = Box::new(b);
        assert_eq!(ImageDecoder::orientation(&mut b).unwrap(), o, "decoder boxed twice");
        assert_eq!((b.exif_metadata().unwrap(), b.icc_profile().unwrap(), b.original_color_type(), b.total_bytes()), (Some(vec![1, 2]), Some(vec![3]), ExtendedColorType::L1, 77)); }
}
/// independent reading of a blob: the first entry tagged 0x112 with format SHORT and count 1 decides
pub fn oracle(b: &[u8]) -> Option<Orientation> {
    let le = match b.get(0..4)? { [0x49, 0x49, 42, 0] => true, [0x4d, 0x4d, 0, 42] => false, _ => return None };
    let r16 = |o: u64| -> Option<u16> { let o = usize::try_from(o).ok()?; let s = b.get(o..o.checked_add(2)?)?; Some(if le { u16::from_le_bytes([s[0], s[1]]) } else { u16::from_be_bytes([s[0], s[1]]) }) };
    let r32 = |o: u64| -> Option<u32> { let o = usize::try_from(o).ok()?; let s = b.get(o..o.checked_add(4)?)?; let a = [s[0], s[1], s[2], s[3]]; Some(if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) }) };
    let ifd = r32(4)? as u64;
    let cnt = r16(ifd)? as u64;
    for i in 0..cnt {
        let o = ifd + 2 + 12 * i;
        b.get(o as usize..o as usize + 12)?;
        if r16(o)? == 0x112 && r16(o + 2)? == 3 && r32(o + 4)? == 1 { let v = r16(o + 8)?; return if (1..=8).contains(&v) { Orientation::from_exif(v as u8) } else { None }; }
    }
    None
}
pub fn blob<N: Nd>(n: &mut N) -> Vec<u8> {
    if n.range(0, 20) == 0 { let l = n.range(0, 40); return n.bytes(l); }
    let le = n.bool();
    let p16 = |v: &mut Vec<u8>, x: u16| v.extend(if le { x.to_le_bytes() } else { x.to_be_bytes() });
    let p32 = |v: &mut Vec<u8>, x: u32| v.extend(if le { x.to_le_bytes() } else { x.to_be_bytes() });
    let mut v = if le { vec![0x49, 0x49, 42, 0] } else { vec![0x4d, 0x4d, 0, 42] };
    let pad = n.range(0, 5);
    let off = match n.range(0, 12) { 0 => n.u32(), 1 => u32::MAX - n.r32(0, 3), 2 => n.r32(0, 20), _ => 8 + pad as u32 };
    p32(&mut v, off); for _ in 0..pad { v.push(n.u8()); }
    let cnt = n.range(0, 4) as u16;
    p16(&mut v, if n.range(0, 7) == 0 { n.u16() } else { cnt });
    for _ in 0..cnt {
        let good = n.range(0, 2) > 0;
        let (t, f, c) = if good { (0x112, 3, 1) } else { ([0x112, 0x111, 0x1201, n.u16()][n.range(0, 3)], [3, 4, 0x300, n.u16()][n.range(0, 3)], [1, 2, 0, 0x10000, 0x01000000, n.u32()][n.range(0, 5)]) };
        p16(&mut v, t); p16(&mut v, f); p32(&mut v, c);
        let val = match n.range(0, 6) { 0 => n.u16(), 1 => 256 + n.r32(0, 9) as u16, 2 => (n.r32(0, 9) as u16) << 8, _ => n.r32(0, 9) as u16 };
        p16(&mut v, val); p16(&mut v, n.u16() & 0x0f0f);
    }
    if n.range(0, 3) == 0 { let l = n.range(0, v.len()); v.truncate(l); }
    if n.range(0, 5) == 0 && !v.is_empty() { let i = n.range(0, v.len() - 1); v[i] = n.u8(); }
    v
}
pub fn parsing<N: Nd>(n: &mut N) {
    let b = blob(n);
    let mut m = Mock { exif: Some(b.clone()), fixed: None };
    let _ = m.fixed;
    let r = catch(|| m.orientation().unwrap());
    assert!(r.is_some(), "reading the orientation of {b:02x?} panicked");
    assert_eq!(r.unwrap(), oracle(&b).unwrap_or(Orientation::NoTransforms), "orientation of {b:02x?}");
    assert_eq!(Mock { exif: None, fixed: None }.orientation().unwrap(), Orientation::NoTransforms);
}
/// orientation through the real decoders
pub fn decoders<N: Nd>(n: &mut N) {
    let b = blob(n);
    n.assume(!b.is_empty());
    let want = oracle(&b).unwrap_or(Orientation::NoTransforms);
    let img = DynamicImage::ImageRgb8(RgbImage::new(2, 1));
    let mut o = Cursor::new(vec![]);
    match n.range(0, 2) {
        0 => {
            img.write_to(&mut o, ImageFormat::Jpeg).unwrap(); let j = o.into_inner();
            let mut f = j[..2].to_vec(); f.extend([0xff, 0xe1]); f.extend(((b.len() + 8) as u16).to_be_bytes()); f.extend(b"Exif\0\0"); f.extend(&b); f.extend(&j[2..]);
            let mut d = codecs::jpeg::JpegDecoder::new(Cursor::new(&f)).unwrap();
            let first = n.bool(); if first { assert_eq!(d.exif_metadata().unwrap().as_deref(), Some(&b[..])); }
            assert_eq!(d.orientation().unwrap(), want, "JPEG with {b:02x?}");
            if !first { assert_eq!(d.exif_metadata().unwrap().as_deref(), Some(&b[..])); }
            let mut d = ImageReader::with_format(Cursor::new(&f), ImageFormat::Jpeg).into_decoder().unwrap();
            assert_eq!(d.orientation().unwrap(), want, "JPEG by ImageReader with {b:02x?}");
        }
        1 => {
            img.write_to(&mut o, ImageFormat::WebP).unwrap(); let w = o.into_inner();
            // RIFF size WEBP | VP8L ... -> VP8X header with the EXIF flag, then the image chunk, then the EXIF chunk
            let chunk = |id: &[u8; 4], d: &[u8]| { let mut v = id.to_vec(); v.extend((d.len() as u32).to_le_bytes()); v.extend(d); if d.len() % 2 == 1 { v.push(0); } v };
            let mut body = b"WEBP".to_vec(); body.extend(chunk(b"VP8X", &[8, 0, 0, 0, 1, 0, 0, 0, 0, 0])); 
            let l = u32::from_le_bytes(w[16..20].try_into().unwrap()) as usize; body.extend(chunk(b"VP8L", &w[20..20 + l])); body.extend(chunk(b"EXIF", &b));
            let f = chunk(b"RIFF", &body);
            let mut d = codecs::webp::WebPDecoder::new(Cursor::new(&f)).unwrap();
            assert_eq!(d.orientation().unwrap(), want, "WebP with {b:02x?}");
            assert_eq!(d.orientation().unwrap(), want);
            let mut d = ImageReader::with_format(Cursor::new(&f), ImageFormat::WebP).into_decoder().unwrap();
            assert_eq!(d.orientation().unwrap(), want, "WebP by ImageReader with {b:02x?}");
        }
        _ => {
            // minimal little-endian TIFF, 1x1 gray, with an orientation tag
            let v = if n.bool() { n.r32(0, 9) as u16 } else { n.u16() };
            let tags: [(u16, u16, u32, u32); 9] = [(256, 3, 1, 1), (257, 3, 1, 1), (258, 3, 1, 8), (259, 3, 1, 1), (262, 3, 1, 1), (273, 4, 1, 8), (274, 3, 1, v as u32), (278, 3, 1, 1), (279, 4, 1, 1)];
            let mut f = vec![0x49, 0x49, 42, 0, 10, 0, 0, 0, 9, 0]; f.extend(9u16.to_le_bytes());
            for (t, k, c, x) in tags { f.extend(t.to_le_bytes()); f.extend(k.to_le_bytes()); f.extend(c.to_le_bytes()); f.extend(x.to_le_bytes()); }
            f.extend([0; 4]);
            let want = if (1..=8).contains(&v) { Orientation::from_exif(v as u8).unwrap() } else { Orientation::NoTransforms };
            let mut d = codecs::tiff::TiffDecoder::new(Cursor::new(&f)).unwrap();
            assert_eq!(d.orientation().unwrap(), want, "TIFF with orientation tag {v}");
            let mut d = ImageReader::with_format(Cursor::new(&f), ImageFormat::Tiff).into_decoder().unwrap();
            assert_eq!(d.orientation().unwrap(), want, "TIFF by ImageReader with orientation tag {v}");
        }
    }
}
entries! {"C11";
    codes EnumFull "from_exif, to_exif: all 256 codes; boxed decoders",
    parsing Fuzz "orientation of metadata blobs of both byte orders, truncated, hostile offsets and counts, against an independent reader",
    decoders Fuzz "JPEG, WebP, TIFF carrying such metadata, directly and through ImageReader",
}
