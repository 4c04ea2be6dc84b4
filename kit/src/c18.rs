//! C18 farbfeld, packed samples
use crate::nd::*;
use image::codecs::farbfeld::*;
use image::*;
use std::io::Read;
pub fn farbfeld<N: Nd>(n: &mut N) {
    let (w, h) = if n.range(0, 3) == 0 { let z = n.bool(); let k = n.r32(0, 40); if z { (k, 1) } else { (1, k) } } else { (n.r32(0, 7), n.r32(0, 7)) };
    let s: Vec<u16> = (0..w * h * 4).map(|_| n.u16()).collect();
    let bytes: Vec<u8> = s.iter().flat_map(|v| v.to_ne_bytes()).collect();
    let mut f = wr((w * h) as usize);
    if n.bool() { FarbfeldEncoder::new(&mut f).encode(&bytes, w, h).unwrap(); } else { FarbfeldEncoder::new(&mut f).write_image(&bytes, w, h, ExtendedColorType::Rgba16).unwrap(); }
    let f = f.v; let mut want = b"farbfeld".to_vec(); want.extend(w.to_be_bytes()); want.extend(h.to_be_bytes()); want.extend(s.iter().flat_map(|v| v.to_be_bytes()));
    assert!(f == want, "farbfeld {w}x{h}: file {:02x?}.. expected {:02x?}..", &f[..f.len().min(40)], &want[..want.len().min(40)]);
    let d = FarbfeldDecoder::new(rd(&f)).unwrap();
    assert_eq!((d.dimensions(), d.color_type()), ((w, h), ColorType::Rgba16));
    let mut out = vec![0; bytes.len()]; d.read_image(&mut out).unwrap();
    assert!(out == bytes, "farbfeld {w}x{h}: samples differ at byte {:?}", out.iter().zip(&bytes).position(|(a, b)| a != b));
    struct Slow<'a>(&'a [u8], usize);
    impl Read for Slow<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let k = self.1.min(b.len()); self.0.read(&mut b[..k]) } }
    let d = FarbfeldDecoder::new(Slow(&f, n.range(1, 5))).unwrap(); out.fill(0); d.read_image(&mut out).unwrap(); assert!(out == bytes, "farbfeld {w}x{h} from a reader that returns few bytes");
    let cut = n.range(0, f.len() - 1);
    let r = catch(|| match FarbfeldDecoder::new(rd(&f[..cut])) { Err(_) => false, Ok(d) => d.read_image(&mut out).is_ok() }).expect("truncated farbfeld: panic");
    assert!(!r, "farbfeld {w}x{h} accepted after truncation to {cut} bytes");
    let ct = [ExtendedColorType::L8, ExtendedColorType::Rgb16, ExtendedColorType::Rgba8, ExtendedColorType::La16][n.range(0, 3)];
    let b = vec![0; (w * h) as usize * ct.bits_per_pixel() as usize / 8]; let mut f = vec![]; assert!(FarbfeldEncoder::new(&mut f).write_image(&b, w, h, ct).is_err());
}
/// announced sizes and magics
pub fn headers<N: Nd>(n: &mut N) {
    let (w, h) = (n.u32(), n.u32()); let mut f = b"farbfeld".to_vec(); f.extend(w.to_be_bytes()); f.extend(h.to_be_bytes());
    let big = w as u128 * h as u128 * 8 > u64::MAX as u128;
    match catch(|| FarbfeldDecoder::new(rd(&f)).map(|d| (d.dimensions(), d.total_bytes()))).unwrap_or_else(|| panic!("farbfeld {w}x{h}: panic")) {
        Ok(d) => { assert!(!big); assert_eq!(d, ((w, h), w as u64 * h as u64 * 8)); } Err(_) => assert!(big, "farbfeld {w}x{h} refused") }
    let i = n.range(0, 7); f[i] ^= 1 << n.range(0, 7); assert!(FarbfeldDecoder::new(rd(&f)).is_err());
}
#[cfg(has_utils)]
pub fn expand<N: Nd>(n: &mut N) {
    let bits = [1usize, 2, 4][n.range(0, 2)]; let (w, h) = (n.range(1, 40), n.range(0, 4));
    let pitch = (w * bits + 7) / 8; let b = n.bytes(pitch * h);
    let got = crate::ext::utils::expand_bits(bits as u8, w as u32, &b);
    let mut want = vec![];
    for y in 0..h { for x in 0..w { let mut v = 0u32; for k in 0..bits { let p = x * bits + k; v = 2 * v + (b[y * pitch + p / 8] >> (7 - p % 8) & 1) as u32; } want.push((v * 255 / ((1 << bits) - 1)) as u8); } }
    assert!(got == want, "expand_bits({bits}, {w}, {b:02x?}) = {got:02x?}, expected {want:02x?}");
}
#[cfg(not(has_utils))]
pub fn expand<N: Nd>(n: &mut N) { n.assume(false) }
/// bitmaps of one bit per pixel, through the PNM decoder and encoder
pub fn bitmaps<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 40), n.r32(1, 4)); let pitch = (w as usize + 7) / 8;
    let b = n.bytes(pitch * h as usize);
    let mut f = format!("P4\n{w} {h}\n").into_bytes(); f.extend(&b);
    let d = ImageReader::with_format(rd(&f), ImageFormat::Pnm).decode().unwrap();
    assert_eq!((d.width(), d.height(), d.color()), (w, h, ColorType::L8));
    for y in 0..h { for x in 0..w { let bit = b[y as usize * pitch + x as usize / 8] >> (7 - x % 8) & 1; assert_eq!(d.as_bytes()[(y * w + x) as usize], if bit == 1 { 0 } else { 255 }, "bitmap {w}x{h} pixel ({x},{y})"); } }
    let mut o = wr((w + h) as usize);
    let s: Vec<u8> = d.as_bytes().iter().map(|&v| v & 1).collect();
    codecs::pnm::PnmEncoder::new(&mut o).with_subtype(codecs::pnm::PnmSubtype::Bitmap(codecs::pnm::SampleEncoding::Binary)).encode(&s[..], w, h, ExtendedColorType::L8).unwrap();
    let o = o.v; let d2 = ImageReader::with_format(rd(&o), ImageFormat::Pnm).decode().unwrap();
    assert_eq!(d2.as_bytes(), d.as_bytes(), "bitmap {w}x{h} written and read back");
}
/// palette indices expanded to colours
pub fn palette<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 6), n.r32(0, 4)); let k = n.range(1, 256);
    let pal: Vec<(u8, u8, u8)> = (0..k).map(|i| (i as u8, (i * 3) as u8, 255 - i as u8)).collect();
    let ix: Vec<u8> = (0..w * h).map(|_| n.range(0, k - 1) as u8).collect();
    let t = if n.bool() { Some(n.range(0, k - 1) as u8) } else { None };
    let g = GrayImage::from_raw(w, h, ix.clone()).unwrap();
    let out = g.expand_palette(&pal, t);
    assert_eq!(out.dimensions(), (w, h));
    for (i, p) in out.pixels().enumerate() { let c = pal[ix[i] as usize]; assert_eq!(p.0, [c.0, c.1, c.2, if Some(ix[i]) == t { 0 } else { 255 }], "palette index {} at pixel {i} of {w}x{h}", ix[i]); }
}
entries! { "C18";
    farbfeld Fuzz "up to 7x7 and 40x1 pixels: file bytes, read back, slow readers, truncations, other colour types",
    headers Fuzz "any announced size, wrong magics",
    expand Fuzz "1-, 2- and 4-bit samples, rows up to 40, any content",
    bitmaps Fuzz "PBM up to 40x4",
    palette Fuzz "palettes up to 256 entries, images up to 6x4",
}
