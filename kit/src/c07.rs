//! C07 resource limits
use crate::img::*;
use crate::nd::*;
use image::*;
use std::io::Cursor;
pub const CT: [ColorType; 10] = [ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8, ColorType::L16, ColorType::La16, ColorType::Rgb16, ColorType::Rgba16, ColorType::Rgb32F, ColorType::Rgba32F];
pub const BPP: [u128; 10] = [1, 2, 3, 4, 2, 4, 6, 8, 12, 16];
fn lim(w: Option<u32>, h: Option<u32>, a: Option<u64>) -> Limits { let mut l = Limits::no_limits(); l.max_image_width = w; l.max_image_height = h; l.max_alloc = a; l }
fn o32<N: Nd>(n: &mut N, near: u32) -> Option<u32> { match n.range(0, 4) { 0 => None, 1 => Some(near), 2 => Some(near.wrapping_sub(1)), 3 => Some(near.wrapping_add(1)), _ => Some(n.u32()) } }

/// reserve, reserve_usize, reserve_buffer, free, check_dimensions over all values
pub fn arithmetic<N: Nd>(n: &mut N) {
    assert_eq!(Limits::no_limits(), lim(None, None, None));
    assert_eq!(Limits::default(), lim(None, None, Some(512 << 20)));
    let (w, h) = (n.u32(), n.u32());
    let (mw, mh) = (o32(n, w), o32(n, h));
    let fit = mw.map_or(true, |m| w <= m) && mh.map_or(true, |m| h <= m);
    let k = n.range(0, 9);
    let need = (w as u128 * h as u128 * BPP[k]).min(u64::MAX as u128) as u64;
    let budget = match n.range(0, 5) { 0 => None, 1 => Some(need), 2 => Some(need.wrapping_sub(1)), 3 => Some(need.wrapping_add(1)), _ => Some(n.u64()) };
    let l = lim(mw, mh, budget);
    let what = format!("limits {mw:?}x{mh:?} {budget:?}");
    assert_eq!(l.check_dimensions(w, h).is_ok(), fit, "{what}: check_dimensions({w},{h})");
    assert!(l.check_support(&Default::default()).is_ok());
    let mut m = l.clone();
    let r = m.reserve_buffer(w, h, CT[k]);
    let ok = fit && budget.map_or(true, |b| need <= b);
    assert_eq!(r.is_ok(), ok, "{what}: reserve_buffer({w},{h},{:?})", CT[k]);
    assert_eq!(m, lim(mw, mh, if ok { budget.map(|b| b - need) } else { budget }), "{what}: after reserve_buffer({w},{h},{:?})", CT[k]);
    if let Err(e) = r { assert!(matches!(e, ImageError::Limits(_))); }
    let a = match n.range(0, 4) { 0 => budget.unwrap_or(7), 1 => budget.unwrap_or(0).wrapping_add(1), 2 => budget.unwrap_or(0).wrapping_sub(1), _ => n.u64() };
    let ok = budget.map_or(true, |b| a <= b);
    for us in [false, true] {
        let mut m = l.clone();
        let r = if us { m.reserve_usize(a as usize) } else { m.reserve(a) };
        assert_eq!(r.is_ok(), ok, "{what}: reserve({a})");
        assert_eq!(m, lim(mw, mh, if ok { budget.map(|b| b - a) } else { budget }), "{what}: after reserve({a})");
        let mut f = l.clone();
        if us { f.free_usize(a as usize) } else { f.free(a) }
        assert_eq!(f, lim(mw, mh, budget.map(|b| (b as u128 + a as u128).min(u64::MAX as u128) as u64)), "{what}: after free({a})");
        if ok { if us { m.free_usize(a as usize) } else { m.free(a) } assert_eq!(m, l, "{what}: free after reserve({a})"); }
    }
}
/// any sequence of reservations and releases keeps the budget equal to budget - reserved
pub fn histories<N: Nd>(n: &mut N) {
    let b = n.u64(); let mut l = lim(None, None, Some(b));
    let mut out: Vec<u64> = vec![];
    for _ in 0..n.range(0, 8) {
        if n.bool() { let a = n.u64(); let left = b - out.iter().sum::<u64>(); let r = l.reserve(a).is_ok(); assert_eq!(r, a <= left, "reserve({a}) with {left} of {b} left"); if r { out.push(a); } }
        else if !out.is_empty() { let i = n.range(0, out.len() - 1); l.free(out.remove(i)); }
        assert_eq!(l.max_alloc, Some(b - out.iter().sum::<u64>()), "remaining budget");
    }
}
struct Mock(u32, u32, ColorType);
impl ImageDecoder for Mock {
    fn dimensions(&self) -> (u32, u32) { (self.0, self.1) }
    fn color_type(&self) -> ColorType { self.2 }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> { for (i, b) in buf.iter_mut().enumerate() { *b = i as u8; } Ok(()) }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> { (*self).read_image(buf) }
}
/// byte counts and default limit checks of a decoder of any announced size
pub fn decoder_sizes<N: Nd>(n: &mut N) {
    let (w, h, k) = (n.u32(), n.u32(), n.range(0, 9));
    let mut m = Mock(w, h, CT[k]);
    let need = (w as u128 * h as u128 * BPP[k]).min(u64::MAX as u128) as u64;
    assert_eq!(m.total_bytes(), need, "total_bytes of {w}x{h} {:?}", CT[k]);
    let (mw, mh) = (o32(n, w), o32(n, h));
    let fit = mw.map_or(true, |m| w <= m) && mh.map_or(true, |m| h <= m);
    assert_eq!(m.set_limits(lim(mw, mh, None)).is_ok(), fit, "set_limits {mw:?}x{mh:?} on {w}x{h}");
    let mut b: Box<dyn ImageDecoder> = Box::new(m);
    assert_eq!((b.total_bytes(), b.dimensions(), b.color_type()), (need, (w, h), CT[k]));
    assert_eq!(b.set_limits(lim(mw, mh, None)).is_ok(), fit);
    assert_eq!((CT[k].bytes_per_pixel() as u128, CT[k].bits_per_pixel() as u128), (BPP[k], BPP[k] * 8));
    if need > isize::MAX as u64 { assert!(matches!(DynamicImage::from_decoder(Mock(w, h, CT[k])), Err(ImageError::Limits(_))), "from_decoder of {w}x{h}"); }
    else if need < 1 << 16 { let d = DynamicImage::from_decoder(Mock(w, h, CT[k])).unwrap(); assert_eq!((d.width(), d.height(), d.color(), d.as_bytes().len() as u64), (w, h, CT[k], need)); }
}
pub const FORMATS: [ImageFormat; 12] = [ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::Gif, ImageFormat::WebP, ImageFormat::Pnm, ImageFormat::Tiff, ImageFormat::Tga, ImageFormat::Bmp, ImageFormat::Ico, ImageFormat::Hdr, ImageFormat::Farbfeld, ImageFormat::Qoi];
pub fn encoded<N: Nd>(f: ImageFormat, w: u32, h: u32, _n: &mut N) -> Vec<u8> {
    let k = match f { ImageFormat::Farbfeld => 7, ImageFormat::Hdr => 8, ImageFormat::Gif | ImageFormat::Ico | ImageFormat::Qoi => 3, _ => 2 };
    let d = dyn_of_kind(k, w, h, &mut |i| (i as u32).wrapping_mul(7));
    let mut o = Cursor::new(vec![]); d.write_to(&mut o, f).unwrap(); o.into_inner()
}
/// real decoders: refused exactly when a dimension limit is exceeded, always when the output exceeds the memory limit
pub fn decoders<N: Nd>(n: &mut N) {
    let f = FORMATS[n.range(0, 11)];
    let (w, h) = (n.r32(1, 9), n.r32(1, 9));
    let data = encoded(f, w, h, n);
    let o = |k: u32, v: u32| match k { 0 => None, k => Some((v + k).saturating_sub(2)) };
    let (mw, mh) = (o(n.r32(0, 4), w), o(n.r32(0, 4), h));
    let fit = mw.map_or(true, |m| w <= m) && mh.map_or(true, |m| h <= m);
    let what = format!("{f:?} {w}x{h} with limits {mw:?}x{mh:?}");
    let mut r = ImageReader::with_format(Cursor::new(&data), f); r.limits(lim(mw, mh, None));
    let x = r.decode();
    match &x { Ok(d) => { assert!(fit, "{what}: decoded"); assert_eq!((d.width(), d.height()), (w, h)); } Err(e) => { assert!(!fit, "{what}: refused: {e}"); assert!(matches!(e, ImageError::Limits(_)), "{what}: {e}"); } }
    let mut r = ImageReader::with_format(Cursor::new(&data), f); r.limits(lim(mw, mh, None));
    assert_eq!(r.into_dimensions().ok(), if fit { Some((w, h)) } else { None }, "{what}: into_dimensions");
    let mut r = ImageReader::with_format(Cursor::new(&data), f); r.limits(lim(mw, mh, None));
    let dec = r.into_decoder();
    match dec { Err(_) => assert!(!fit, "{what}: into_decoder"), Ok(d) => { assert!(fit, "{what}: into_decoder"); assert_eq!(d.dimensions(), (w, h));
        let total = d.total_bytes(); assert_eq!(total, w as u64 * h as u64 * d.color_type().bytes_per_pixel() as u64);
        // memory
        let a = match n.range(0, 2) { 0 => total - 1, 1 => n.raw(0, total - 1), _ => 1 << 26 };
        let mut r = ImageReader::with_format(Cursor::new(&data), f); r.limits(lim(mw, mh, Some(a)));
        match r.decode() { Ok(_) => assert!(a >= total, "{what}: {total} bytes decoded with a budget of {a}"), Err(e) => { assert!(a < total, "{what}: refused with a budget of {a} for {total} bytes: {e}"); assert!(matches!(e, ImageError::Limits(_)), "{what}: {e}"); } }
    } }
}
/// animation decoders check each frame against the limits
pub fn animations<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 8), n.r32(1, 8));
    let mut out = vec![];
    { let mut e = codecs::gif::GifEncoder::new(&mut out); for k in 0..2u8 { e.encode_frame(Frame::new(ImageBuffer::from_fn(w, h, |x, y| Rgba([x as u8 * 9, y as u8, k, 255])))).unwrap(); } }
    let total = w as u64 * h as u64 * 4;
    let a = match n.range(0, 3) { 0 => total - 1, 1 => n.raw(0, total - 1), 2 => total * 8 + 4096, _ => u64::MAX };
    let mut d = codecs::gif::GifDecoder::new(Cursor::new(&out)).unwrap();
    d.set_limits(lim(Some(w), Some(h), Some(a))).unwrap();
    let r = d.into_frames().collect_frames();
    if a < total { assert!(matches!(r, Err(ImageError::Limits(_))), "gif {w}x{h}: frames of {total} bytes with a budget of {a}"); } else { assert_eq!(r.unwrap().len(), 2, "gif {w}x{h} with a budget of {a}"); }
    let mut d = codecs::gif::GifDecoder::new(Cursor::new(&out)).unwrap();
    assert!(d.set_limits(lim(Some(w - 1), None, None)).is_err() && d.set_limits(lim(None, Some(h - 1), None)).is_err());
}
/// names and sizes of the colour types
pub fn tables<N: Nd>(n: &mut N) {
    let _ = n.bool();
    use ExtendedColorType as E;
    let ext: [(E, u16, u8); 26] = [(E::A8, 8, 1), (E::L1, 1, 1), (E::La1, 2, 2), (E::Rgb1, 3, 3), (E::Rgba1, 4, 4), (E::L2, 2, 1), (E::La2, 4, 2), (E::Rgb2, 6, 3), (E::Rgba2, 8, 4), (E::L4, 4, 1), (E::La4, 8, 2), (E::Rgb4, 12, 3), (E::Rgba4, 16, 4),
        (E::L8, 8, 1), (E::La8, 16, 2), (E::Rgb8, 24, 3), (E::Rgba8, 32, 4), (E::L16, 16, 1), (E::La16, 32, 2), (E::Rgb16, 48, 3), (E::Rgba16, 64, 4), (E::Bgr8, 24, 3), (E::Bgra8, 32, 4), (E::Rgb32F, 96, 3), (E::Rgba32F, 128, 4), (E::Cmyk8, 32, 4)];
    for (e, bits, ch) in ext { assert_eq!((e.bits_per_pixel(), e.channel_count()), (bits, ch), "size of {e:?}"); }
    use ColorType as C;
    let col: [(C, E, u8, u8, bool, bool); 10] = [(C::L8, E::L8, 1, 1, false, false), (C::La8, E::La8, 2, 2, true, false), (C::Rgb8, E::Rgb8, 3, 3, false, true), (C::Rgba8, E::Rgba8, 4, 4, true, true), (C::L16, E::L16, 2, 1, false, false), (C::La16, E::La16, 4, 2, true, false),
        (C::Rgb16, E::Rgb16, 6, 3, false, true), (C::Rgba16, E::Rgba16, 8, 4, true, true), (C::Rgb32F, E::Rgb32F, 12, 3, false, true), (C::Rgba32F, E::Rgba32F, 16, 4, true, true)];
    for (c, e, b, ch, a, k) in col { assert_eq!((c.bytes_per_pixel(), c.bits_per_pixel(), c.channel_count(), c.has_alpha(), c.has_color(), ExtendedColorType::from(c)), (b, b as u16 * 8, ch, a, k, e), "size of {c:?}"); }
}
entries! {"C07";
    arithmetic Fuzz "Limits: check_dimensions, reserve*, free*: all values",
    histories Fuzz "sequences of up to 8 reservations and releases",
    tables EnumFull "bits, bytes, channels, alpha and colour of all colour types",
    decoder_sizes Fuzz "total_bytes, default set_limits, from_decoder: all announced sizes and colour types",
    decoders Fuzz "12 formats, images up to 9x9, limits around the size",
    animations Fuzz "GIF frames up to 8x8 against memory limits",
}
