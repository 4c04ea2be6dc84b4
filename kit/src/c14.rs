//! C14 TGA
use crate::nd::*;
use image::codecs::tga::*;
use image::*;
const CTS: [(ColorType, usize); 4] = [(ColorType::L8, 1), (ColorType::La8, 2), (ColorType::Rgb8, 3), (ColorType::Rgba8, 4)];

/// pixel data with runs and literals of the lengths that matter
fn runs<N: Nd>(n: &mut N, total: usize, ch: usize) -> Vec<u8> {
    let mut v = vec![]; let mut k = 0u8;
    while v.len() < total * ch {
        let len = match n.range(0, 9) { 0 => 127, 1 => 128, 2 => 129, 3 => n.range(1, 300), 4 => 1, 5 => 2, _ => n.range(1, 6) };
        let lit = n.bool();
        for _ in 0..len { if lit { k = k.wrapping_add(1); } for c in 0..ch { v.push(if c == ch - 1 || lit { k } else { 7 }); } }
        k = k.wrapping_add(1);
    }
    v.truncate(total * ch); v
}
/// write and read back; the file itself is checked against an independent decoder of the format
pub fn roundtrip<N: Nd>(n: &mut N) {
    let (ct, ch) = CTS[n.range(0, 3)];
    let (w, h) = match n.range(0, 4) { 0 => (n.range(1, 700), 1), 1 => (1, n.range(1, 300)), 2 => (n.range(120, 140), n.range(1, 3)), _ => (n.range(1, 20), n.range(1, 20)) };
    let data = runs(n, w * h, ch);
    let rle = n.range(0, 3) > 0;
    let mut f = wr(w * h);
    let e = TgaEncoder::new(&mut f); let e = if rle { e } else { e.disable_rle() };
    e.write_image(&data, w as u32, h as u32, ct.into()).unwrap(); let f = f.v;
    let what = format!("{ct:?} {w}x{h} rle={rle}");
    // header
    let hd = [0u8, 0, if ch < 3 { 3 } else { 2 } + if rle { 8 } else { 0 }, 0, 0, 0, 0, 0, 0, 0, 0, 0, w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8, ch as u8 * 8, if ch % 2 == 0 { 0x28 } else { 0x20 }];
    assert_eq!(&f[..18], &hd, "{what}: header");
    let mut px = vec![]; let mut p = 18;
    if rle {
        while p < f.len() {
            let c = (f[p] & 127) as usize + 1;
            if f[p] & 128 != 0 { for _ in 0..c { px.extend(&f[p + 1..p + 1 + ch]); } p += 1 + ch; } else { px.extend(&f[p + 1..p + 1 + ch * c]); p += 1 + ch * c; }
        }
    } else { px = f[18..].to_vec(); }
    if ch >= 3 { for q in px.chunks_mut(ch) { q.swap(0, 2); } }
    assert!(px == data, "{what}: packets expand to the image: {} bytes, expected {}, first difference {:?}", px.len(), data.len(), px.iter().zip(&data).position(|(a, b)| a != b));
    let d = TgaDecoder::new(rd(&f)).unwrap();
    assert_eq!((d.dimensions(), d.color_type()), ((w as u32, h as u32), ct), "{what}");
    let mut out = vec![0; data.len()]; d.read_image(&mut out).unwrap();
    assert!(out == data, "{what}: read back differs at {:?}", out.iter().zip(&data).position(|(a, b)| a != b));
    // any truncation is an error
    let cut = n.range(18, f.len() - 1);
    let r = catch(|| { let d = TgaDecoder::new(rd(&f[..cut])).unwrap(); let mut out = vec![0; data.len()]; d.read_image(&mut out).is_ok() }).unwrap_or_else(|| panic!("{what}: truncated to {cut}: panic"));
    assert!(!r, "{what}: accepted after truncation to {cut} of {} bytes", f.len());
}
/// any packet sequence, both row orders
pub fn packets<N: Nd>(n: &mut N) {
    let k = n.range(0, 3); let ch = k + 1;
    let (w, h) = (n.range(1, 30), n.range(1, 12));
    let need = w * h * ch;
    let top = n.bool();
    let mut f = vec![0u8, 0, if ch < 3 { 11 } else { 10 }, 0, 0, 0, 0, 0, 0, 0, 0, 0, w as u8, 0, h as u8, 0, ch as u8 * 8, (if ch % 2 == 0 { 8 } else { 0 }) | if top { 0x20 } else { 0 }];
    let mut px: Vec<u8> = vec![]; let mut ends = vec![];
    while px.len() < need {
        let c = match n.range(0, 3) { 0 => 128, 1 => n.range(1, 128), _ => n.range(1, 9) };
        if n.bool() { let q = n.bytes(ch); f.push(127 + c as u8); f.extend(&q); for _ in 0..c { px.extend(&q); } }
        else { let q = n.bytes(ch * c); f.push(c as u8 - 1); f.extend(&q); px.extend(&q); }
        ends.push((f.len(), px.len()));
    }
    let total = f.len();
    px.truncate(need);
    if ch >= 3 { for q in px.chunks_mut(ch) { q.swap(0, 2); } }
    let mut want = vec![];
    for y in 0..h { let s = if top { y } else { h - 1 - y }; want.extend(&px[s * w * ch..(s + 1) * w * ch]); }
    let what = format!("{ch}-channel {w}x{h} top={top} packets {:02x?}", &f[18..f.len().min(60)]);
    let read = |f: &[u8]| { let d = TgaDecoder::new(rd(f)).unwrap(); let mut out = vec![0; need]; d.read_image(&mut out).map(|_| out) };
    let out = catch(|| read(&f)).unwrap_or_else(|| panic!("{what}: panic")).unwrap();
    assert!(out == want, "{what}: differs at {:?}", out.iter().zip(&want).position(|(a, b)| a != b));
    // a file that ends before all pixels are there is an error
    let last = ends[ends.len() - 1].0; assert_eq!(last, total);
    let prev = if ends.len() > 1 { ends[ends.len() - 2] } else { (18, 0) };
    let is_run = f[prev.0] & 128 != 0;
    let enough = if is_run { last } else { prev.0 + 1 + (need - prev.1) };
    let cut = n.range(18, enough - 1);
    let r = catch(|| read(&f[..cut]).is_ok()).unwrap_or_else(|| panic!("{what}: truncated: panic"));
    assert!(!r, "{what}: accepted after truncation to {cut} of {total} bytes");
}
/// colour-mapped files: 8-bit indices, plain or in packets
pub fn mapped<N: Nd>(n: &mut N) {
    let es = n.range(3, 4); let len = match n.range(0, 3) { 0 => 256, 1 => n.range(1, 4), _ => n.range(1, 256) };
    let (w, h) = (n.range(1, 9), n.range(1, 6)); let (rle, top) = (n.bool(), n.bool()); let id = n.range(0, 3);
    let map = n.bytes(es * len);
    let idx: Vec<u8> = (0..w * h).map(|_| match n.range(0, 40) { 0 => n.u8(), _ => n.range(0, len - 1) as u8 }).collect();
    let mut f = vec![id as u8, 1, if rle { 9 } else { 1 }, 0, 0, len as u8, (len >> 8) as u8, es as u8 * 8, 0, 0, 0, 0, w as u8, 0, h as u8, 0, 8, if top { 0x20 } else { 0 }];
    f.extend(n.bytes(id)); f.extend(&map); let start = f.len();
    if rle { for c in idx.chunks(5) { if n.bool() { f.push(c.len() as u8 - 1); f.extend(c); } else { for &b in c { f.extend([128, b]); } } } } else { f.extend(&idx); }
    let bad = idx.iter().any(|&i| i as usize >= len);
    let mut want = vec![];
    if !bad { for y in 0..h { let s = if top { y } else { h - 1 - y }; for x in 0..w { let i = idx[s * w + x] as usize; let mut p = map[i * es..(i + 1) * es].to_vec(); p.swap(0, 2); want.extend(p); } } }
    let what = format!("{w}x{h} with a map of {len} entries of {es} bytes, rle={rle} top={top}");
    let read = |f: &[u8]| -> ImageResult<Vec<u8>> { let d = TgaDecoder::new(rd(f))?; assert_eq!((d.dimensions(), d.color_type()), ((w as u32, h as u32), if es == 3 { ColorType::Rgb8 } else { ColorType::Rgba8 }), "{what}"); let mut out = vec![0; w * h * es]; d.read_image(&mut out).map(|_| out) };
    match catch(|| read(&f)).unwrap_or_else(|| panic!("{what}: panic")) { Ok(o) => { assert!(!bad, "{what}: an index outside the map was accepted"); assert!(o == want, "{what}: differs at {:?}", o.iter().zip(&want).position(|(a, b)| a != b)); } Err(e) => assert!(bad, "{what}: {e}") }
    let cut = n.range(0, if rle { start } else { f.len() - 1 });
    assert!(!catch(|| read(&f[..cut]).is_ok()).unwrap_or_else(|| panic!("{what}: truncated to {cut}: panic")), "{what}: accepted after truncation to {cut} of {}", f.len());
}
/// image sizes the format cannot hold are refused
pub fn sizes<N: Nd>(n: &mut N) {
    let (w, h) = match n.range(0, 3) { 0 => (65536, 0), 1 => (0, 65536), 2 => (65535, 1), _ => (65536, 1) };
    let data = vec![5u8; w * h];
    let mut f = vec![];
    let r = TgaEncoder::new(&mut f).write_image(&data, w as u32, h as u32, ExtendedColorType::L8);
    assert_eq!(r.is_ok(), w < 65536 && h < 65536, "TGA {w}x{h}");
    if w * h > 0 && w < 65536 { let d = ImageReader::with_format(rd(&f), ImageFormat::Tga).decode().unwrap(); assert_eq!((d.width(), d.height(), d.as_bytes()), (w as u32, h as u32, &data[..])); }
}
entries! { "C14";
    roundtrip Fuzz "four colour types, runs and literals around 127/128/129, up to 700 pixels; packets checked by an independent expander; truncations",
    packets Fuzz "any packet sequence on up to 30x12 pixels, four layouts, both row orders; truncations",
    mapped Fuzz "colour-mapped files with up to 256 entries, plain and run-length coded, indices outside the map, truncations",
    sizes EnumFull "sizes around the 16-bit limit",
}
