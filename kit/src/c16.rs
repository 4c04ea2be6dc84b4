//! C16 BMP
use crate::nd::*;
use image::codecs::bmp::*;
use image::*;
use std::io::{Cursor, Write};
fn le32(b: &[u8], o: usize) -> u32 { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) }
fn le16(b: &[u8], o: usize) -> u32 { u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as u32 }

/// files written by the library, checked field by field and read back
pub fn written<N: Nd>(n: &mut N) {
    let (w, h) = match n.range(0, 5) { 0 => (n.range(1, 300), 1), 1 => (1, n.range(1, 60)), _ => (n.range(1, 17), n.range(1, 9)) };
    let (ct, ch, out_px) = [(ExtendedColorType::L8, 1, 1), (ExtendedColorType::La8, 2, 1), (ExtendedColorType::Rgb8, 3, 3), (ExtendedColorType::Rgba8, 4, 4)][n.range(0, 3)];
    let data: Vec<u8> = if w * h < 40 { n.bytes(w * h * ch) } else { let k = n.u8(); (0..w * h * ch).map(|i| (i as u8).wrapping_mul(k | 1).wrapping_add((i >> 8) as u8)).collect() };
    let pal: Option<Vec<[u8; 3]>> = if ch <= 2 && n.bool() { let k = n.range(1, 256); Some((0..k).map(|i| [i as u8 ^ 0x55, (i * 3) as u8, (i * 7) as u8]).collect()) } else { None };
    let mut f = wr(w * h);
    BmpEncoder::new(&mut f).encode_with_palette(&data, w as u32, h as u32, ct, pal.as_deref()).unwrap(); let f = f.v;
    let what = format!("{ct:?} {w}x{h} palette {:?}", pal.as_ref().map(|p| p.len()));
    let colors = if ch <= 2 { pal.as_ref().map_or(256, |p| p.len()) } else { 0 };
    let dib = if ch == 4 { 108 } else { 40 };
    let pitch = (w * out_px + 3) / 4 * 4;
    let off = 14 + dib + 4 * colors;
    assert_eq!(&f[..2], b"BM");
    assert_eq!((le32(&f, 2) as usize, f.len()), (off + pitch * h, off + pitch * h), "{what}: file size field and file size");
    assert_eq!((le32(&f, 6), le32(&f, 10) as usize, le32(&f, 14) as usize), (0, off, dib), "{what}: offsets");
    assert_eq!((le32(&f, 18) as usize, le32(&f, 22) as usize, le16(&f, 26), le16(&f, 28) as usize), (w, h, 1, out_px * 8), "{what}: size, planes, depth");
    assert_eq!((le32(&f, 30), le32(&f, 34) as usize, le32(&f, 46) as usize), (if ch == 4 { 3 } else { 0 }, pitch * h, colors), "{what}: compression, image size, colours");
    if ch == 4 { assert_eq!([le32(&f, 54), le32(&f, 58), le32(&f, 62), le32(&f, 66)], [0xff0000, 0xff00, 0xff, 0xff000000], "{what}: masks"); }
    let color = |i: u8| -> [u8; 3] { match &pal { None => [i; 3], Some(p) => p.get(i as usize).copied().unwrap_or([0; 3]) } };
    for i in 0..colors { let c = color(i as u8); assert_eq!(&f[14 + dib + 4 * i..][..4], &[c[2], c[1], c[0], 0], "{what}: palette entry {i}"); }
    for y in 0..h {
        let row = &f[off + (h - 1 - y) * pitch..][..pitch];
        for x in 0..w {
            let p = &data[(y * w + x) * ch..][..ch];
            let want: Vec<u8> = match ch { 1 | 2 => vec![p[0]], 3 => vec![p[2], p[1], p[0]], _ => vec![p[2], p[1], p[0], p[3]] };
            assert_eq!(&row[x * out_px..][..out_px], &want[..], "{what}: pixel ({x},{y}) in the file");
        }
        assert!(row[w * out_px..].iter().all(|&b| b == 0), "{what}: padding of row {y}");
    }
    let d = BmpDecoder::new(rd(&f)).unwrap();
    let oc = if ch == 4 { 4 } else { 3 };
    assert_eq!((d.dimensions(), d.color_type()), ((w as u32, h as u32), if ch == 4 { ColorType::Rgba8 } else { ColorType::Rgb8 }), "{what}");
    let mut out = vec![0xCC; w * h * oc]; d.read_image(&mut out).unwrap();
    for i in 0..w * h {
        let p = &data[i * ch..][..ch];
        let want: Vec<u8> = if ch <= 2 { color(p[0]).to_vec() } else { p.to_vec() };
        assert_eq!(&out[i * oc..][..oc], &want[..], "{what}: pixel ({},{}) read back", i % w, i / w);
    }
}
/// sizes that do not fit the 32-bit header fields are refused, the others are exact
struct Header(Vec<u8>);
impl Write for Header { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0.len() >= 54 { return Err(std::io::ErrorKind::Other.into()); } self.0.extend(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
pub fn sizes<N: Nd>(n: &mut N) {
    let (ct, ch, px, extra) = [(ExtendedColorType::L8, 1u64, 1u64, 14 + 40 + 1024), (ExtendedColorType::Rgb8, 3, 3, 54), (ExtendedColorType::Rgba8, 4, 4, 122)][n.range(0, 2)];
    let (w, h) = [(1u64, 1 << 30), ((1 << 28) + 1, 3), (1, 1 << 31), (5, 5 << 27), (4, (1 << 30) - 300), (4, (1 << 30) - 200), (1 << 16, 1 << 13), (0xffff_ffff, 1)][n.range(0, 7)];
    n.assume(w * h * ch <= 5 << 30);
    let data = vec![0u8; (w * h * ch) as usize];
    let mut o = Header(vec![]);
    let r = catch(|| BmpEncoder::new(&mut o).encode(&data, w as u32, h as u32, ct));
    let total = ((w * px + 3) / 4 * 4) * h;
    let r = r.unwrap_or_else(|| panic!("BMP {ct:?} {w}x{h}: panic"));
    assert!(r.is_err());
    if total + extra > u32::MAX as u64 { assert!(o.0.is_empty(), "BMP {ct:?} {w}x{h}: started to write a file of {} bytes", total + extra); }
    else { assert_eq!((le32(&o.0, 2) as u64, le32(&o.0, 34) as u64), (total + extra, total), "BMP {ct:?} {w}x{h}: sizes"); }
}
fn widen(v: u32, len: u32) -> u8 { if len == 0 { 255 } else if len > 8 { (v >> (len - 8)) as u8 } else { let m = (1u32 << len) - 1; ((v * 510 + m) / (2 * m)) as u8 } }
fn dib(kind: u32, w: u32, h: i32, bits: u16, comp: u32, colors: u32, masks: &[u32; 4]) -> Vec<u8> {
    let mut o = vec![]; o.extend(kind.to_le_bytes());
    if kind == 12 { o.extend((w as u16).to_le_bytes()); o.extend((h as u16).to_le_bytes()); o.extend([1, 0]); o.extend(bits.to_le_bytes()); return o; }
    o.extend(w.to_le_bytes()); o.extend(h.to_le_bytes()); o.extend([1, 0]); o.extend(bits.to_le_bytes()); o.extend(comp.to_le_bytes());
    for v in [0, 0, 0, colors, 0] { o.extend(u32::to_le_bytes(v)); }
    if kind > 40 || comp == 3 { for m in &masks[..if kind == 40 || kind == 52 { 3 } else { 4 }] { o.extend(m.to_le_bytes()); } }
    while o.len() < kind as usize { o.push(0); }
    o
}
/// any contiguous bit fields, any width and position
pub fn bitfields<N: Nd>(n: &mut N) {
    let bits = if n.bool() { 32u32 } else { 16 };
    let kind = [40u32, 52, 56, 108, 124][n.range(0, 4)];
    let with_alpha = kind >= 56;
    let mut masks = [0u32; 4]; let mut fields = [(0u32, 0u32); 4];
    for i in 0..4 {
        if i == 3 && (!with_alpha || n.bool()) { continue; }
        let len = n.r32(1, bits); let shift = n.r32(0, bits - len);
        fields[i] = (shift, len); masks[i] = (((1u64 << len) - 1) as u32) << shift;
    }
    if bits == 32 && n.range(0, 3) == 0 { // the layouts with fast paths, and near misses
        let l = [[16u32, 8, 0, 24], [24, 16, 8, 0], [0, 8, 16, 24], [8, 16, 24, 0]][n.range(0, 3)];
        for i in 0..4 { if i < 3 || (with_alpha && n.bool()) { fields[i] = (l[i], 8); masks[i] = 0xff << l[i]; } else { fields[i] = (0, 0); masks[i] = 0; } }
    }
    let (w, h) = (n.r32(1, 4), n.r32(1, 3)); let top = n.bool();
    let mut d = dib(kind, w, if top { -(h as i32) } else { h as i32 }, bits as u16, 3, 0, &masks);
    let off = 14 + d.len() as u32 + n.r32(0, 3);
    let mut f = b"BM".to_vec(); f.extend([0; 8]); f.extend(off.to_le_bytes()); f.append(&mut d);
    while f.len() < off as usize { f.push(0x77); }
    let bpp = bits as usize / 8; let pitch = (w as usize * bpp + 3) / 4 * 4;
    let px: Vec<u32> = (0..w * h).map(|_| if bits == 32 { n.u32() } else { n.u16() as u32 }).collect();
    for y in 0..h { let sy = if top { y } else { h - 1 - y }; let s = f.len(); for x in 0..w { f.extend(&px[(sy * w + x) as usize].to_le_bytes()[..bpp]); } while f.len() < s + pitch { f.push(0x99); } }
    let what = format!("{bits}-bit fields r{:?} g{:?} b{:?} a{:?} header {kind} {w}x{h} top-down {top}", fields[0], fields[1], fields[2], fields[3]);
    let dec = catch(|| BmpDecoder::new(rd(&f))).unwrap_or_else(|| panic!("{what}: panic")).unwrap_or_else(|e| panic!("{what}: refused: {e}"));
    let oc = if masks[3] != 0 { 4 } else { 3 };
    assert_eq!((dec.dimensions(), dec.color_type()), ((w, h), if oc == 4 { ColorType::Rgba8 } else { ColorType::Rgb8 }), "{what}");
    let mut out = vec![0; px.len() * oc];
    catch(|| dec.read_image(&mut out)).unwrap_or_else(|| panic!("{what}: panic")).unwrap_or_else(|e| panic!("{what}: {e}"));
    for i in 0..px.len() { for c in 0..oc {
        let (s, l) = fields[c]; let v = ((px[i] >> s) as u64 & ((1u64 << l) - 1)) as u32;
        assert_eq!(out[i * oc + c], widen(v, l), "{what}: pixel {i} value {:#x} channel {c}", px[i]);
    } }
}
/// masks that are not contiguous, leave the pixel or are missing are refused
pub fn bad_masks<N: Nd>(n: &mut N) {
    let bits = if n.bool() { 32u32 } else { 16 };
    let mut masks = [0x7c00, 0x3e0, 0x1f, 0];
    let i = n.range(0, 3); masks[i] = match n.range(0, 2) { 0 => n.u32(), 1 => 1 << n.r32(0, 31) | 1 << n.r32(0, 31), _ => 0 };
    let m = masks[i];
    let contiguous = m != 0 && { let s = m >> m.trailing_zeros(); s & s.wrapping_add(1) == 0 };
    let ok = if m == 0 { i == 3 } else { contiguous && 32 - m.leading_zeros() <= bits };
    let mut d = dib(56, 1, 1, bits as u16, 3, 0, &masks);
    let mut f = b"BM".to_vec(); f.extend([0; 8]); f.extend((14 + d.len() as u32).to_le_bytes()); f.append(&mut d); f.extend([0; 4]);
    let r = catch(|| BmpDecoder::new(rd(&f)).is_ok()).unwrap_or_else(|| panic!("masks {masks:x?}: panic"));
    assert_eq!(r, ok, "{bits}-bit masks {masks:x?}");
}
/// uncompressed layouts: every depth, header, row order
pub fn plain<N: Nd>(n: &mut N) {
    let kind = [12u32, 40, 52, 56, 108, 124][n.range(0, 5)];
    let bits = if kind == 12 { [1u16, 4, 8, 24][n.range(0, 3)] } else { [1u16, 2, 4, 8, 16, 24, 32][n.range(0, 6)] };
    let (w, h) = (n.r32(1, 19), n.r32(1, 5)); let top = kind != 12 && n.bool();
    let pal_len = if bits <= 8 { if kind == 12 || n.bool() { 1u32 << bits } else { n.r32(1, 1 << bits) } } else { 0 };
    let full = bits <= 8 && pal_len == 1 << bits;
    let mut d = dib(kind, w, if top { -(h as i32) } else { h as i32 }, bits, 0, if full && n.bool() { 0 } else { pal_len }, &[0; 4]);
    let pal: Vec<[u8; 3]> = (0..pal_len).map(|i| [(i * 5 + 1) as u8, (i * 11 + 2) as u8, (i * 17 + 3) as u8]).collect();
    for c in &pal { d.extend([c[2], c[1], c[0]]); if kind != 12 { d.push(0xEE); } }
    let file_header = n.range(0, 3) > 0;
    let mut f = vec![];
    if file_header { let off = 14 + d.len() as u32 + n.r32(0, 5); f.extend(b"BM"); f.extend([9; 8]); f.extend(off.to_le_bytes()); f.extend(&d); while f.len() < off as usize { f.push(1); } } else { f = d; }
    let pitch = (w as usize * bits as usize + 31) / 32 * 4;
    let rows: Vec<Vec<u8>> = (0..h).map(|y| { let k = n.u8(); (0..pitch).map(|i| (i as u8).wrapping_mul(37).wrapping_add(k ^ y as u8)).collect() }).collect();
    for y in 0..h { f.extend(&rows[if top { y } else { h - 1 - y } as usize]); }
    let what = format!("{bits}-bit {w}x{h} header {kind} top-down {top} palette {pal_len} file header {file_header}");
    let dec = if file_header { BmpDecoder::new(rd(&f)) } else { BmpDecoder::new_without_file_header(rd(&f)) }.unwrap_or_else(|e| panic!("{what}: {e}"));
    assert_eq!((dec.dimensions(), dec.color_type()), ((w, h), ColorType::Rgb8), "{what}");
    let mut out = vec![0; (w * h * 3) as usize]; dec.read_image(&mut out).unwrap_or_else(|e| panic!("{what}: {e}"));
    for y in 0..h as usize { for x in 0..w as usize {
        let r = &rows[y];
        let want = match bits {
            1 | 2 | 4 | 8 => { let per = 8 / bits as usize; let v = r[x / per] >> (8 - bits as usize * (x % per + 1)) & ((1u32 << bits) - 1) as u8; pal.get(v as usize).copied().unwrap_or([0; 3]) }
            16 => { let v = r[2 * x] as u32 | (r[2 * x + 1] as u32) << 8; [widen(v >> 10 & 31, 5), widen(v >> 5 & 31, 5), widen(v & 31, 5)] }
            24 => [r[3 * x + 2], r[3 * x + 1], r[3 * x]],
            _ => [r[4 * x + 2], r[4 * x + 1], r[4 * x]],
        };
        assert_eq!(&out[(y * w as usize + x) * 3..][..3], &want, "{what}: pixel ({x},{y})");
    } }
    // the same file cut short is an error
    let cut = f.len() - 1 - n.range(0, pitch - 1);
    let r = catch(|| { let d = if file_header { BmpDecoder::new(rd(&f[..cut])) } else { BmpDecoder::new_without_file_header(rd(&f[..cut])) }; match d { Err(_) => false, Ok(d) => d.read_image(&mut out).is_ok() } }).unwrap_or_else(|| panic!("{what}: truncated: panic"));
    assert!(!r, "{what}: accepted with {cut} of {} bytes", f.len());
}
/// run-length coded rows
pub fn rle<N: Nd>(n: &mut N) {
    let four = n.bool();
    let (w, h) = (n.range(1, 40), n.range(1, 6));
    let ncol = if four { 16 } else { 256 };
    let pal: Vec<[u8; 3]> = (0..ncol).map(|i| [(i * 5 + 1) as u8, (i * 11 + 2) as u8, (i * 17 + 3) as u8]).collect();
    let mut d = dib(40, w as u32, h as i32, if four { 4 } else { 8 }, if four { 2 } else { 1 }, 0, &[0; 4]);
    for c in &pal { d.extend([c[2], c[1], c[0], 0]); }
    let mut f = b"BM".to_vec(); f.extend([0; 8]); f.extend((14 + d.len() as u32).to_le_bytes()); f.extend(d);
    let start = f.len();
    // grid[y] counted from the bottom, None = skipped
    let mut grid = vec![vec![None::<u8>; w]; h];
    let (mut x, mut y) = (0usize, 0usize);
    let mut ended = false;
    'rows: while y < h {
        while x < w {
            match n.range(0, 7) {
                0 if n.range(0, 4) == 0 => { f.extend([0, 1]); ended = true; break 'rows; }
                1 if n.range(0, 2) == 0 => break,
                2 => { let dx = n.range(0, w - x - 1); let dy = n.range(0, h - y - 1).min(2); f.extend([0, 2, dx as u8, dy as u8]); x += dx; y += dy; }
                3 | 4 if w - x >= 3 => {
                    let k = n.range(3, w - x); f.extend([0, k as u8]);
                    let v: Vec<u8> = (0..k).map(|_| if four { n.raw(0, 15) as u8 } else { n.u8() }).collect();
                    let s = f.len();
                    if four { for p in v.chunks(2) { f.push(p[0] << 4 | p.get(1).copied().unwrap_or(0)); } } else { f.extend(&v); }
                    if (f.len() - s) % 2 == 1 { f.push(0x5A); }
                    for q in v { grid[y][x] = Some(q); x += 1; }
                }
                _ => { let k = n.range(1, w - x); let v = n.u8(); f.extend([k as u8, v]); for i in 0..k { grid[y][x] = Some(if four { if i % 2 == 0 { v >> 4 } else { v & 15 } } else { v }); x += 1; } }
            }
        }
        f.extend([0, 0]); x = 0; y += 1;
    }
    if !ended { f.extend([0, 1]); }
    let what = format!("RLE{} {w}x{h} codes {:02x?}", if four { 4 } else { 8 }, &f[start..f.len().min(start + 80)]);
    let dec = BmpDecoder::new(rd(&f)).unwrap();
    let mut out = vec![0xCC; w * h * 3];
    catch(|| dec.read_image(&mut out)).unwrap_or_else(|| panic!("{what}: panic")).unwrap_or_else(|e| panic!("{what}: {e}"));
    for yy in 0..h { for xx in 0..w {
        let want = grid[h - 1 - yy][xx].map_or([0; 3], |v| pal[v as usize]);
        assert_eq!(&out[(yy * w + xx) * 3..][..3], &want, "{what}: pixel ({xx},{yy})");
    } }
}
entries! { "C16";
    written Fuzz "four colour types, palettes, up to 300 pixels a side; header fields, rows, padding, read back",
    sizes EnumFull "image sizes around the 32-bit limits of the header",
    bitfields Fuzz "any contiguous bit fields in 16 and 32 bits, five headers, both row orders",
    bad_masks Fuzz "invalid masks",
    plain Fuzz "1,2,4,8,16,24,32 bits, six headers, both row orders, up to 19x5; truncations",
    rle Fuzz "RLE4/RLE8 with runs, literals, deltas, up to 40x6",
}
