//! C19 partial reads
use crate::nd::*;
use image::*;
use std::io::Cursor;
fn rect<N: Nd, D: ImageDecoderRect>(n: &mut N, what: &str, mut d: D, full: &[u8], bpp: usize) {
    let (w, h) = d.dimensions();
    for _ in 0..n.range(1, 4) {
        let (x, y) = (n.r32(0, w - 1), n.r32(0, h - 1));
        let (rw, rh) = match n.range(0, 3) { 0 => (w - x, h - y), _ => (n.r32(1, w - x), n.r32(1, h - y)) };
        let (x, rw) = if n.range(0, 3) == 0 { (0, w) } else { (x, rw) };
        let tight = rw as usize * bpp;
        let pitch = match n.range(0, 3) { 0 => tight, 1 => tight + 1, 2 => tight + n.range(0, 40), _ => w as usize * bpp };
        let extra = n.range(0, 2) * n.range(0, 30);
        let len = (rh as usize - 1) * pitch + if n.bool() { tight } else { pitch } + extra;
        if n.range(0, 5) == 0 { // outside
            let (ox, oy, ow, oh) = match n.range(0, 5) { 0 => (x, y, w - x + 1, rh), 1 => (x, y, rw, h - y + 1), 2 => (w, y, 1, 1), 3 => (x, h, 1, 1), 4 => (u32::MAX, y, 1, 1), _ => (x, y, 0, rh) };
            let mut b = vec![0xEE; 4000]; let r = catch(|| d.read_rect(ox, oy, ow, oh, &mut b, (ow as usize * bpp).max(1)).is_ok()).unwrap_or_else(|| panic!("{what}: read_rect({ox},{oy},{ow},{oh}): panic"));
            assert!(!r, "{what}: read_rect({ox},{oy},{ow},{oh}) outside the image accepted"); assert!(b.iter().all(|&v| v == 0xEE)); continue;
        }
        let mut b = vec![0xEEu8; len];
        let q = format!("{what}: read_rect({x},{y},{rw},{rh}) pitch {pitch} buffer {len}");
        catch(|| d.read_rect(x, y, rw, rh, &mut b, pitch)).unwrap_or_else(|| panic!("{q}: panic")).unwrap_or_else(|e| panic!("{q}: {e}"));
        for (i, &v) in b.iter().enumerate() {
            let (r, c) = (i / pitch, i % pitch);
            let want = if r < rh as usize && c < tight { full[((y as usize + r) * w as usize + x as usize) * bpp + c] } else { 0xEE };
            assert_eq!(v, want, "{q}: byte {i} (row {r}, column {c})");
        }
    }
    let mut b = vec![0; full.len()]; d.read_image(&mut b).unwrap(); assert!(b == full, "{what}: full read after partial reads");
}
pub fn farbfeld<N: Nd>(n: &mut N) {
    let (w, h) = (n.range(1, 9), n.range(1, 7)); let mut f = b"farbfeld".to_vec(); f.extend((w as u32).to_be_bytes()); f.extend((h as u32).to_be_bytes());
    let k = n.u8(); let px: Vec<u16> = (0..w * h * 4).map(|i| (i as u16).wrapping_mul(773) ^ k as u16).collect();
    for v in &px { f.extend(v.to_be_bytes()); }
    let full: Vec<u8> = px.iter().flat_map(|v| v.to_ne_bytes()).collect();
    rect(n, &format!("farbfeld {w}x{h}"), codecs::farbfeld::FarbfeldDecoder::new(rd(&f)).unwrap(), &full, 8);
}
pub fn bmp<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 9), n.r32(1, 7)); let k = n.range(0, 3);
    let d = crate::img::dyn_of_kind(k, w, h, &mut |i| (i as u32).wrapping_mul(77) + 3);
    let mut f = Cursor::new(vec![]); d.write_to(&mut f, ImageFormat::Bmp).unwrap(); let f = f.into_inner();
    let dec = codecs::bmp::BmpDecoder::new(rd(&f)).unwrap(); let bpp = dec.color_type().bytes_per_pixel() as usize;
    let mut full = vec![0; dec.total_bytes() as usize]; dec.read_image(&mut full).unwrap();
    rect(n, &format!("BMP kind {k} {w}x{h}"), codecs::bmp::BmpDecoder::new(rd(&f)).unwrap(), &full, bpp);
}
/// draining the scanline buffer in pieces of any size
#[cfg(has_readbuffer)]
pub fn incremental<N: Nd>(n: &mut N) {
    let sb = n.range(1, 20); let total = n.range(0, 120);
    let data: Vec<u8> = (0..total).map(|i| i as u8 ^ 0x5A).collect();
    let mut rb = crate::ext::readbuffer::ImageReadBuffer::new(sb as u64, total as u64);
    let mut src = 0; let mut out: Vec<u8> = vec![]; let mut calls = 0;
    loop {
        let k = match n.range(0, 3) { 0 => n.range(1, sb), 1 => sb, _ => n.range(1, 50) };
        let mut b = vec![0xEE; k];
        let r = catch(|| rb.read(&mut b, |row: &mut [u8]| { let l = row.len().min(total - src); row[..l].copy_from_slice(&data[src..src + l]); src += l; Ok(l) })).unwrap_or_else(|| panic!("scanlines of {sb}, {total} bytes, read of {k}: panic")).unwrap();
        assert!(r <= k && b[r..].iter().all(|&v| v == 0xEE || r < k), "read returned {r} for a buffer of {k}");
        out.extend(&b[..r]); calls += 1;
        if r == 0 { break; }
        assert!(calls < 400 && out.len() <= total, "scanlines of {sb}, {total} bytes: does not end");
    }
    assert!(out == data, "scanlines of {sb}, {total} bytes in pieces: got {} bytes, first difference {:?}", out.len(), out.iter().zip(&data).position(|(a, b)| a != b));
}
#[cfg(not(has_readbuffer))]
pub fn incremental<N: Nd>(n: &mut N) { n.assume(false) }
entries! { "C19";
    farbfeld Fuzz "sequences of up to 4 rectangles, any pitch, images up to 9x7; outside rectangles",
    bmp Fuzz "the same for BMP, four layouts",
    incremental Fuzz "the incremental reader, scanlines up to 20 bytes, pieces of any size",
}
