//! C17 Radiance HDR scanlines
use crate::nd::*;
use image::codecs::hdr::*;
use image::*;
fn head(w: usize, h: usize) -> Vec<u8> { format!("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y {h} +X {w}\n").into_bytes() }
fn float(p: [u8; 4]) -> [f32; 3] { let mut o = [0.0; 3]; if p[3] != 0 { for i in 0..3 { o[i] = (p[i] as f64 * 2f64.powi(p[3] as i32 - 136)) as f32; } } o }
fn read(f: &[u8]) -> Result<Vec<f32>, String> {
    catch(|| { let d = HdrDecoder::new(rd_quiet(f)).map_err(|e| e.to_string())?; let n = d.total_bytes() as usize; let mut b = vec![0u8; n]; d.read_image(&mut b).map_err(|e| e.to_string())?;
        Ok(b.chunks(4).map(|c| f32::from_ne_bytes(c.try_into().unwrap())).collect()) }).unwrap_or_else(|| panic!("panic while decoding {} bytes {:02x?}", f.len(), &f[..f.len().min(120)]))
}
/// rgbe values that an encoder can produce, as floats
fn rgbe<N: Nd>(n: &mut N, kind: usize) -> [u8; 4] {
    let mut p = match kind { 0 => [n.u8(), n.u8(), n.u8(), 0], 1 => [128, 64, 32, 0], _ => [2, 2, 0x80 | n.u8(), 0] };
    if p[0] | p[1] | p[2] < 128 { p[n.range(0, 2)] |= 128; }
    p[3] = if kind == 0 { n.raw(20, 240) as u8 } else { 130 };
    p
}
/// encode, expand with an independent decoder of the packet format, decode
pub fn roundtrip<N: Nd>(n: &mut N) {
    let (w, h) = match n.range(0, 6) { 0 => (n.range(1, 7), n.range(1, 4)), 1 => (n.range(8, 12), n.range(1, 4)), 2 => (n.range(250, 300), 1), 3 => (n.range(120, 140), 1), 4 => ([32766, 32767, 32768, 32769][n.range(0, 3)], 1), _ => (n.range(8, 60), n.range(1, 3)) };
    let mut px: Vec<[u8; 4]> = vec![];
    // runs and literals per component, of the lengths that matter
    while px.len() < w * h {
        let len = match n.range(0, 11) { 0 => 127, 1 => 128, 2 => 126, 3 => 129, 4 => n.range(1, 300), 5 => 1, 6 => 2, 7 => 3, 8 => 4, _ => n.range(1, 9) };
        let lit = n.range(0, 2); let kind = n.range(0, 2); let base = rgbe(n, kind);
        for i in 0..len { let mut p = base; if lit > 0 { p[1] = (i as u8).wrapping_mul(lit as u8 * 3); } if lit > 1 { p[2] = (i / 2) as u8; if p[0] | p[1] < 128 { p[0] |= 128; } } if p[0] | p[1] | p[2] < 128 { p[0] |= 128; } px.push(p); }
    }
    px.truncate(w * h);
    let rgb: Vec<Rgb<f32>> = px.iter().map(|p| Rgb(float(*p))).collect();
    let mut f = wr(w * h);
    if n.bool() { HdrEncoder::new(&mut f).encode(&rgb, w, h).unwrap(); }
    else { let b: Vec<u8> = rgb.iter().flat_map(|p| p.0).flat_map(|v| v.to_ne_bytes()).collect(); HdrEncoder::new(&mut f).write_image(&b, w as u32, h as u32, ExtendedColorType::Rgb32F).unwrap(); }
    let f = f.v; let what = format!("HDR {w}x{h}");
    let dims = format!("-Y {h} +X {w}\n"); let p0 = f.windows(dims.len()).position(|v| v == dims.as_bytes()).expect("dimension line") + dims.len();
    let mut p = p0;
    if w >= 8 && w < 32768 {
        for y in 0..h {
            assert_eq!(&f[p..p + 4], &[2, 2, (w >> 8) as u8, w as u8], "{what}: marker of row {y}"); p += 4;
            for c in 0..4 {
                let mut x = 0;
                while x < w {
                    let k = f[p] as usize; p += 1;
                    assert!(k != 0, "{what}: empty packet");
                    if k > 128 { let v = f[p]; p += 1; for _ in 0..k - 128 { assert!(x < w, "{what}: run beyond the row"); assert_eq!(v, px[y * w + x][c], "{what}: row {y} component {c} position {x}"); x += 1; } }
                    else { for _ in 0..k { assert!(x < w, "{what}: literal beyond the row"); assert_eq!(f[p], px[y * w + x][c], "{what}: row {y} component {c} position {x}"); p += 1; x += 1; } }
                }
            }
        }
    } else { for q in &px { assert_eq!(&f[p..p + 4], q, "{what}: flat pixel"); p += 4; } }
    assert_eq!(p, f.len(), "{what}: bytes after the last packet");
    let out = read(&f).unwrap_or_else(|e| panic!("{what}: {e}"));
    for i in 0..w * h { assert_eq!(&out[3 * i..3 * i + 3], &rgb[i].0, "{what}: pixel {i} ({:?})", px[i]); }
    let cut = n.range(p0, f.len() - 1);
    assert!(read(&f[..cut]).is_err(), "{what}: accepted after truncation to {cut} of {} bytes", f.len());
}
/// pixel values whose logarithm rounds up are normalised too
pub fn exponents<N: Nd>(n: &mut N) {
    let e = n.ri(-120, 126) as i32; let m = [0x7fffff_u32, 0x7ffffe, 0, 1, 0x400000, 0x7f0000, 0x7fff00][n.range(0, 6)];
    let mx = f32::from_bits(((e + 127) as u32) << 23 | m);
    let small = [0.0, 0.0078125, 0.009, 0.5, 1.0][n.range(0, 4)] * mx;
    let mut c = [small, small, mx]; c.rotate_left(n.range(0, 2));
    let mut f = vec![]; HdrEncoder::new(&mut f).encode(&[Rgb(c)], 1, 1).unwrap();
    let p = &f[f.len() - 4..];
    assert!(p[0] | p[1] | p[2] >= 128, "HDR {c:?}: mantissas {p:02x?} not normalised");
    let out = read(&f).unwrap_or_else(|x| panic!("HDR {c:?}: {x}"));
    for i in 0..3 { assert!(out[i] <= c[i] && c[i] - out[i] <= mx / 128.0, "HDR {c:?} decodes to {out:?}"); }
}
/// any packet sequence, new scheme
pub fn packets<N: Nd>(n: &mut N) {
    let (w, h) = (match n.range(0, 3) { 0 => n.range(1, 8), 1 => n.range(120, 135), _ => n.range(8, 40) }, n.range(1, 2));
    let mut f = head(w, h); let start = f.len();
    let mut want = vec![[0u8; 4]; w * h]; let mut over = false; let overlong = n.range(0, 5) == 0;
    let (oy, oc) = (n.range(0, h - 1), n.range(0, 3));
    'all: for y in 0..h {
        f.extend([2, 2, (w >> 8) as u8, w as u8]);
        for c in 0..4 {
            let mut x = 0;
            while x < w {
                let last = overlong && (y, c) == (oy, oc);
                if n.range(0, 15) == 0 { f.push(0); continue; }
                let run = n.bool(); let max = if run { 127 } else { 128 };
                let mut k = match n.range(0, 3) { 0 => 1, 1 => max.min(w - x), _ => n.range(1, max.min(w - x)) };
                if last && w - x < max { k = n.range(w - x + 1, max); over = true; }
                if run { let v = n.u8(); f.extend([128 + k as u8, v]); for i in 0..k { if x + i < w { want[y * w + x + i][c] = v; } } }
                else { f.push(k as u8); for i in 0..k { let v = n.u8(); f.push(v); if x + i < w { want[y * w + x + i][c] = v; } } }
                x += k;
                if over { break 'all; }
            }
        }
    }
    if over { f.extend(vec![9; n.range(0, 2000)]); }
    let what = format!("HDR {w}x{h} packets {:02x?}", &f[start..f.len().min(start + 80)]);
    match read(&f) {
        Ok(o) => { assert!(!over, "{what}: overlong packet accepted"); for i in 0..w * h { assert_eq!(&o[3 * i..3 * i + 3], &float(want[i]), "{what}: pixel {i}"); } let cut = n.range(start, f.len() - 1); if f[cut..].iter().any(|&b| b != 0) || true { assert!(read(&f[..cut]).is_err(), "{what}: accepted after truncation to {} bytes of data", cut - start); } }
        Err(e) => assert!(over, "{what}: refused: {e}"),
    }
}
/// old run-length scheme: any pixel and marker sequence
pub fn old_scheme<N: Nd>(n: &mut N) {
    let w = n.range(1, 1200);
    let mut f = head(w, 1); let start = f.len();
    let first = [n.range(3, 255) as u8, n.u8(), n.u8(), n.range(1, 255) as u8];
    f.extend(first);
    let mut row = vec![first]; let mut prev = first; let mut mult = 1u128; let mut err = false;
    while row.len() < w && !err {
        if n.bool() {
            let k = match n.range(0, 3) { 0 => 0, 1 => n.range(1, 4) as u8, _ => (w - row.len()).min(255) as u8 };
            f.extend([1, 1, 1, k]);
            let len = k as u128 * mult; mult = (mult * 256).min(1 << 100);
            if row.len() as u128 + len > w as u128 { err = true; } else { for _ in 0..len { row.push(prev); } }
            if k == 0 && n.range(0, 3) == 0 { let z = n.range(0, 12); for _ in 0..z { f.extend([1, 1, 1, 0]); mult = (mult * 256).min(1 << 100); } }
        } else { let p = [n.range(2, 255) as u8, n.u8(), n.u8(), n.u8()]; f.extend(p); row.push(p); prev = p; mult = 1; }
    }
    if err { f.extend([7; 40]); }
    let what = format!("HDR old scheme {w}x1 data {:02x?}", &f[start..f.len().min(start + 80)]);
    match read(&f) {
        Ok(o) => { assert!(!err, "{what}: overlong run accepted"); for i in 0..w { assert_eq!(&o[3 * i..3 * i + 3], &float(row[i]), "{what}: pixel {i}"); } let cut = n.range(start, f.len() - 1); assert!(read(&f[..cut]).is_err(), "{what}: accepted after truncation"); }
        Err(e) => assert!(err, "{what}: refused: {e}"),
    }
    let mut g = head(w, 1); g.extend([1, 1, 1, n.u8()]); g.extend(vec![5; 4 * w]);
    assert!(read(&g).is_err(), "HDR row that starts with a run marker accepted");
}
entries! { "C17";
    roundtrip Fuzz "rows of 1 to 32769 pixels, runs and literals around 127/128; packets checked by an independent expander; truncations",
    exponents EnumFull "maxima at, just below and between powers of two",
    packets Fuzz "any packet sequence on up to 135x2 pixels, empty and overlong packets, truncations",
    old_scheme Fuzz "old scheme: any pixel and marker sequence up to 1200 pixels",
}
