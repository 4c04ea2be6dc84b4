//! C15 JPEG entropy coding, judged by an independent reader of baseline JPEG
use crate::nd::*;
use image::codecs::jpeg::*;
use image::*;
const ZZ: [usize; 64] = { let mut z = [0; 64]; let (mut r, mut c, mut i) = (0usize, 0usize, 0); while i < 64 { z[i] = r * 8 + c; if (r + c) % 2 == 0 { if c == 7 { r += 1 } else if r == 0 { c += 1 } else { r -= 1; c += 1 } } else { if r == 7 { c += 1 } else if c == 0 { r += 1 } else { r += 1; c -= 1 } } i += 1; } z };
/// code lengths and codes of Annex C for BITS (counts per length): (length, code) per value in order
fn annex_c(bits: &[u8]) -> Vec<(u8, u32)> {
    let mut v = vec![]; let mut code = 0u32;
    for (i, &b) in bits.iter().enumerate() { for _ in 0..b { v.push((i as u8 + 1, code)); code += 1; } code <<= 1; }
    v
}
fn prefix_free(c: &[(u8, u32)]) { for (i, a) in c.iter().enumerate() { assert!(a.1 < (1 << a.0) && a.0 <= 16, "code {a:?} too long"); assert!(a.1 != (1 << a.0) - 1, "code of only ones {a:?}"); for b in &c[i + 1..] { let s = a.0.min(b.0); assert!(a.1 >> (a.0 - s) != b.1 >> (b.0 - s), "codes {a:?} and {b:?} are not prefix-free"); } } }
type Dec = std::collections::HashMap<(u8, u32), u8>;
fn decoder(bits: &[u8], vals: &[u8]) -> Dec { let c = annex_c(bits); prefix_free(&c); assert_eq!(c.len(), vals.len()); let d: Dec = c.into_iter().zip(vals.iter().copied()).collect(); assert_eq!(d.len(), vals.len()); assert_eq!(vals.iter().collect::<std::collections::HashSet<_>>().len(), vals.len()); d }
struct Bits<'a>(&'a [u8], usize);
impl Bits<'_> {
    fn bit(&mut self) -> u32 { assert!(self.1 / 8 < self.0.len(), "the entropy-coded data ends early"); let b = self.0[self.1 / 8] >> (7 - self.1 % 8) & 1; self.1 += 1; b as u32 }
    fn take(&mut self, n: u8) -> u32 { (0..n).fold(0, |a, _| a << 1 | self.bit()) }
    fn sym(&mut self, d: &Dec) -> u8 { let mut c = 0; for l in 1..=16 { c = c << 1 | self.bit(); if let Some(&v) = d.get(&(l, c)) { return v; } } panic!("no Huffman code matches") }
    fn coef(&mut self, s: u8) -> i32 { if s == 0 { return 0; } let v = self.take(s) as i32; if v >> (s - 1) == 1 { v } else { v + 1 - (1 << s) } }
    fn block(&mut self, dc: &Dec, ac: &Dec, pred: &mut i32) -> [i32; 64] {
        let mut b = [0; 64]; let s = self.sym(dc); assert!(s <= 11, "DC category {s}"); *pred += self.coef(s); b[0] = *pred;
        let mut k = 1; while k < 64 { let rs = self.sym(ac); let (r, s) = (rs >> 4, rs & 15); if s == 0 { if r == 15 { k += 16; assert!(k < 64, "zero run past the block"); continue; } assert!(r == 0, "symbol {rs:02x}"); break; } assert!(s <= 10, "AC category {s}"); k += r as usize; assert!(k < 64, "run past the block"); b[ZZ[k]] = self.coef(s); k += 1; }
        b
    }
    fn end(&mut self) { let left = self.0.len() * 8 - self.1; assert!(left < 8, "{left} bits left over"); while self.1 < self.0.len() * 8 { assert_eq!(self.bit(), 1, "padding bits are ones"); } }
}
/// removes the stuffed zeros; every FF must be followed by one
fn unstuff(d: &[u8]) -> Vec<u8> { let mut o = vec![]; let mut i = 0; while i < d.len() { o.push(d[i]); if d[i] == 0xFF { assert!(i + 1 < d.len() && d[i + 1] == 0, "0xFF at {i} not followed by 0x00"); i += 1; } i += 1; } o }
struct Jpeg { w: u32, h: u32, q: Vec<[u8; 64]>, blocks: Vec<Vec<[i32; 64]>>, icc: Vec<u8>, density: [u8; 5] }
fn parse(f: &[u8]) -> Jpeg {
    assert_eq!(f[..2], [0xFF, 0xD8], "SOI"); let mut p = 2; let mut q = vec![[0u8; 64]; 4]; let mut dc: Vec<Dec> = vec![Dec::new(); 4]; let mut ac = dc.clone(); let mut comps: Vec<(u8, usize)> = vec![]; let (mut w, mut h) = (0, 0); let mut icc = vec![]; let mut chunks = (0, 0); let mut density = [0; 5];
    loop {
        assert_eq!(f[p], 0xFF, "marker expected at {p}"); let m = f[p + 1]; let l = u16::from_be_bytes([f[p + 2], f[p + 3]]) as usize; let s = &f[p + 4..p + 2 + l]; p += 2 + l;
        match m {
            0xE0 => { assert_eq!(&s[..7], b"JFIF\0\x01\x02"); density.copy_from_slice(&s[7..12]); assert_eq!(&s[12..], [0, 0]); }
            0xE2 => { assert_eq!(&s[..12], b"ICC_PROFILE\0"); chunks.0 += 1; assert_eq!(s[12], chunks.0); chunks.1 = s[13]; icc.extend(&s[14..]); }
            0xC0 => { assert_eq!(s[0], 8); h = u16::from_be_bytes([s[1], s[2]]) as u32; w = u16::from_be_bytes([s[3], s[4]]) as u32; assert_eq!(s.len(), 6 + 3 * s[5] as usize); for c in s[6..].chunks(3) { assert_eq!(c[1], 0x11); comps.push((c[0], c[2] as usize)); } }
            0xDB => { assert_eq!(s.len(), 65); assert!(s[0] < 4); for k in 0..64 { assert!(s[1 + k] > 0); q[s[0] as usize][ZZ[k]] = s[1 + k]; } }
            0xC4 => { let n: usize = s[1..17].iter().map(|&b| b as usize).sum(); assert_eq!(s.len(), 17 + n); let t = if s[0] >> 4 == 0 { &mut dc } else { &mut ac }; t[(s[0] & 15) as usize] = decoder(&s[1..17], &s[17..]); }
            0xDA => {
                assert_eq!(s.len(), 4 + 2 * comps.len()); assert_eq!(s[0] as usize, comps.len()); assert_eq!(s[s.len() - 3..], [0, 63, 0]); assert_eq!(chunks.0, chunks.1);
                let sel: Vec<(usize, usize)> = comps.iter().zip(s[1..].chunks(2)).map(|(c, x)| { assert_eq!(c.0, x[0]); ((x[1] >> 4) as usize, (x[1] & 15) as usize) }).collect();
                assert_eq!(f[f.len() - 2..], [0xFF, 0xD9], "EOI"); let d = unstuff(&f[p..f.len() - 2]); let mut b = Bits(&d, 0); let mut pred = vec![0; comps.len()]; let mut blocks = vec![vec![]; comps.len()];
                for _ in 0..(w + 7) / 8 * ((h + 7) / 8) { for c in 0..comps.len() { blocks[c].push(b.block(&dc[sel[c].0], &ac[sel[c].1], &mut pred[c])); } }
                b.end();
                return Jpeg { w, h, q: comps.iter().map(|c| q[c.1]).collect(), blocks, icc, density };
            }
            _ => panic!("marker {m:02x}"),
        }
    }
}
fn std_tables() -> [[u8; 64]; 2] {
    let l = [16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62, 18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99];
    let mut c = [99u8; 64]; for (i, v) in [(0, 17), (1, 18), (2, 24), (3, 47), (8, 18), (9, 21), (10, 26), (11, 66), (16, 24), (17, 26), (18, 56), (24, 47), (25, 66)] { c[i] = v; }
    [l, c]
}
fn check_q(q: &[[u8; 64]], quality: u8) {
    let k = quality.clamp(1, 100) as u32; let s = if k < 50 { 5000 / k } else { 200 - 2 * k };
    for (c, t) in q.iter().enumerate() { for i in 0..64 { let want = ((std_tables()[(c > 0) as usize][i] as u32 * s + 50) / 100).clamp(1, 255) as u8; assert_eq!(t[i], want, "quality {quality} component {c} entry {i}"); } }
}
/// real DCT-II of Annex A.3.3
fn dct(b: &[f64; 64]) -> [f64; 64] {
    let c: Vec<f64> = (0..64).map(|i| { let (u, x) = (i / 8, i % 8); ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.).cos() * if u == 0 { 0.5f64.sqrt() } else { 1. } / 2. }).collect();
    let mut t = [0.; 64]; let mut o = [0.; 64];
    for y in 0..8 { for u in 0..8 { t[y * 8 + u] = (0..8).map(|x| b[y * 8 + x] * c[u * 8 + x]).sum(); } }
    for v in 0..8 { for u in 0..8 { o[v * 8 + u] = (0..8).map(|y| t[y * 8 + u] * c[v * 8 + y]).sum(); } }
    o
}
pub fn files<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 40), n.r32(1, 24)); let rgb = n.bool(); let ch = if rgb { 3 } else { 1 };
    let quality = [n.r32(0, 255) as u8, 100, 75, 1][n.range(0, 3)]; let style = n.range(0, 6);
    let a = n.u8(); let mut x = n.u32();
    let px: Vec<u8> = (0..w * h * ch).map(|i| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); let (px, py) = (i / ch % w, i / ch / w); match style { 0 => (x >> 24) as u8, 1 => a, 2 => if x >> 31 == 1 { 255 } else { 0 }, 3 => if (px / 8 + py / 8) % 2 == 0 { 255 } else { 0 }, 4 => if (px + py) % 2 == 0 { 0 } else { 255 }, 5 => if ((px % 8) / 2) % 2 == (py % 2) * 0 { 255 } else { 0 }, _ => ((px * 7 + py * 13) as u8).wrapping_add(a) } }).collect();
    let icc: Vec<u8> = match n.range(0, 9) { 0 => n.bytes(30), 1 => vec![a; 65519 + n.range(0, 3) - 1], _ => vec![] };
    let dens = [PixelDensity::default(), PixelDensity::dpi(300), PixelDensity { density: (a as u16 * 256 + 1, 770), unit: PixelDensityUnit::Centimeters }][n.range(0, 2)];
    let mut f = wr((w + quality as u32) as usize); let ct = if rgb { ExtendedColorType::Rgb8 } else { ExtendedColorType::L8 };
    { let mut e = JpegEncoder::new_with_quality(&mut f, quality); e.set_pixel_density(dens); e.set_icc_profile(icc.clone()).unwrap(); e.write_image(&px, w, h, ct).unwrap(); } let f = f.v;
    let what = format!("{w}x{h} {ct:?} quality {quality} style {style} (pixels {a})");
    let j = parse(&f); assert_eq!((j.w, j.h, j.blocks.len()), (w, h, ch as usize), "{what}"); assert_eq!(j.icc, icc, "{what}: ICC profile"); check_q(&j.q, quality);
    let mut wd = vec![match dens.unit { PixelDensityUnit::PixelAspectRatio => 0, PixelDensityUnit::Inches => 1, _ => 2 }]; wd.extend(dens.density.0.to_be_bytes()); wd.extend(dens.density.1.to_be_bytes()); assert_eq!(j.density[..], wd[..], "{what}: density");
    let bw = (w + 7) / 8;
    for (c, bl) in j.blocks.iter().enumerate() { for (bi, got) in bl.iter().enumerate() {
        let (bx, by) = (bi as u32 % bw * 8, bi as u32 / bw * 8); let mut s = [0.; 64];
        for i in 0..64u32 { let (x, y) = ((bx + i % 8).min(w - 1), (by + i / 8).min(h - 1)); let o = ((y * w + x) * ch) as usize; let v = |k: usize| px[o + k] as f64; let lin = if !rgb { v(0) } else { match c { 0 => 0.299 * v(0) + 0.587 * v(1) + 0.114 * v(2), 1 => -0.168736 * v(0) - 0.331264 * v(1) + 0.5 * v(2) + 128., _ => 0.5 * v(0) - 0.418688 * v(1) - 0.081312 * v(2) + 128. } }; s[i as usize] = lin.clamp(0., 255.) - 128.; }
        let t = dct(&s);
        for i in 0..64 { let q = j.q[c][i] as f64; let slack = (if rgb { 6.0 } else { 1.9 }) / q + 0.501; assert!((got[i] as f64 - t[i] / q).abs() <= slack, "{what}: component {c} block {bi} coefficient {i}: coded {} for {:.3}", got[i], t[i] / q); }
    } }
}
pub fn qualities<N: Nd>(n: &mut N) {
    let q = n.u8(); let mut f = vec![]; JpegEncoder::new_with_quality(&mut f, q).write_image(&[9; 3], 1, 1, ExtendedColorType::Rgb8).unwrap();
    let j = parse(&f); check_q(&j.q, q);
}
#[cfg(has_jpegbits)]
pub fn bits<N: Nd>(n: &mut N) {
    use crate::ext::jpegbits::BitWriter;
    struct Few(Vec<u8>, u32); impl std::io::Write for Few { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1 += 1; if self.1 % 3 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); } self.0.push(b[0]); Ok(1) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    let mut o = Few(vec![], 0); let mut want: Vec<u8> = vec![]; let ones = n.bool(); let mut log = vec![];
    { let mut b = BitWriter::new(&mut o); for _ in 0..n.range(0, 30) { let s = n.range(0, 16) as u8; let v = if ones { ((1u32 << s) - 1) as u16 } else { (n.u16() as u32 & ((1u32 << s) - 1)) as u16 }; log.push((v, s)); b.write_bits(v, s).unwrap(); for k in (0..s).rev() { want.push((v >> k & 1) as u8); } } b.pad_byte().unwrap(); }
    let d = unstuff(&o.0); let mut b = Bits(&d, 0); assert_eq!(d.len(), (want.len() + 7) / 8, "{log:?}: {} bytes", d.len());
    for (i, w) in want.iter().enumerate() { assert_eq!(b.bit(), *w as u32, "{log:?}: bit {i}"); } b.end();
}
#[cfg(has_jpegbits)]
pub fn blocks<N: Nd>(n: &mut N) {
    use crate::ext::jpegbits::*;
    let chroma = n.bool(); let (dl, dv, al, av): (&[u8; 16], &[u8], &[u8; 16], &[u8]) = if chroma { (&STD_CHROMA_DC_CODE_LENGTHS, &STD_CHROMA_DC_VALUES, &STD_CHROMA_AC_CODE_LENGTHS, &STD_CHROMA_AC_VALUES) } else { (&STD_LUMA_DC_CODE_LENGTHS, &STD_LUMA_DC_VALUES, &STD_LUMA_AC_CODE_LENGTHS, &STD_LUMA_AC_VALUES) };
    let (dt, at) = (build_huff_lut_const(dl, dv), build_huff_lut_const(al, av));
    let mut o = vec![]; let mut list = vec![]; let mut pred = 0;
    { let mut b = BitWriter::new(&mut o); for _ in 0..n.range(1, 3) { let mut k = [0i32; 64]; let dens = n.range(0, 3); k[0] = n.ri(-1023, 1023) as i32;
        if dens == 0 { k[n.range(1, 63)] = n.ri(-1023, 1023) as i32; } else { for i in 1..64 { if [n.range(0, 15) == 0, n.range(0, 3) == 0, true][dens - 1] { k[i] = n.ri(-1023, 1023) as i32 >> n.range(0, 9); } } }
        let r = b.write_block(&k, pred, &dt, &at).unwrap(); assert_eq!(r, k[0]); pred = r; list.push(k); } b.pad_byte().unwrap(); }
    let d = unstuff(&o); let mut b = Bits(&d, 0); let (dd, ad) = (decoder(dl, dv), decoder(al, av)); let mut p = 0;
    for k in &list { let g = b.block(&dd, &ad, &mut p); assert!(g == *k, "block {k:?} reads back as {g:?}"); } b.end();
}
#[cfg(has_jpegbits)]
pub fn coefficients<N: Nd>(n: &mut N) {
    let v = n.ri(-32767, 32767) as i32; let (s, x) = crate::ext::jpegbits::encode_coefficient(v);
    let cat = (32 - v.unsigned_abs().leading_zeros()) as u8; assert_eq!(s, cat, "category of {v}"); assert!((x as u32) < 1 << s);
    let back = if s == 0 { 0 } else if x >> (s - 1) == 1 { x as i32 } else { x as i32 + 1 - (1 << s) }; assert_eq!(back, v, "extra bits {x:b} of {v}");
}
/// code tables for any valid list of counts
#[cfg(has_entropy)]
pub fn tables<N: Nd>(n: &mut N) {
    let mut bits = [0u8; 16]; let mut left = 1i64; let mut total = 0; let lim = n.range(1, 255) as i64;
    for i in 0..16 { left *= 2; let max = (left - 1).min(lim - total).max(0); let k = if max == 0 { 0 } else { match n.range(0, 3) { 0 => 0, 1 => max.min(n.ri(0, 3)), 2 => max, _ => n.ri(0, max) } }; bits[i] = k as u8; left -= k; total += k; }
    n.assume(total > 0 && total < 256);
    let off = n.u8(); let vals: Vec<u8> = (0..total).map(|i| (i as u8).wrapping_mul(3).wrapping_add(off)).collect();
    let t = crate::ext::entropy::build_huff_lut_const(&bits, &vals); let c = annex_c(&bits); prefix_free(&c);
    for (v, (l, code)) in vals.iter().zip(&c) { assert_eq!((t[*v as usize].0, t[*v as usize].1 as u32), (*l, *code), "counts {bits:?} value {v}"); }
    for v in 0..256usize { if !vals.contains(&(v as u8)) { assert!(t[v].0 > 16, "value {v} has no code"); } }
}
#[cfg(not(has_jpegbits))] pub fn bits<N: Nd>(n: &mut N) { n.assume(false) }
#[cfg(not(has_jpegbits))] pub fn blocks<N: Nd>(n: &mut N) { n.assume(false) }
#[cfg(not(has_jpegbits))] pub fn coefficients<N: Nd>(n: &mut N) { n.assume(false) }
#[cfg(not(has_entropy))] pub fn tables<N: Nd>(n: &mut N) { n.assume(false) }
/// several images through one encoder are the files of separate encoders, one after another
pub fn series<N: Nd>(n: &mut N) {
    let q = n.r32(1, 100) as u8; let mut ends = vec![0usize]; let mut all = vec![]; let mut want: Vec<Vec<u8>> = vec![]; let mut kinds = vec![];
    { let mut e = JpegEncoder::new_with_quality(&mut all, q as u8); let icc = if n.range(0, 3) == 0 { n.bytes(20) } else { vec![] }; e.set_icc_profile(icc.clone()).unwrap();
      for _ in 0..n.range(1, 3) {
        let (w, h) = (n.r32(1, 20), n.r32(1, 12)); let kind = n.range(0, 7); let mut x = n.u32(); kinds.push((w, h, kind));
        let mut next = move || { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 };
        let l = ImageBuffer::from_fn(w, h, |_, _| Luma([next()])); let c = ImageBuffer::from_fn(w, h, |_, _| Rgb([next(), next(), next()]));
        let mut g = vec![]; { let mut s = JpegEncoder::new_with_quality(&mut g, q as u8); s.set_icc_profile(icc.clone()).unwrap(); if kind % 2 == 0 { s.write_image(&l, w, h, ExtendedColorType::L8).unwrap() } else { s.write_image(&c, w, h, ExtendedColorType::Rgb8).unwrap() } }
        match kind {
            0 => e.encode(&l, w, h, ExtendedColorType::L8), 1 => e.encode(&c, w, h, ExtendedColorType::Rgb8),
            2 => e.encode_image(&ImageBuffer::from_fn(w, h, |x, y| LumaA([l.get_pixel(x, y)[0], 7]))), 3 => e.encode_image(&ImageBuffer::from_fn(w, h, |x, y| { let p = c.get_pixel(x, y); Rgba([p[0], p[1], p[2], 9]) })),
            4 => e.encode_image(&DynamicImage::ImageLuma8(l).to_luma8()), 5 => e.encode_image(&ImageBuffer::from_fn(w, h, |x, y| { let p = c.get_pixel(x, y); Rgb([p[0] as u16, p[1] as u16, p[2] as u16]) })),
            6 => e.encode_image(&ImageBuffer::from_fn(w, h, |x, y| Luma([l.get_pixel(x, y)[0] as u16]))), _ => e.encode_image(&ImageBuffer::from_fn(w, h, |x, y| { let p = c.get_pixel(x, y); Rgb([p[0] as f32, p[1] as f32, p[2] as f32]) })),
        }.unwrap();
        ends.push(ends.last().unwrap() + g.len()); want.push(g);
      } }
    for (i, w) in want.iter().enumerate() { parse(w); let (a, b) = (ends[i].min(all.len()), ends[i + 1].min(all.len())); assert!(all[a..b] == w[..], "quality {q}: image {i} of {kinds:?} differs from the file of its own encoder"); }
    assert_eq!(all.len(), *ends.last().unwrap(), "quality {q}: length of the files of {kinds:?}");
}
entries! { "C15";
    series Fuzz "one to three images of any of eight kinds (L8, Rgb8, LumaA8, Rgba8, 16-bit and float samples with byte values) written by one encoder are byte for byte the files of separate encoders",
    files Fuzz "whole files up to 40x24, gray and RGB, any quality: markers, tables, stuffing, every coefficient against a real DCT",
    qualities EnumFull "all 256 quality settings",
    bits Fuzz "up to 30 codes of up to 16 bits, writers that accept one byte at a time",
    blocks Fuzz "up to 3 blocks of any coefficients, both table sets",
    coefficients EnumFull "all coefficients of up to 15 bits",
    tables Fuzz "any valid list of code length counts",
}
