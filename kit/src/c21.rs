//! C21 PNM text output
use crate::nd::*;
use image::codecs::pnm::*;
use image::*;
use std::io::Write;
fn numbers(what: &str, t: &[u8]) -> Vec<u32> {
    for (i, l) in t.split(|&b| b == b'\n').enumerate() { assert!(l.len() <= 70, "{what}: line {i} has {} characters", l.len()); }
    assert!(t.iter().all(|b| b.is_ascii_digit() || b.is_ascii_whitespace()), "{what}: unexpected byte");
    std::str::from_utf8(t).unwrap().split_ascii_whitespace().map(|s| s.parse().unwrap()).collect()
}
pub fn text<N: Nd>(n: &mut N) {
    let (w, h) = match n.range(0, 2) { 0 => (n.r32(1, 120), 1), _ => (n.r32(1, 14), n.r32(1, 6)) };
    let k = n.range(0, 2); let deep = k == 1 && n.bool(); let ch = if k == 2 { 3 } else { 1 };
    let count = (w * h * ch) as usize;
    let style = n.range(0, 4);
    let s: Vec<u16> = (0..count).map(|i| match style { 0 => n.u16(), 1 => 65535, 2 => (i % 11) as u16, 3 => [9, 99, 255, 7, 100, 10][i % 6], _ => 10u16.pow(n.r32(0, 4)) - n.raw(0, 1) as u16 }).map(|v| if deep { v } else { v & 255 }).collect();
    let sub = [PnmSubtype::Bitmap(SampleEncoding::Ascii), PnmSubtype::Graymap(SampleEncoding::Ascii), PnmSubtype::Pixmap(SampleEncoding::Ascii)][k];
    let ct = match (ch, deep) { (1, false) => ExtendedColorType::L8, (1, true) => ExtendedColorType::L16, (_, false) => ExtendedColorType::Rgb8, _ => ExtendedColorType::Rgb16 };
    let mut f = wr((w * h) as usize);
    { let e = PnmEncoder::new(&mut f);
      let mut e = if deep { e.with_header(GraymapHeader { encoding: SampleEncoding::Ascii, width: w, height: h, maxwhite: 65535 }.into()) } else { e.with_subtype(sub) }; if deep { e.encode(&s[..], w, h, ct).unwrap(); } else { let b: Vec<u8> = s.iter().map(|&v| v as u8).collect(); e.encode(&b[..], w, h, ct).unwrap(); } }
    let f = f.v; let what = format!("{sub:?} {ct:?} {w}x{h} style {style}");
    let head = format!("P{}\n{w} {h}{}\n", k + 1, match k { 0 => String::new(), _ => format!(" {}", if deep { 65535 } else { 255 }) });
    assert!(f.starts_with(head.as_bytes()), "{what}: header {:?}", String::from_utf8_lossy(&f[..f.len().min(30)]));
    let got = numbers(&what, &f[head.len()..]);
    let want: Vec<u32> = s.iter().map(|&v| if k == 0 { (v == 0) as u32 } else { v as u32 }).collect();
    assert!(got == want, "{what}: {} numbers for {} samples, first difference {:?}", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    let d = ImageReader::with_format(rd(&f), ImageFormat::Pnm).decode().unwrap_or_else(|e| panic!("{what}: {e}"));
    let back: Vec<u32> = match d { DynamicImage::ImageLuma8(i) => i.iter().map(|&v| v as u32).collect(), DynamicImage::ImageLuma16(i) => i.iter().map(|&v| v as u32).collect(), DynamicImage::ImageRgb8(i) => i.iter().map(|&v| v as u32).collect(), DynamicImage::ImageRgb16(i) => i.iter().map(|&v| v as u32).collect(), _ => panic!() };
    let want: Vec<u32> = s.iter().map(|&v| if k == 0 { (v != 0) as u32 * 255 } else { v as u32 }).collect();
    assert!(back == want, "{what}: read back");
}
/// headers chosen by the caller: samples above their maximum are refused, others are written
pub fn maxima<N: Nd>(n: &mut N) {
    if n.bool() { return maxima16(n); }
    let (w, h) = (n.r32(1, 9), n.r32(1, 3)); let max = n.r32(1, 255); let over = n.range(0, 3) == 0;
    let mut b: Vec<u8> = (0..w * h).map(|_| n.r32(0, max) as u8).collect(); if over { let i = n.range(0, b.len() - 1); b[i] = n.r32(max, 255) as u8; }
    let ok = b.iter().all(|&v| v as u32 <= max); let mut f = vec![]; let ascii = n.bool();
    let enc = if ascii { SampleEncoding::Ascii } else { SampleEncoding::Binary };
    let r = PnmEncoder::new(&mut f).with_header(GraymapHeader { encoding: enc, width: w, height: h, maxwhite: max }.into()).encode(&b[..], w, h, ExtendedColorType::L8);
    assert_eq!(r.is_ok(), ok, "{w}x{h} maximum {max} samples {b:?}");
    if ok { let head = format!("P{}\n{w} {h} {max}\n", if ascii { 2 } else { 5 }); assert!(f.starts_with(head.as_bytes()), "header {f:?}"); let t = &f[head.len()..];
        if ascii { assert_eq!(numbers("maxima", t), b.iter().map(|&v| v as u32).collect::<Vec<_>>()); } else { assert_eq!(t, &b[..]); } }
}
/// the same with two-byte samples
fn maxima16<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(1, 9), n.r32(1, 3)); let max = n.r32(256, 65535); let over = n.range(0, 3) == 0;
    let mut b: Vec<u16> = (0..w * h).map(|_| n.r32(0, max) as u16).collect(); if over { let i = n.range(0, b.len() - 1); b[i] = n.r32(max, 65535) as u16; }
    let ok = b.iter().all(|&v| v as u32 <= max); let mut f = wr((w * h) as usize); let ascii = n.bool();
    let encoding = if ascii { SampleEncoding::Ascii } else { SampleEncoding::Binary };
    let r = PnmEncoder::new(&mut f).with_header(GraymapHeader { encoding, width: w, height: h, maxwhite: max }.into()).encode(&b[..], w, h, ExtendedColorType::L16);
    let f = f.v;
    assert_eq!(r.is_ok(), ok, "{w}x{h} maximum {max} samples {b:?}");
    if ok { let head = format!("P{}\n{w} {h} {max}\n", if ascii { 2 } else { 5 }); assert!(f.starts_with(head.as_bytes()), "header {f:?}"); let t = &f[head.len()..];
        if ascii { assert_eq!(numbers("maxima", t), b.iter().map(|&v| v as u32).collect::<Vec<_>>()); } else { assert_eq!(t, &b.iter().flat_map(|v| v.to_be_bytes()).collect::<Vec<_>>()[..]); } }
}
/// the line breaker itself: any capacity, any pieces, any accepting writer
#[cfg(has_autobreak)]
pub fn breaker<N: Nd>(n: &mut N) {
    struct Few(Vec<u8>, usize, u32);
    impl Write for Few { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.2 = self.2.wrapping_mul(1664525).wrapping_add(1013904223); if self.2 >> 30 == 0 && self.1 < 9 { return Err(std::io::ErrorKind::Interrupted.into()); } let k = b.len().min(self.1); self.0.extend(&b[..k]); Ok(k) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    let cap = n.range(0, 20); let mut w = Few(vec![], n.range(1, 10), 12345); let mut items: Vec<Vec<u8>> = vec![];
    let last = n.bool();
    { let mut a = crate::ext::autobreak::AutoBreak::new(&mut w, cap);
      for i in 0..n.range(0, 25) { let k = n.range(0, 8); let it: Vec<u8> = (0..k).map(|j| b'a' + ((i * 7 + j) % 26) as u8).collect(); a.write_all(&it).unwrap(); items.push(it); if n.range(0, 9) == 0 { a.flush().unwrap(); break; } }
      if last { a.flush().unwrap(); } }
    let t = w.0; let what = format!("capacity {cap} items {:?} output {:?}", items.iter().map(|i| String::from_utf8_lossy(i).into_owned()).collect::<Vec<_>>(), String::from_utf8_lossy(&t));
    // greedy layout
    let mut want: Vec<u8> = vec![]; let mut col = 0;
    for it in &items { if col > 0 && col + it.len() > cap { want.push(b'\n'); col = 0; } want.extend(it); col += it.len(); }
    let strip = |v: &[u8]| v.iter().copied().filter(|&b| b != b'\n').collect::<Vec<u8>>();
    assert_eq!(strip(&t), strip(&want), "{what}: items in order");
    let big = items.iter().map(|i| i.len()).max().unwrap_or(0);
    for l in t.split(|&b| b == b'\n') { assert!(l.len() <= cap.max(big), "{what}: line too long"); }
    // no item is split
    let mut p = 0; for it in &items { if it.is_empty() { continue; } while p < t.len() && t[p] == b'\n' { p += 1; } assert!(t[p..].starts_with(it), "{what}: item split at {p}"); p += it.len(); }
}
#[cfg(not(has_autobreak))]
pub fn breaker<N: Nd>(n: &mut N) { n.assume(false) }
entries! { "C21";
    text Fuzz "P1, P2, P3, 8 bits and P2 with 16, up to 120x1 and 14x6 pixels",
    maxima Fuzz "P2 and P5 with any maximum up to 65535, 8- and 16-bit samples up to and above it",
    breaker Fuzz "capacities up to 20, up to 25 items of up to 8 bytes, writers that accept few bytes at a time",
}
