//! C13 DXT blocks
use crate::nd::*;
use image::codecs::dds::DdsDecoder;
use image::*;

pub fn dds(w: u32, h: u32, fourcc: &[u8; 4], dx10: Option<u32>) -> Vec<u8> {
    let mut o = b"DDS ".to_vec();
    for v in [124u32, 0x1007, h, w, 0, 0, 0] { o.extend(v.to_le_bytes()); }
    o.extend([0; 44]);
    for v in [32u32, 4] { o.extend(v.to_le_bytes()); }
    o.extend(fourcc);
    o.extend([0; 20]); o.extend([0; 20]);
    if let Some(f) = dx10 { for v in [f, 3, 0, 1, 0] { o.extend(v.to_le_bytes()); } }
    o
}
fn rgb565(v: u32) -> [u32; 3] { [(v >> 11) * 255 / 31, (v >> 5 & 63) * 255 / 63, (v & 31) * 255 / 31] }
/// the S3TC rules, one texel at a time, with the texel's alpha for the variants that have one
fn texel(variant: usize, block: &[u8], i: usize) -> [u8; 4] {
    let c = if variant == 0 { block } else { &block[8..] };
    let (n0, n1) = (c[0] as u32 + 256 * c[1] as u32, c[2] as u32 + 256 * c[3] as u32);
    let (a, b) = (rgb565(n0), rgb565(n1));
    let code = c[4 + i / 4] >> (2 * (i % 4)) & 3;
    let mut o = [0u8; 4];
    for k in 0..3 {
        o[k] = match (code, variant != 0 || n0 > n1) {
            (0, _) => a[k], (1, _) => b[k],
            (2, true) => (2 * a[k] + b[k] + 1) / 3, (3, true) => (a[k] + 2 * b[k] + 1) / 3,
            (2, false) => (a[k] + b[k] + 1) / 2, _ => 0 } as u8;
    }
    o[3] = match variant {
        0 => 255,
        1 => (block[i / 2] >> (4 * (i % 2)) & 15) * 17,
        _ => {
            let mut code = 0;
            for k in 0..3 { let bit = 3 * i + k; code |= (block[2 + bit / 8] >> (bit % 8) & 1) << k; }
            let (x, y) = (block[0] as u32, block[1] as u32); let c = code as u32;
            (match c { 0 => x, 1 => y,
                _ if x > y => ((8 - c) * x + (c - 1) * y) / 7,
                6 => 0, 7 => 255,
                _ => ((6 - c) * x + (c - 1) * y) / 5 }) as u8
        }
    };
    o
}
const NAMES: [&[u8; 4]; 3] = [b"DXT1", b"DXT3", b"DXT5"];
fn check(v: usize, dx10: Option<u32>, bw: usize, bh: usize, blocks: &[u8]) {
    let bs = if v == 0 { 8 } else { 16 }; let ch = if v == 0 { 3 } else { 4 };
    let (w, h) = (4 * bw, 4 * bh);
    let mut file = dds(w as u32, h as u32, if dx10.is_some() { b"DX10" } else { NAMES[v] }, dx10);
    file.extend(blocks);
    let d = DdsDecoder::new(rd(&file)).unwrap();
    assert_eq!((d.dimensions(), d.color_type()), ((w as u32, h as u32), if v == 0 { ColorType::Rgb8 } else { ColorType::Rgba8 }));
    let mut out = vec![0xAAu8; w * h * ch];
    d.read_image(&mut out).unwrap();
    for y in 0..h { for x in 0..w {
        let b = &blocks[((y / 4) * bw + x / 4) * bs..][..bs];
        let want = texel(v, b, (y % 4) * 4 + x % 4);
        assert_eq!(&out[(y * w + x) * ch..][..ch], &want[..ch], "{} block {b:02x?} of a {w}x{h} image, texel ({},{}) at ({x},{y})", String::from_utf8_lossy(NAMES[v]), x % 4, y % 4);
    } }
}
/// one block of any content
pub fn block<N: Nd>(n: &mut N) {
    let v = n.range(0, 2);
    let mut b = n.bytes(if v == 0 { 8 } else { 16 });
    // endpoints near each other, equal, extreme
    let o = if v == 0 { 0 } else { 8 };
    match n.range(0, 4) { 0 => { b[o + 2] = b[o]; b[o + 3] = b[o + 1]; } 1 => { b[o + 3] = b[o + 1]; b[o + 2] = b[o].wrapping_add(1); } _ => {} }
    if v == 2 && n.range(0, 4) == 0 { b[1] = b[0]; }
    check(v, None, 1, 1, &b);
}
/// every endpoint value of the 565 expansion
pub fn endpoints<N: Nd>(n: &mut N) {
    let v = n.range(0, 2); let c0 = (n.range(0, 255) * 257) as u16; let lo = n.range(0, 3) as u16;
    let c0 = c0 ^ lo.wrapping_mul(0x0821); let c1 = c0.wrapping_mul(40503) ^ lo;
    let mut b = vec![0x5A; if v == 0 { 0 } else { 8 }];
    b.extend(c0.to_le_bytes()); b.extend(c1.to_le_bytes()); b.extend([0xE4, 0x1B, 0xB1, 0x4E]);
    check(v, None, 1, 1, &b);
}
/// every pair of alpha endpoints of the third variant, every table index
pub fn alphas<N: Nd>(n: &mut N) {
    let (a, b) = (n.u8(), n.u8());
    let mut bl = vec![a, b]; let mut t = 0u64; for i in 0..16u64 { t |= ((i * 5 + 3) % 8) << (3 * i); } bl.extend(&t.to_le_bytes()[..6]);
    bl.extend([0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0]);
    check(2, None, 1, 1, &bl);
}
/// pictures of several blocks, every way to name the variant
pub fn pictures<N: Nd>(n: &mut N) {
    let v = n.range(0, 2); let (bw, bh) = (n.range(0, 5), n.range(0, 5));
    let b = n.bytes(bw * bh * if v == 0 { 8 } else { 16 });
    let dx = if n.bool() { Some(70 + 3 * v as u32 + n.r32(0, 2)) } else { None };
    check(v, dx, bw, bh, &b);
}
/// dimensions that are not whole blocks, oversized dimensions, short data
pub fn malformed<N: Nd>(n: &mut N) {
    let v = n.range(0, 2);
    let (w, h) = (n.u32(), n.u32());
    let f = dds(w, h, NAMES[v], None);
    let bad = w % 4 != 0 || h % 4 != 0 || w as u128 * h as u128 * [3, 4, 4][v] > u64::MAX as u128;
    match catch(|| DdsDecoder::new(rd(&f)).map(|d| d.dimensions())) {
        None => panic!("DDS {w}x{h}: panic"),
        Some(Ok(d)) => { assert!(!bad, "DDS {w}x{h} accepted as {d:?}"); assert_eq!(d, (w, h)); }
        Some(Err(e)) => assert!(bad, "DDS {w}x{h} refused: {e}"),
    }
    let (bw, bh) = (n.range(1, 4), n.range(1, 4));
    let mut f = dds(4 * bw as u32, 4 * bh as u32, NAMES[v], None);
    let need = bw * bh * if v == 0 { 8 } else { 16 }; let have = n.range(0, need);
    f.extend(vec![7; have]);
    let d = DdsDecoder::new(rd(&f)).unwrap();
    let mut out = vec![0; d.total_bytes() as usize];
    let r = catch(|| d.read_image(&mut out)).expect("truncated DDS: panic");
    assert_eq!(r.is_ok(), have == need, "DDS {bw}x{bh} blocks with {have} of {need} bytes");
}
entries! { "C13";
    block Fuzz "one block of any content, three variants",
    endpoints EnumFull "1024 endpoint values covering every 5- and 6-bit level, three variants",
    alphas EnumFull "all 65536 pairs of alpha endpoints",
    pictures Fuzz "up to 5x5 blocks, FourCC and DX10 headers",
    malformed Fuzz "any announced size; truncated block data",
}
