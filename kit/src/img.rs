//! helpers: small images with distinct pixels
use crate::nd::*;
use image::*;
pub fn distinct_luma16(w: u32, h: u32) -> ImageBuffer<Luma<u16>, Vec<u16>> {
    ImageBuffer::from_raw(w, h, (0..w * h).map(|i| 1000 + i as u16).collect()).unwrap()
}
pub fn distinct_rgb8(w: u32, h: u32) -> RgbImage {
    RgbImage::from_raw(w, h, (0..w * h).flat_map(|i| [(i * 3 + 1) as u8, (i * 3 + 2) as u8, (i * 3 + 3) as u8]).collect()).unwrap()
}
pub fn random_dyn<N: Nd>(n: &mut N, w: u32, h: u32) -> DynamicImage {
    let k = n.range(0, 9);
    dyn_of_kind(k, w, h, &mut |i| (i as u32).wrapping_mul(2654435761) >> 7)
}
pub fn dyn_of_kind(k: usize, w: u32, h: u32, f: &mut dyn FnMut(usize) -> u32) -> DynamicImage {
    let p = (w as usize) * (h as usize);
    let mut g8 = |c: usize| -> Vec<u8> { (0..p * c).map(|i| f(i) as u8).collect() };
    match k {
        0 => return DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, g8(1)).unwrap()),
        1 => return DynamicImage::ImageLumaA8(ImageBuffer::from_raw(w, h, g8(2)).unwrap()),
        2 => return DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, g8(3)).unwrap()),
        3 => return DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, g8(4)).unwrap()),
        _ => {}
    }
    let mut g16 = |c: usize| -> Vec<u16> { (0..p * c).map(|i| f(i) as u16).collect() };
    match k {
        4 => return DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, g16(1)).unwrap()),
        5 => return DynamicImage::ImageLumaA16(ImageBuffer::from_raw(w, h, g16(2)).unwrap()),
        6 => return DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, g16(3)).unwrap()),
        7 => return DynamicImage::ImageRgba16(ImageBuffer::from_raw(w, h, g16(4)).unwrap()),
        _ => {}
    }
    let mut gf = |c: usize| -> Vec<f32> { (0..p * c).map(|i| (f(i) & 0xffff) as f32 / 65536.0).collect() };
    match k {
        8 => DynamicImage::ImageRgb32F(ImageBuffer::from_raw(w, h, gf(3)).unwrap()),
        _ => DynamicImage::ImageRgba32F(ImageBuffer::from_raw(w, h, gf(4)).unwrap()),
    }
}
/// bytes of pixel (x, y)
pub fn pix_bytes(d: &DynamicImage, x: u32, y: u32) -> Vec<u8> {
    let b = d.color().bytes_per_pixel() as usize;
    let o = (y as usize * d.width() as usize + x as usize) * b;
    d.as_bytes()[o..o + b].to_vec()
}
