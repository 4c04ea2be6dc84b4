//! C02 pixel iteration
use crate::img::*;
use crate::nd::*;
use image::*;

type B = ImageBuffer<Rgb<u8>, Vec<u8>>;

fn coords(w: u32, h: u32) -> Vec<(u32, u32)> { (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect() }

/// every item of a row-major pixel iterator of any view is (x, y, get_pixel(x, y)), each once
fn check_view<V: GenericImageView>(v: &V, what: &str) where V::Pixel: PartialEq + std::fmt::Debug {
    let (w, h) = v.dimensions();
    let want = coords(w, h);
    let mut it = v.pixels();
    for (k, &(x, y)) in want.iter().enumerate() {
        if k == want.len() / 2 {
            let rest: Vec<_> = it.clone().map(|p| (p.0, p.1)).collect();
            assert_eq!(rest, want[k..].to_vec(), "{what}: clone of pixels() after {k} items of {w}x{h}");
        }
        let got = it.next();
        assert!(got.is_some(), "{what}: pixels() of {w}x{h} ended after {k} items");
        let (a, b, p) = got.unwrap();
        assert_eq!((a, b), (x, y), "{what}: item {k} of {w}x{h}");
        assert_eq!(p, v.get_pixel(x, y), "{what}: pixel ({x},{y}) of {w}x{h}");
        let (lo, hi) = it.size_hint();
        let left = want.len() - k - 1;
        assert!(lo <= left && hi.map_or(true, |q| q >= left), "{what}: size hint with {left} items left of {w}x{h}");
    }
    for _ in 0..3 { let g = it.next(); assert!(g.is_none(), "{what}: pixels() of {w}x{h} yields {:?} after the end", g.map(|p| (p.0, p.1))); }
}
pub fn generic<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 5), n.r32(0, 5));
    let mut s = distinct_luma16(w, h);
    check_view(&s, "ImageBuffer");
    let (x, y) = (n.r32(0, w), n.r32(0, h));
    let (vw, vh) = (n.r32(0, w - x), n.r32(0, h - y));
    check_view(&*s.view(x, y, vw, vh), "SubImage");
    check_view(&*s.sub_image(x, y, vw, vh), "SubImage (mutable)");
    let d = DynamicImage::ImageLuma16(s.clone());
    check_view(&d, "DynamicImage");
    check_view(&s.as_flat_samples().as_view::<Luma<u16>>().unwrap(), "flat::View");
}
/// a view whose announced size is huge; only coordinates are looked at
struct Big(u32, u32);
impl GenericImageView for Big { type Pixel = Luma<u8>; fn dimensions(&self) -> (u32, u32) { (self.0, self.1) } fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> { assert!(x < self.0 && y < self.1, "get_pixel({x},{y}) of {}x{}", self.0, self.1); Luma([x as u8 ^ y as u8]) } }
pub fn generic_big<N: Nd>(n: &mut N) {
    let (w, h) = (n.u32(), n.u32());
    let b = Big(w, h);
    let total = w as u128 * h as u128;
    let mut it = b.pixels();
    for k in 0..(total.min(200)) as u32 {
        let g = it.next().map(|p| (p.0, p.1));
        assert_eq!(g, Some((k % w, k / w)), "item {k} of {w}x{h}");
    }
    if total <= 200 { for _ in 0..3 { assert!(it.next().is_none(), "{w}x{h} does not end"); } }
}
/// buffer iterators over containers that may be longer than needed
pub fn buffers<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 4), n.r32(0, 4));
    let extra = n.range(0, 1) * 17;
    let data: Vec<u8> = (0..(w * h * 3) as usize + extra).map(|i| i as u8 + 1).collect();
    let mut b: B = ImageBuffer::from_raw(w, h, data.clone()).unwrap();
    let want = coords(w, h);
    let px = |x: u32, y: u32| { let o = ((y * w + x) * 3) as usize; Rgb([data[o], data[o + 1], data[o + 2]]) };
    let all: Vec<Rgb<u8>> = want.iter().map(|&(x, y)| px(x, y)).collect();
    let nonempty_rows = if w == 0 { 0 } else { h };
    let what = format!("{w}x{h} over {} samples", data.len());
    // forwards, lengths along the way
    { let mut it = b.pixels(); for k in 0..all.len() { assert_eq!(it.len(), all.len() - k, "pixels().len() {what}"); assert_eq!(it.size_hint(), (it.len(), Some(it.len()))); assert_eq!(it.next(), Some(&all[k]), "pixels item {k} {what}"); } assert_eq!(it.len(), 0); assert!(it.next().is_none(), "pixels() too long {what}"); }
    assert_eq!(b.pixels().rev().copied().collect::<Vec<_>>(), all.iter().rev().copied().collect::<Vec<_>>(), "pixels().rev() {what}");
    { let mut c = b.clone(); let mut it = c.pixels_mut(); for k in 0..all.len() { assert_eq!(it.len(), all.len() - k); assert_eq!(it.next().map(|p| *p), Some(all[k]), "pixels_mut item {k} {what}"); } assert!(it.next().is_none(), "pixels_mut too long {what}"); }
    assert_eq!(b.pixels_mut().rev().map(|p| *p).collect::<Vec<_>>(), all.iter().rev().copied().collect::<Vec<_>>());
    // both ends
    { let mut it = b.pixels(); let (mut i, mut j) = (0, all.len()); while i < j { assert_eq!(it.next(), Some(&all[i])); i += 1; if i < j { assert_eq!(it.len(), j - i); j -= 1; assert_eq!(it.next_back(), Some(&all[j])); } } assert!(it.next().is_none() && it.next_back().is_none()); }
    // enumerating
    { let mut it = b.enumerate_pixels(); for (k, &(x, y)) in want.iter().enumerate() { assert_eq!(it.len(), all.len() - k); assert_eq!(it.next(), Some((x, y, &all[k])), "enumerate_pixels item {k} {what}"); if k == 1 { let c: Vec<_> = it.clone().map(|p| (p.0, p.1)).collect(); assert_eq!(c, want[2..].to_vec(), "clone of enumerate_pixels"); } } assert!(it.next().is_none()); assert!(it.next().is_none()); }
    { let mut c = b.clone(); let mut it = c.enumerate_pixels_mut(); for (k, &(x, y)) in want.iter().enumerate() { assert_eq!(it.len(), all.len() - k); let g = it.next().map(|p| (p.0, p.1, *p.2)); assert_eq!(g, Some((x, y, all[k])), "enumerate_pixels_mut item {k} {what}"); } assert!(it.next().is_none()); }
    // rows
    { let mut it = b.rows(); for y in 0..nonempty_rows { assert_eq!(it.len(), (nonempty_rows - y) as usize, "rows().len() {what}"); let r: Vec<_> = it.next().expect("row").copied().collect(); assert_eq!(r, (0..w).map(|x| px(x, y)).collect::<Vec<_>>(), "row {y} {what}"); } assert!(it.next().is_none(), "rows() too long {what}"); assert_eq!(it.len(), 0); }
    { let r: Vec<Vec<_>> = b.rows().rev().map(|r| r.copied().collect()).collect(); assert_eq!(r, (0..nonempty_rows).rev().map(|y| (0..w).map(|x| px(x, y)).collect::<Vec<_>>()).collect::<Vec<_>>(), "rows().rev() {what}"); }
    { let mut c = b.clone(); let mut it = c.rows_mut(); for y in 0..nonempty_rows { assert_eq!(it.len(), (nonempty_rows - y) as usize); let r: Vec<_> = it.next().expect("row").map(|p| *p).collect(); assert_eq!(r, (0..w).map(|x| px(x, y)).collect::<Vec<_>>(), "rows_mut row {y} {what}"); } assert!(it.next().is_none(), "rows_mut() too long {what}"); }
    { let mut c = b.clone(); let r: Vec<Vec<_>> = c.rows_mut().rev().map(|r| r.map(|p| *p).collect()).collect(); assert_eq!(r, (0..nonempty_rows).rev().map(|y| (0..w).map(|x| px(x, y)).collect::<Vec<_>>()).collect::<Vec<_>>()); }
    { let mut it = b.enumerate_rows(); for y in 0..nonempty_rows { assert_eq!(it.len(), (nonempty_rows - y) as usize); let (yy, r) = it.next().expect("row"); assert_eq!(yy, y, "enumerate_rows {what}"); let r: Vec<_> = r.map(|(x, y, p)| (x, y, *p)).collect(); assert_eq!(r, (0..w).map(|x| (x, y, px(x, y))).collect::<Vec<_>>(), "enumerate_rows row {y} {what}"); } assert!(it.next().is_none()); }
    { let mut c = b.clone(); let mut it = c.enumerate_rows_mut(); for y in 0..nonempty_rows { assert_eq!(it.len(), (nonempty_rows - y) as usize); let (yy, r) = it.next().expect("row"); assert_eq!(yy, y); let r: Vec<_> = r.map(|(x, y, p)| (x, y, *p)).collect(); assert_eq!(r, (0..w).map(|x| (x, y, px(x, y))).collect::<Vec<_>>(), "enumerate_rows_mut row {y} {what}"); } assert!(it.next().is_none()); }
    // writes through the mutable iterators land on the announced coordinate
    for mode in 0..4 {
        let mut c: B = ImageBuffer::from_raw(w, h, vec![0; data.len()]).unwrap();
        match mode {
            0 => for (k, p) in c.pixels_mut().enumerate() { *p = Rgb([k as u8 % w as u8, k as u8 / w as u8, 9]) },
            1 => for (x, y, p) in c.enumerate_pixels_mut() { *p = Rgb([x as u8, y as u8, 9]) },
            2 => for (y, r) in c.rows_mut().enumerate() { for (x, p) in r.enumerate() { *p = Rgb([x as u8, y as u8, 9]) } },
            _ => for (y, r) in c.enumerate_rows_mut() { for (x, y2, p) in r { assert_eq!(y, y2); *p = Rgb([x as u8, y as u8, 9]) } },
        }
        let mut e = vec![0u8; data.len()];
        for &(x, y) in &want { let o = ((y * w + x) * 3) as usize; e[o] = x as u8; e[o + 1] = y as u8; e[o + 2] = 9; }
        assert_eq!(c.into_raw(), e, "writes through mutable iterator {mode} {what}");
    }
}
/// `with_image` over very tall or wide images: the lengths and first/last items
pub fn extreme<N: Nd>(n: &mut N) {
    let tall = n.bool();
    let k = n.r32(0, 70000);
    let (w, h) = if tall { (1, k) } else { (k, 1) };
    let b: GrayImage = ImageBuffer::from_raw(w, h, (0..k).map(|i| (i % 251) as u8).collect()).unwrap();
    let v: Vec<(u32, u32, u8)> = b.enumerate_pixels().map(|(x, y, p)| (x, y, p.0[0])).collect();
    assert_eq!(v.len(), k as usize);
    for (i, p) in v.iter().enumerate() { let i = i as u32; let e = if tall { (0, i) } else { (i, 0) }; assert_eq!((p.0, p.1, p.2), (e.0, e.1, (i % 251) as u8)); }
    assert_eq!(b.rows().len(), if w == 0 || h == 0 { 0 } else { h as usize });
    assert_eq!(GenericImageView::pixels(&b).count(), k as usize);
}
entries! {"C02";
    generic EnumFull "GenericImageView::pixels on ImageBuffer, SubImage, DynamicImage, flat::View up to 5x5, all sub-rectangles",
    generic_big Fuzz "GenericImageView::pixels, first 200 items of views of any announced size",
    buffers EnumFull "all ImageBuffer iterators up to 4x4, containers exact and too long: items, order, lengths, both ends, clones, writes",
    extreme Fuzz "iterators of 1xk and kx1 images, k up to 70000",
}
