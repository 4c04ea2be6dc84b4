//! C01 buffer geometry
use crate::nd::*;
use image::*;

type B = ImageBuffer<Rgb<u8>, Vec<u8>>;

/// from_raw accepts exactly containers that hold w*h*3 samples (exact product)
pub fn from_raw_fits<N: Nd>(n: &mut N) {
    let (w, h) = (n.u32(), n.u32());
    let len = n.range(0, 40);
    let need = (w as u128) * (h as u128) * 3;
    let r: Option<ImageBuffer<Rgb<u8>, Vec<u8>>> = ImageBuffer::from_raw(w, h, vec![0; len]);
    assert_eq!(r.is_some(), need <= len as u128, "from_raw({w},{h},len {len})");
    if let Some(b) = r { assert_eq!(b.dimensions(), (w, h)); assert_eq!((b.width(), b.height()), (w, h)); assert_eq!(b.as_raw().len(), len); }
    let r: Option<ImageBuffer<Luma<u16>, Vec<u16>>> = ImageBuffer::from_vec(w, h, vec![0; len]);
    assert_eq!(r.is_some(), (w as u128) * (h as u128) <= len as u128);
}

/// every accessor agrees with the row-major index over an over-long container
pub fn accessors<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 4), n.r32(0, 4));
    let extra = n.range(0, 13);
    let len = (w * h * 3) as usize + extra;
    let data: Vec<u8> = (0..len).map(|i| i as u8 + 1).collect();
    let mut b: B = ImageBuffer::from_raw(w, h, data.clone()).unwrap();
    let (x, y) = (n.r32(0, 5), n.r32(0, 5));
    let inb = x < w && y < h;
    let o = ((y * w + x) * 3) as usize;
    let want = if inb { Some(Rgb([data[o], data[o + 1], data[o + 2]])) } else { None };
    assert_eq!(b.get_pixel_checked(x, y).copied(), want, "get_pixel_checked({x},{y}) of {w}x{h}, container {len}");
    assert_eq!(b.get_pixel_mut_checked(x, y).copied(), want, "get_pixel_mut_checked({x},{y}) of {w}x{h}, container {len}");
    assert_eq!(catch(|| *b.get_pixel(x, y)), want, "get_pixel({x},{y}) of {w}x{h}, container {len}");
    assert_eq!(catch(|| *b.get_pixel_mut(x, y)), want, "get_pixel_mut({x},{y}) of {w}x{h}");
    assert_eq!(catch(|| GenericImageView::get_pixel(&b, x, y)), want);
    assert_eq!(b.in_bounds(x, y), inb);
    let newp = Rgb([200, 201, 202]);
    let mut expect = data.clone();
    if inb { expect[o..o + 3].copy_from_slice(&newp.0); }
    let which = n.range(0, 5);
    #[allow(deprecated)]
    let ok = catch(|| match which { 4 => { *GenericImage::get_pixel_mut(&mut b, x, y) = newp; } 5 => { *b.get_pixel_mut_checked(x, y).unwrap() = newp; } 0 => b.put_pixel(x, y, newp), 1 => GenericImage::put_pixel(&mut b, x, y, newp), 2 => { b[(x, y)] = newp; } _ => { *b.get_pixel_mut(x, y) = newp; } });
    assert_eq!(ok.is_some(), inb, "write ({x},{y}) of {w}x{h}");
    assert_eq!(b.into_raw(), expect, "write ({x},{y}) of {w}x{h} changed other samples");
}
/// fresh buffers are zero and as large as announced; from_pixel / from_fn place pixels
pub fn constructors<N: Nd>(n: &mut N) {
    let (w, h) = (n.r32(0, 4), n.r32(0, 4));
    let b: B = ImageBuffer::new(w, h);
    assert_eq!(b.as_raw().len(), (w * h * 3) as usize);
    assert!(b.as_raw().iter().all(|&x| x == 0));
    let b: B = ImageBuffer::from_pixel(w, h, Rgb([1, 2, 3]));
    for y in 0..h { for x in 0..w { assert_eq!(*b.get_pixel(x, y), Rgb([1, 2, 3])); } }
    let b: B = ImageBuffer::from_fn(w, h, |x, y| Rgb([x as u8, y as u8, 7]));
    for y in 0..h { for x in 0..w { assert_eq!(*b.get_pixel(x, y), Rgb([x as u8, y as u8, 7])); } }
    assert_eq!(b.dimensions(), (w, h));
    let raw = b.as_raw().clone();
    assert_eq!(b.into_raw(), raw);
}
/// more pixels than 2^32: the container is never touched outside the pixel in question
pub fn huge<N: Nd>(n: &mut N) {
    const LEN: usize = (1 << 32) + (1 << 20);
    let (w, h) = match n.range(0, 3) { 0 => (65536, 65540), 1 => (65540, 65536), 2 => (1 << 31, 2), _ => (3, 1431655766) };
    let (x, y) = (n.r32(0, 2).min(w - 1), [0, h / 2, h - 1][n.range(0, 2)]); let x = if n.bool() { w - 1 - x } else { x };
    let mut b: ImageBuffer<Luma<u8>, Vec<u8>> = match ImageBuffer::from_raw(w, h, vec![0; LEN]) { Some(b) => b, None => panic!("{w}x{h} refused") };
    let o = y as usize * w as usize + x as usize;
    b.put_pixel(x, y, Luma([9]));
    assert_eq!((b.get_pixel(x, y).0[0], b.get_pixel_checked(x, y).map(|p| p.0[0]), GenericImageView::get_pixel(&b, x, y).0[0], b.as_raw()[o]), (9, Some(9), 9, 9), "pixel ({x},{y}) of {w}x{h}");
    b.get_pixel_mut(x, y).0[0] = 7; assert_eq!(b.as_raw()[o], 7, "pixel ({x},{y}) of {w}x{h}");
}
entries! {"C01";
    huge EnumFull "images of slightly more than 2^32 pixels, near the corners and the middle",
    from_raw_fits Fuzz "ImageBuffer::from_raw/from_vec fit check, all dimensions, containers up to 40 samples",
    accessors EnumFull "all accessors on images up to 4x4 with containers up to 13 samples too long",
    constructors EnumFull "new/from_pixel/from_fn up to 4x4",
}
