//! C06 strided layouts
use crate::nd::*;
use image::flat::*;
use image::*;

fn layout<N: Nd>(n: &mut N) -> SampleLayout { SampleLayout { channels: n.u8(), channel_stride: n.usize(), width: n.u32(), width_stride: n.usize(), height: n.u32(), height_stride: n.usize() } }
fn exact(l: &SampleLayout, c: u128, x: u128, y: u128) -> u128 { c * l.channel_stride as u128 + x * l.width_stride as u128 + y * l.height_stride as u128 }
fn fit(v: u128) -> Option<usize> { usize::try_from(v).ok() }
fn exact_min(l: &SampleLayout) -> Option<usize> { if l.channels == 0 || l.width == 0 || l.height == 0 { Some(0) } else { fit(exact(l, l.channels as u128 - 1, l.width as u128 - 1, l.height as u128 - 1) + 1) } }

/// index, min_length, fits over all layouts
pub fn indices<N: Nd>(n: &mut N) {
    let l = layout(n);
    let (c, x, y) = if n.bool() { (n.u8(), n.u32(), n.u32()) } else { (l.channels.wrapping_sub(n.u8() & 1), l.width.wrapping_sub(n.r32(0, 1)), l.height.wrapping_sub(n.r32(0, 1))) };
    let inb = c < l.channels && x < l.width && y < l.height;
    assert_eq!(l.in_bounds(c, x, y), inb, "{l:?} in_bounds({c},{x},{y})");
    let want = if inb { fit(exact(&l, c as u128, x as u128, y as u128)) } else { None };
    assert_eq!(l.index(c, x, y), want, "{l:?}.index({c},{x},{y})");
    let m = exact_min(&l);
    assert_eq!(l.min_length(), m, "{l:?}.min_length()");
    let len = match (n.range(0, 3), m) { (0, Some(k)) => k, (1, Some(k)) => k.saturating_sub(1), (2, Some(k)) => k.saturating_add(1), _ => n.usize() };
    assert_eq!(l.fits(len), m.is_some_and(|k| k <= len), "{l:?}.fits({len})");
    if let (Some(i), Some(k)) = (want, m) { assert!(i < k); assert_eq!(l.in_bounds_index(c, x, y), i, "{l:?}.in_bounds_index({c},{x},{y})"); }
    let (cu, xu, yu) = (n.usize(), n.usize(), n.usize());
    let big = |a: usize, b: usize| (a as u128) * (b as u128);
    let parts = [big(cu, l.channel_stride), big(xu, l.width_stride), big(yu, l.height_stride)];
    let e = if parts.iter().any(|&p| p > usize::MAX as u128) { None } else { fit(parts.iter().sum()) };
    assert_eq!(l.index_ignoring_bounds(cu, xu, yu), e, "{l:?}.index_ignoring_bounds({cu},{xu},{yu})");
    let mut s = l; let (cc, ww, hh) = (n.u8(), n.u32(), n.u32()); s.shrink_to(cc, ww, hh);
    assert_eq!(s, SampleLayout { channels: l.channels.min(cc), width: l.width.min(ww), height: l.height.min(hh), ..l }, "shrink_to");
    assert_eq!((l.bounds(), l.extents(), l.strides_cwh()), ((l.channels, l.width, l.height), (l.channels as usize, l.width as usize, l.height as usize), (l.channel_stride, l.width_stride, l.height_stride)));
    let f = FlatSamples { samples: (), layout: l, color_hint: None };
    assert_eq!((f.index(c, x, y), f.min_length(), f.fits(len), f.in_bounds(c, x, y), f.index_ignoring_bounds(cu, xu, yu)), (want, m, l.fits(len), inb, e), "FlatSamples over {l:?}");
}
fn small<N: Nd>(n: &mut N) -> SampleLayout {
    SampleLayout { channels: n.range(0, 3) as u8, channel_stride: n.range(0, 4), width: n.r32(0, 3), width_stride: n.range(0, 7), height: n.r32(0, 3), height_stride: n.range(0, 9) }
}
fn has_collision(l: &SampleLayout) -> bool {
    let mut seen = std::collections::HashSet::new();
    for c in 0..l.channels { for x in 0..l.width { for y in 0..l.height { if !seen.insert(exact(l, c as u128, x as u128, y as u128)) { return true; } } } }
    false
}
/// no collision is possible when none is reported (small layouts, exhaustively)
pub fn aliasing_small<N: Nd>(n: &mut N) {
    let l = small(n);
    let col = has_collision(&l);
    if col { assert!(l.has_aliased_samples(), "{l:?} has colliding samples, none reported");
        for f in [NormalForm::Unaliased, NormalForm::PixelPacked, NormalForm::ImagePacked, NormalForm::RowMajorPacked, NormalForm::ColumnMajorPacked] { assert!(!l.is_normal(f), "{l:?} normal {f:?} with colliding samples"); } }
    assert_eq!(FlatSamples { samples: (), layout: l, color_hint: None }.has_aliased_samples(), l.has_aliased_samples());
    if l.is_normal(NormalForm::PixelPacked) { assert_eq!(l.channel_stride, 1, "{l:?} pixel packed"); }
    if l.is_normal(NormalForm::RowMajorPacked) && l.channels > 0 { assert!(l.channel_stride == 1 && l.width_stride == l.channels as usize && l.height_stride == l.channels as usize * l.width as usize, "{l:?} row major packed"); }
    if l.is_normal(NormalForm::ColumnMajorPacked) && l.channels > 0 { assert!(l.channel_stride == 1 && l.height_stride == l.channels as usize && l.width_stride == l.channels as usize * l.height as usize, "{l:?} column major packed"); }
    let (r, c) = (SampleLayout::row_major_packed(l.channels, l.width, l.height), SampleLayout::column_major_packed(l.channels, l.width, l.height));
    for y in 0..l.height { for x in 0..l.width { for ch in 0..l.channels {
        assert_eq!(r.index(ch, x, y), Some(((y * l.width + x) * l.channels as u32 + ch as u32) as usize), "row_major_packed");
        assert_eq!(c.index(ch, x, y), Some(((x * l.height + y) * l.channels as u32 + ch as u32) as usize), "column_major_packed");
    } } }
    if l.channels > 0 && l.width > 0 && l.height > 0 { assert!(!r.has_aliased_samples() && !c.has_aliased_samples()); assert!(r.is_normal(NormalForm::RowMajorPacked) && c.is_normal(NormalForm::ColumnMajorPacked)); }
}
/// any layout reported unaliased: two drawn in-bounds samples collide only if equal
pub fn aliasing_big<N: Nd>(n: &mut N) {
    let l = layout(n);
    n.assume(l.channels > 0 && l.width > 0 && l.height > 0);
    if l.has_aliased_samples() { return; }
    let max = exact(&l, l.channels as u128 - 1, l.width as u128 - 1, l.height as u128 - 1);
    let pts: Vec<(u128, u128, u128)> = (0..8).map(|k| { let (c, w, h) = (l.channels as u128 - 1, l.width as u128 - 1, l.height as u128 - 1);
        (if k & 1 == 0 { 0 } else { c }, if k & 2 == 0 { 0 } else { w }, if k & 4 == 0 { 0 } else { h }) }).collect();
    let extra: Vec<_> = (0..3).map(|_| (n.raw(0, l.channels as u64 - 1) as u128, n.raw(0, l.width as u64 - 1) as u128, n.raw(0, l.height as u64 - 1) as u128)).collect();
    let all: Vec<_> = pts.into_iter().chain(extra).collect();
    for a in &all { assert!(exact(&l, a.0, a.1, a.2) <= max); for b in &all { if a != b { assert_ne!(exact(&l, a.0, a.1, a.2), exact(&l, b.0, b.1, b.2), "{l:?}: samples {a:?} and {b:?} collide, none reported"); } } }
    // carry-over neighbours: (last x, y) against (x, y+1) etc.
    let two = |a: u128, sa: u128, b: u128, sb: u128| { if sa > 0 && sb > 0 && a > 1 && b > 1 { if sb % sa == 0 { assert!(sb / sa >= a, "{l:?}: dimension of stride {sa} runs into stride {sb}"); } } };
    let d = [(l.channels as u128, l.channel_stride as u128), (l.width as u128, l.width_stride as u128), (l.height as u128, l.height_stride as u128)];
    for i in 0..3 { for j in 0..3 { if i != j && d[i].1 <= d[j].1 { two(d[i].0, d[i].1, d[j].0, d[j].1); } } if d[i].1 == 0 { assert!(d[i].0 <= 1, "{l:?}: repeated samples along a zero stride, none reported"); } }
}
/// views accept exactly long enough buffers and show the addressed samples
pub fn views<N: Nd>(n: &mut N) {
    let l = small(n);
    let m = exact_min(&l).unwrap();
    let len = (m + 2).saturating_sub(n.range(0, 4));
    let data: Vec<u8> = (0..len).map(|i| i as u8 + 1).collect();
    let mut f = FlatSamples { samples: data.clone(), layout: l, color_hint: None };
    let what = format!("{l:?} over {len} samples");
    let ok = m <= len;
    for y in 0..=l.height { for x in 0..=l.width { for c in 0..=l.channels {
        let e = l.index(c, x, y).filter(|&i| i < len).map(|i| data[i]);
        assert_eq!(f.get_sample(c, x, y).copied(), e, "{what}: get_sample({c},{x},{y})");
        assert_eq!(f.get_mut_sample(c, x, y).copied(), e);
        if e.is_some() { assert_eq!(f[(c, x, y)], e.unwrap()); } else { assert!(catch(|| f[(c, x, y)]).is_none(), "{what}: indexing out of bounds did not panic"); }
    } } }
    assert_eq!(f.image_slice().map(|s| s.len()), if ok { Some(m) } else { None }, "{what}: image_slice");
    assert_eq!(f.image_mut_slice().map(|s| s.len()), if ok { Some(m) } else { None }, "{what}: image_mut_slice");
    macro_rules! pix { ($P:ty, $k:expr) => {{
        let want = l.channels == $k && ok;
        let v = f.as_view::<$P>();
        assert_eq!(v.is_ok(), want, "{what}: as_view with {} channels", $k);
        let rd = |x: u32, y: u32| -> Vec<u8> { (0..$k as u8).map(|c| data[l.index(c, x, y).unwrap()]).collect() };
        if let Ok(v) = v {
            assert_eq!((v.dimensions(), v.min_length(), v.image_slice().len()), ((l.width, l.height), m, m), "{what}");
            for y in 0..=l.height { for x in 0..=l.width {
                if x < l.width && y < l.height { assert_eq!(v.get_pixel(x, y).channels(), &rd(x, y)[..], "{what}: pixel ({x},{y})"); for c in 0..$k as u8 { assert_eq!(v.get_sample(c, x, y).copied(), Some(rd(x, y)[c as usize])); } assert!(v.get_sample($k as u8, x, y).is_none()); }
                else { assert!(catch(|| v.get_pixel(x, y)).is_none(), "{what}: pixel ({x},{y}) is out of bounds"); assert!(v.get_sample(0, x, y).is_none()); } } }
            let mut v = v; v.shrink_to(2, 1);
            assert_eq!(v.dimensions(), (l.width.min(2), l.height.min(1)));
            for y in 0..v.height() { for x in 0..v.width() { assert_eq!(v.get_pixel(x, y).channels(), &rd(x, y)[..], "{what}: shrunk view pixel ({x},{y})"); } }
        }
        let normal = l.is_normal(NormalForm::PixelPacked);
        let mut g = f.clone();
        { let vm = g.as_view_with_mut_samples::<$P>(); assert_eq!(vm.is_ok(), want, "{what}: as_view_with_mut_samples"); if let Ok(vm) = vm { let up = vm.try_upgrade(); assert_eq!(up.is_ok(), normal, "{what}: try_upgrade"); } }
        if want {
            // sample writes reach exactly the addressed sample
            let mut g = f.clone(); let mut e = data.clone();
            { let mut vm = g.as_view_with_mut_samples::<$P>().unwrap(); for y in 0..l.height { for x in 0..l.width { for c in 0..$k as u8 { let val = 100 + (x * 9 + y * 3 + c as u32) as u8; *vm.get_mut_sample(c, x, y).unwrap() = val; e[l.index(c, x, y).unwrap()] = val; } } } assert_eq!(vm.image_mut_slice().len(), m); }
            assert_eq!(g.samples, e, "{what}: writes through get_mut_sample");
        }
        let mut g = f.clone(); let mut e = data.clone();
        let vm = g.as_view_mut::<$P>(); assert_eq!(vm.is_ok(), want && normal, "{what}: as_view_mut");
        if let Ok(mut vm) = vm {
            for y in 0..l.height { for x in 0..l.width {
                assert_eq!(vm.get_pixel(x, y).channels(), &rd(x, y)[..], "{what}: mutable view pixel ({x},{y})");
                let px: Vec<u8> = (0..$k as u8).map(|c| 100 + (x * 9 + y * 3 + c as u32) as u8).collect();
                vm.put_pixel(x, y, *<$P as Pixel>::from_slice(&px));
                for c in 0..$k as u8 { e[l.index(c, x, y).unwrap()] = px[c as usize]; }
            } }
            assert!(catch(|| vm.put_pixel(l.width, 0, *<$P as Pixel>::from_slice(&[0; $k]))).is_none());
            assert_eq!((vm.dimensions(), vm.min_length(), vm.image_slice().len(), vm.image_mut_slice().len()), ((l.width, l.height), m, m, m));
            assert_eq!(g.samples, e, "{what}: writes through the mutable view");
        }
        // into an image buffer: only row-major packed
        let g = f.clone(); let rm = l.is_normal(NormalForm::RowMajorPacked);
        match g.try_into_buffer::<$P>() {
            Ok(b) => { assert!(want && rm, "{what}: try_into_buffer accepted"); for y in 0..l.height { for x in 0..l.width { assert_eq!(b.get_pixel(x, y).channels(), &rd(x, y)[..], "{what}: buffer pixel ({x},{y})"); } } }
            Err(_) => assert!(!(want && rm), "{what}: try_into_buffer refused"),
        }
    }} }
    match l.channels { 1 => pix!(Luma<u8>, 1), 2 => pix!(LumaA<u8>, 2), _ => pix!(Rgb<u8>, 3) }
}
/// the layouts that image buffers hand out, and the monochrome layout
pub fn from_buffers<N: Nd>(n: &mut N) {
    let (w, h, extra) = (n.r32(0, 4), n.r32(0, 4), n.range(0, 5));
    let data: Vec<u8> = (0..(w * h * 3) as usize + extra).map(|i| i as u8).collect();
    let mut b: ImageBuffer<Rgb<u8>, Vec<u8>> = ImageBuffer::from_raw(w, h, data.clone()).unwrap();
    let chk = |l: SampleLayout, len: usize| { assert_eq!((l.channels, l.width, l.height), (3, w, h)); assert!(l.fits(len), "layout of {w}x{h} does not fit its own samples"); for y in 0..h { for x in 0..w { for c in 0..3u8 { assert_eq!(l.index(c, x, y), Some((((y * w + x) * 3) + c as u32) as usize)); } } } };
    { let f = b.as_flat_samples(); chk(f.layout, f.samples.len()); assert!(f.as_view::<Rgb<u8>>().is_ok()); }
    { let mut f = b.as_flat_samples_mut(); chk(f.layout, f.samples.len()); if w > 0 && h > 0 { assert!(f.as_view_mut::<Rgb<u8>>().is_ok()); } }
    assert_eq!(chk(b.sample_layout(), data.len()), ());
    let f = b.clone().into_flat_samples(); chk(f.layout, f.samples.len());
    if w > 0 && h > 0 { let r = f.try_into_buffer::<Rgb<u8>>(); assert!(r.is_ok()); assert_eq!(r.ok().unwrap(), b); }
    let p = Rgb([1u8, 2, 3]);
    let (mw, mh) = (n.u32(), n.u32());
    let f = FlatSamples::with_monocolor(&p, mw, mh);
    let v = f.as_view::<Rgb<u8>>().unwrap();
    assert_eq!(v.dimensions(), (mw, mh));
    if mw > 0 && mh > 0 { let (x, y) = (n.r32(0, mw - 1), n.r32(0, mh - 1)); assert_eq!(v.get_pixel(x, y), p); if mw > 1 || mh > 1 { assert!(f.has_aliased_samples(), "with_monocolor {mw}x{mh}"); } }
}
entries! {"C06";
    indices Fuzz "index, index_ignoring_bounds, in_bounds, min_length, fits, shrink_to: all layouts, against 128-bit arithmetic",
    aliasing_small Enum "has_aliased_samples, is_normal, *_major_packed: layouts up to 3x3x3 with strides up to 4/7/9, all collisions enumerated",
    aliasing_big Fuzz "has_aliased_samples: all layouts, corner samples",
    views Fuzz "as_view, as_view_mut, as_view_with_mut_samples, try_upgrade, try_into_buffer, get_sample: layouts up to 3x3x3, buffers too short, exact, too long",
    from_buffers Fuzz "layouts of image buffers; with_monocolor at any size",
}
