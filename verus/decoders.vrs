//@include limits.vrs
// how the decoders and the reader use Limits, and how they answer the orientation
use vstd::std_specs::cmp::*;
use core::marker::PhantomData;
verus! {
//@include panics.vrs
//@include io_read.vrs
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
//@include exif_core.vrs
pub open spec fn or_none(o: Option<Orientation>) -> Orientation { if o.is_some() { o.unwrap() } else { Orientation::NoTransforms } }
pub open spec fn bytes_of(d: Option<Vec<u8>>) -> Option<Seq<u8>> { if d.is_some() { Some(d.unwrap()@) } else { None } }
pub open spec fn exif_opt(d: Option<Seq<u8>>) -> Orientation { if d.is_some() { or_none(exif(d.unwrap())) } else { Orientation::NoTransforms } }
// what it means for a picture to be inside the limits
pub open spec fn within(l: Limits, d: (u32, u32)) -> bool { fits_dim(l.max_image_width, d.0) && fits_dim(l.max_image_height, d.1) }

// the part of ImageDecoder that limits and orientation go through
pub trait Decoder: Sized {
    spec fn d_wf(&self) -> bool;
    spec fn d_dims(&self) -> (u32, u32);
    // the orientation the picture was stored in
    spec fn d_orient(&self) -> Orientation;
    spec fn d_exif(&self) -> Option<Seq<u8>>;
    fn dimensions(&self) -> (r: (u32, u32)) ensures r == self.d_dims();
    fn exif_metadata(&mut self) -> (r: ImageResult<Option<Vec<u8>>>)
        requires old(self).d_wf(),
        ensures r is Ok ==> bytes_of(r->Ok_0) == old(self).d_exif(), final(self).d_wf(), final(self).d_exif() == old(self).d_exif(), final(self).d_dims() == old(self).d_dims(), final(self).d_orient() == old(self).d_orient();
    fn orientation(&mut self) -> (r: ImageResult<Orientation>)
        requires old(self).d_wf(),
        ensures r is Ok ==> r->Ok_0 == old(self).d_orient(), final(self).d_wf(), final(self).d_orient() == old(self).d_orient();
    fn set_limits(&mut self, limits: Limits) -> (r: ImageResult<()>)
        requires old(self).d_wf(),
        ensures r is Ok <==> within(limits, old(self).d_dims()), final(self).d_wf(), final(self).d_dims() == old(self).d_dims(), final(self).d_orient() == old(self).d_orient();
}
// the default bodies, for any decoder that does not override them
pub trait Defaults: Decoder {
//@fn src/image.rs orientation ctx="trait ImageDecoder" ret=res as=default_orientation
//@ closures 1
//@ closure 0 (Vec<u8>) -> (cr: Option<Orientation>)
    ensures cr == crate::exif($p0@)
//@ spec
    requires old(self).d_wf(),
    ensures res is Ok ==> res->Ok_0 == exif_opt(old(self).d_exif()),
//@end
}
impl<T: Decoder> Decoder for Box<T> {
    open spec fn d_wf(&self) -> bool { (**self).d_wf() }
    open spec fn d_dims(&self) -> (u32, u32) { (**self).d_dims() }
    open spec fn d_orient(&self) -> Orientation { (**self).d_orient() }
    open spec fn d_exif(&self) -> Option<Seq<u8>> { (**self).d_exif() }
//@fn src/image.rs dimensions ctx="ImageDecoder for Box < T >"
//@end
//@fn src/image.rs exif_metadata ctx="ImageDecoder for Box < T >"
//@end
//@fn src/image.rs orientation ctx="ImageDecoder for Box < T >"
//@end
//@fn src/image.rs set_limits ctx="ImageDecoder for Box < T >"
//@ sigsubst `crate::Limits` => `Limits`
//@end
}

// ---- assumed contracts of the external codecs: opaque, what they answer is named by spec functions ----
pub struct XErr { pub k: u8 }
impl ImageError {
    pub fn from_jpeg(e: XErr) -> ImageError { ImageError::Other }
    pub fn from_webp_decode(e: XErr) -> ImageError { ImageError::Other }
    pub fn from_tiff_decode(e: XErr) -> ImageError { ImageError::Other }
    pub fn from_png(e: XErr) -> ImageError { ImageError::Other }
}
pub mod zune_core {
    pub mod options {
        use vstd::prelude::*;
        pub struct DecoderOptions { pub w: usize, pub h: usize }
        impl DecoderOptions {
            #[verifier::external_body]
            pub fn default() -> (r: Self) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_strict_mode(self, b: bool) -> (r: Self) ensures r.w == self.w, r.h == self.h { unimplemented!() }
            #[verifier::external_body]
            pub fn jpeg_set_out_colorspace(self, c: crate::ZuneColorSpace) -> (r: Self) ensures r.w == self.w, r.h == self.h { unimplemented!() }
            #[verifier::external_body]
            pub fn set_max_width(self, w: usize) -> (r: Self) ensures r.w == w, r.h == self.h { unimplemented!() }
            #[verifier::external_body]
            pub fn set_max_height(self, h: usize) -> (r: Self) ensures r.h == h, r.w == self.w { unimplemented!() }
        }
    }
}
#[derive(Copy, Clone)]
pub enum ZuneColorSpace { RGB, RGBA, YCbCr, Luma, LumaA, YCCK, CMYK, BGR, BGRA, Unknown }
pub mod zune_jpeg {
    use vstd::prelude::*;
    use crate::XErr;
    use crate::zune_core::options::DecoderOptions;
    pub uninterp spec fn exif_of(d: Seq<u8>) -> Option<Seq<u8>>;
    pub struct JpegDecoder<'a> { pub d: &'a [u8], pub o: DecoderOptions }
    impl<'a> JpegDecoder<'a> {
        #[verifier::external_body]
        pub fn new_with_options(d: &'a [u8], o: DecoderOptions) -> (r: Self) ensures r.d@ == d@, r.o == o { unimplemented!() }
        #[verifier::external_body]
        pub fn decode_headers(&mut self) -> (r: Result<(), XErr>) ensures final(self).d == old(self).d { unimplemented!() }
        #[verifier::external_body]
        pub fn exif(&self) -> (r: Option<&Vec<u8>>) ensures (match r { Some(v) => Some(v@), None => None }) == exif_of(self.d@) { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn vx_cloned(o: Option<&Vec<u8>>) -> (r: Option<Vec<u8>>) ensures bytes_of(r) == (match o { Some(v) => Some(v@), None => None }) { o.cloned() }

// ---- JPEG ----
//@item src/codecs/jpeg/decoder.rs struct JpegDecoder vis=pub
impl<R> JpegDecoder<R> { pub closed spec fn given(&self) -> Limits { self.limits } pub closed spec fn cached(&self) -> Option<Orientation> { self.orientation } }
impl<R> Decoder for JpegDecoder<R> {
    // the cached orientation is that of the metadata
    closed spec fn d_wf(&self) -> bool { self.orientation.is_some() ==> self.orientation.unwrap() == exif_opt(zune_jpeg::exif_of(self.input@)) }
    closed spec fn d_dims(&self) -> (u32, u32) { (self.width as u32, self.height as u32) }
    closed spec fn d_orient(&self) -> Orientation { exif_opt(zune_jpeg::exif_of(self.input@)) }
    closed spec fn d_exif(&self) -> Option<Seq<u8>> { zune_jpeg::exif_of(self.input@) }
//@fn src/codecs/jpeg/decoder.rs dimensions ctx="ImageDecoder for JpegDecoder < R >"
//@end
//@fn src/codecs/jpeg/decoder.rs exif_metadata ctx="ImageDecoder for JpegDecoder < R >" ret=res
//@ subst? `decoder.exif().cloned()` => `vx_cloned(decoder.exif())`
//@ closures 1
//@ closure 0 (&Vec<u8>) -> (cr: Option<Orientation>)
    ensures cr == crate::exif($p0@)
//@ spec
    ensures res is Ok ==> final(self).cached().is_some(),
//@end
//@fn src/codecs/jpeg/decoder.rs orientation ctx="ImageDecoder for JpegDecoder < R >"
//@end
//@fn src/codecs/jpeg/decoder.rs set_limits ctx="ImageDecoder for JpegDecoder < R >" ret=res
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@ spec
    ensures res is Ok ==> final(self).given() == $n0,
//@end
}
//@fn src/codecs/jpeg/decoder.rs to_supported_color_space
//@ subst? `zune_core::colorspace::ColorSpace` => `ZuneColorSpace`
//@end
//@fn src/codecs/jpeg/decoder.rs new_zune_decoder ret=res
//@ sigsubst `zune_jpeg::JpegDecoder<&[u8]>` => `zune_jpeg::JpegDecoder<'_>`
//@ spec
    ensures res.d@ == $n0@, res.o.w == (match $n2.max_image_width { Some(w) => w as usize, None => usize::MAX }), res.o.h == (match $n2.max_image_height { Some(h) => h as usize, None => usize::MAX }),
//@end

// ---- WebP ----
pub mod image_webp {
    use vstd::prelude::*;
    use crate::XErr;
    pub struct WebPDecoder<R> { pub r: R }
    pub uninterp spec fn w_dims<R>(d: WebPDecoder<R>) -> (u32, u32);
    pub uninterp spec fn w_exif<R>(d: WebPDecoder<R>) -> Option<Seq<u8>>;
    impl<R> WebPDecoder<R> {
        #[verifier::external_body]
        pub fn dimensions(&self) -> (r: (u32, u32)) ensures r == w_dims(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn exif_metadata(&mut self) -> (r: Result<Option<Vec<u8>>, XErr>)
            ensures r is Ok ==> crate::bytes_of(r->Ok_0) == w_exif(*old(self)), w_exif(*final(self)) == w_exif(*old(self)), w_dims(*final(self)) == w_dims(*old(self)) { unimplemented!() }
    }
}
//@item src/codecs/webp/decoder.rs struct WebPDecoder vis=pub
impl<R> WebPDecoder<R> { pub closed spec fn cached(&self) -> Option<Orientation> { self.orientation } }
impl<R> Decoder for WebPDecoder<R> {
    closed spec fn d_wf(&self) -> bool { self.orientation.is_some() ==> self.orientation.unwrap() == exif_opt(image_webp::w_exif(self.inner)) }
    closed spec fn d_dims(&self) -> (u32, u32) { image_webp::w_dims(self.inner) }
    closed spec fn d_orient(&self) -> Orientation { exif_opt(image_webp::w_exif(self.inner)) }
    closed spec fn d_exif(&self) -> Option<Seq<u8>> { image_webp::w_exif(self.inner) }
//@fn src/codecs/webp/decoder.rs dimensions ctx="ImageDecoder for WebPDecoder < R >"
//@end
//@fn src/codecs/webp/decoder.rs exif_metadata ctx="ImageDecoder for WebPDecoder < R >" ret=res
//@ closures 1
//@ closure 0 (&Vec<u8>) -> (cr: Option<Orientation>)
    ensures cr == crate::exif($p0@)
//@ spec
    ensures res is Ok ==> final(self).cached().is_some(),
//@end
//@fn src/codecs/webp/decoder.rs orientation ctx="ImageDecoder for WebPDecoder < R >"
//@end
// not overridden: the default of the trait
//@fn src/image.rs set_limits ctx="trait ImageDecoder"
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ sigsubst `crate::Limits` => `Limits`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@end
}

// ---- TIFF ----
pub mod tiff {
    pub mod tags { pub enum Tag { Orientation, Other } }
    pub mod decoder {
        use vstd::prelude::*;
        use crate::XErr;
        pub struct Limits { pub decoding_buffer_size: usize, pub ifd_value_size: usize, pub intermediate_buffer_size: usize }
        impl Limits { #[verifier::external_body] pub fn default() -> (r: Limits) { unimplemented!() } }
        pub struct Value { pub k: u8 }
        pub uninterp spec fn v16(v: Value) -> Option<u16>;
        impl Value {
            #[verifier::external_body]
            pub fn into_u16(self) -> (r: Result<u16, XErr>) ensures r is Ok <==> v16(self).is_some(), r is Ok ==> r->Ok_0 == v16(self).unwrap() { unimplemented!() }
        }
        pub struct Decoder<R> { pub r: R }
        pub uninterp spec fn t_tag<R>(d: Decoder<R>) -> Option<Value>;
        pub uninterp spec fn t_limits<R>(d: Decoder<R>) -> Limits;
        impl<R> Decoder<R> {
            #[verifier::external_body]
            pub fn find_tag(&mut self, t: crate::tiff::tags::Tag) -> (r: Result<Option<Value>, XErr>)
                ensures t_tag(*final(self)) == t_tag(*old(self)), r is Ok && t is Orientation ==> r->Ok_0 == t_tag(*old(self)) { unimplemented!() }
            #[verifier::external_body]
            pub fn with_limits(self, l: Limits) -> (r: Self) ensures t_tag(r) == t_tag(self), t_limits(r) == l { unimplemented!() }
        }
    }
}
#[verifier::external_body]
pub fn vx_sat_usize(v: u64) -> (r: usize) ensures r == v { v as usize }
//@item src/codecs/tiff.rs struct TiffDecoder vis=pub sub="BufRead + Seek=>Sized"
pub open spec fn tiff_orient<R>(d: tiff::decoder::Decoder<R>) -> Orientation {
    match tiff::decoder::t_tag(d) { Some(v) => match tiff::decoder::v16(v) { Some(x) => or_none(decode(x as int)), None => Orientation::NoTransforms }, None => Orientation::NoTransforms }
}
impl<R> TiffDecoder<R> {
    pub closed spec fn x_limits(&self) -> tiff::decoder::Limits { tiff::decoder::t_limits(self.inner.unwrap()) }
    pub closed spec fn x_color(&self) -> ColorType { self.color_type }
    pub closed spec fn x_cmyk(&self) -> bool { self.original_color_type == ExtendedColorType::Cmyk8 }
    // CMYK is decoded to four 32-bit samples before it is converted
    pub open spec fn x_bytes(&self) -> int { smin64(self.d_dims().0 * self.d_dims().1 * (if self.x_cmyk() { 16 } else { cbytes(self.x_color()) })) }
//@fn src/codecs/tiff.rs color_type ctx="ImageDecoder for TiffDecoder < R >" ret=res
//@ spec
    ensures res == self.x_color(),
//@end
//@fn src/codecs/tiff.rs total_bytes_buffer ret=res
//@ spec
    ensures res == self.x_bytes(),
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound(self.d_dims().0 as int, u32::MAX as int, self.d_dims().1 as int, u32::MAX as int); }
//@end
}
impl<R> Decoder for TiffDecoder<R> {
    closed spec fn d_wf(&self) -> bool { self.inner.is_some() }
    closed spec fn d_dims(&self) -> (u32, u32) { self.dimensions }
    closed spec fn d_orient(&self) -> Orientation { tiff_orient(self.inner.unwrap()) }
    closed spec fn d_exif(&self) -> Option<Seq<u8>> { None }
//@fn src/codecs/tiff.rs dimensions ctx="ImageDecoder for TiffDecoder < R >"
//@end
//@fn src/image.rs exif_metadata ctx="trait ImageDecoder"
//@end
//@fn src/codecs/tiff.rs orientation ctx="ImageDecoder for TiffDecoder < R >"
//@ closures 1
//@ closure 0 (tiff::decoder::Value) -> (cr: Option<Orientation>)
    ensures cr == (match tiff::decoder::v16($p0) { Some(x) => decode(x as int), None => None })
//@end
//@fn src/codecs/tiff.rs set_limits ctx="ImageDecoder for TiffDecoder < R >" ret=res
//@ sigsubst `crate::Limits` => `Limits`
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@ subst? `Default::default()` => `tiff::decoder::Limits::default()`
//@ subst? `usize::try_from($A).unwrap_or(usize::MAX)` => `vx_sat_usize($A)`
//@ spec
    // the budget is split between the picture and the codec's own buffers, and nothing is given twice
    ensures res is Ok ==> ({ let m = (if $n0.max_alloc.is_some() { $n0.max_alloc.unwrap() as int } else { u64::MAX as int }); let l = final(self).x_limits();
        l.decoding_buffer_size == (if old(self).x_bytes() < m { old(self).x_bytes() } else { m }) && l.decoding_buffer_size + l.intermediate_buffer_size == m && l.ifd_value_size == l.intermediate_buffer_size }),
//@end
}

// ---- GIF ----
pub mod gif {
    use vstd::prelude::*;
    pub struct Decoder<R> { pub r: R, pub w: u16, pub h: u16 }
    impl<R> Decoder<R> {
        #[verifier::external_body]
        pub fn width(&self) -> (r: u16) ensures r == self.w { unimplemented!() }
        #[verifier::external_body]
        pub fn height(&self) -> (r: u16) ensures r == self.h { unimplemented!() }
    }
}
//@item src/codecs/gif.rs struct GifDecoder vis=pub sub="R: Read=>R"
impl<R> GifDecoder<R> { pub closed spec fn given(&self) -> Limits { self.limits } }
impl<R> Decoder for GifDecoder<R> {
    open spec fn d_wf(&self) -> bool { true }
    closed spec fn d_dims(&self) -> (u32, u32) { (self.reader.w as u32, self.reader.h as u32) }
    open spec fn d_orient(&self) -> Orientation { Orientation::NoTransforms }
    open spec fn d_exif(&self) -> Option<Seq<u8>> { None }
//@fn src/codecs/gif.rs dimensions ctx="ImageDecoder for GifDecoder < R >"
//@end
//@fn src/image.rs exif_metadata ctx="trait ImageDecoder"
//@end
//@fn src/image.rs orientation ctx="trait ImageDecoder"
//@ closures 1
//@ closure 0 (Vec<u8>) -> (cr: Option<Orientation>)
    ensures cr == crate::exif($p0@)
//@end
//@fn src/codecs/gif.rs set_limits ctx="ImageDecoder for GifDecoder < R >" ret=res
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@ spec
    ensures res is Ok ==> final(self).given() == $n0,
//@end
}

// ---- PNG ----
pub mod png {
    use vstd::prelude::*;
    use crate::XErr;
    #[derive(Copy, Clone)]
    pub enum ColorType { Grayscale, Rgb, Indexed, GrayscaleAlpha, Rgba }
    #[derive(Copy, Clone)]
    #[repr(u8)]
    pub enum BitDepth { One = 1, Two = 2, Four = 4, Eight = 8, Sixteen = 16 }
    #[derive(Copy, Clone)]
    pub struct Transformations { pub k: u32 }
    impl Transformations { pub const EXPAND: Transformations = Transformations { k: 16 }; }
    pub struct Limits { pub bytes: usize }
    pub struct Info { pub width: u32, pub height: u32 }
    impl Info {
        #[verifier::external_body]
        pub fn size(&self) -> (r: (u32, u32)) ensures r == (self.width, self.height) { unimplemented!() }
    }
    // what the stream declares
    pub uninterp spec fn p_info<R>(r: R) -> Info;
    pub struct Decoder<R> { pub r: R, pub l: Limits }
    pub struct Reader<R> { pub r: R, pub l: Limits }
    impl<R> Decoder<R> {
        #[verifier::external_body]
        pub fn new_with_limits(r: R, l: Limits) -> (d: Self) ensures d.r == r, d.l == l { unimplemented!() }
        #[verifier::external_body]
        pub fn set_ignore_text_chunk(&mut self, b: bool) ensures final(self).r == old(self).r, final(self).l == old(self).l { unimplemented!() }
        #[verifier::external_body]
        pub fn set_transformations(&mut self, t: Transformations) ensures final(self).r == old(self).r, final(self).l == old(self).l { unimplemented!() }
        #[verifier::external_body]
        pub fn read_header_info(&mut self) -> (i: Result<&Info, XErr>) ensures final(self).r == old(self).r, final(self).l == old(self).l, i is Ok ==> *i->Ok_0 == p_info(old(self).r) { unimplemented!() }
        #[verifier::external_body]
        pub fn read_info(self) -> (d: Result<Reader<R>, XErr>) ensures d is Ok ==> d->Ok_0.r == self.r && d->Ok_0.l == self.l { unimplemented!() }
    }
    impl<R> Reader<R> {
        #[verifier::external_body]
        pub fn info(&self) -> (i: &Info) ensures *i == p_info(self.r) { unimplemented!() }
        #[verifier::external_body]
        pub fn output_color_type(&self) -> (r: (ColorType, BitDepth)) { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn unsupported_color(c: ExtendedColorType) -> (r: ImageError) { unimplemented!() }
//@item src/codecs/png.rs struct PngDecoder vis=pub sub="R: BufRead + Seek=>R"
impl<R> PngDecoder<R> {
    pub closed spec fn given(&self) -> Limits { self.limits }
    pub closed spec fn x_max(&self) -> usize { self.reader.l.bytes }
    pub closed spec fn x_src(&self) -> R { self.reader.r }
//@fn src/codecs/png.rs with_limits ctx="PngDecoder" ret=res vis=pub
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@ subst? `usize::try_from($A).unwrap_or(usize::MAX)` => `vx_sat_usize($A)`
//@ spec
    ensures res is Ok ==> within($n1, res->Ok_0.d_dims()) && res->Ok_0.given() == $n1 && res->Ok_0.x_src() == $n0
        && res->Ok_0.x_max() == (if $n1.max_alloc.is_some() { $n1.max_alloc.unwrap() } else { u64::MAX }),
//@end
//@fn src/codecs/png.rs new ctx="PngDecoder" ret=res vis=pub
//@ spec
    ensures res is Ok ==> res->Ok_0.x_src() == $n0,
//@end
}
impl<R> Decoder for PngDecoder<R> {
    open spec fn d_wf(&self) -> bool { true }
    closed spec fn d_dims(&self) -> (u32, u32) { (png::p_info(self.reader.r).width, png::p_info(self.reader.r).height) }
    open spec fn d_orient(&self) -> Orientation { Orientation::NoTransforms }
    open spec fn d_exif(&self) -> Option<Seq<u8>> { None }
//@fn src/codecs/png.rs dimensions ctx="ImageDecoder for PngDecoder < R >"
//@end
//@fn src/image.rs exif_metadata ctx="trait ImageDecoder"
//@end
//@fn src/image.rs orientation ctx="trait ImageDecoder"
//@ closures 1
//@ closure 0 (Vec<u8>) -> (cr: Option<Orientation>)
    ensures cr == crate::exif($p0@)
//@end
//@fn src/codecs/png.rs set_limits ctx="ImageDecoder for PngDecoder < R >" ret=res
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@ spec
    ensures res is Ok ==> final(self).given() == $n0,
//@end
}

// ---- the reader: whatever decoder make_decoder hands out ----
#[derive(Copy, Clone)]
pub struct ImageFormat { pub k: u8 }
pub struct AnyDecoder { pub k: u8 }
pub uninterp spec fn a_dims(d: AnyDecoder) -> (u32, u32);
pub uninterp spec fn a_color(d: AnyDecoder) -> ColorType;
// the limits a decoder was told to keep
pub uninterp spec fn a_given(d: AnyDecoder) -> Option<Limits>;
impl AnyDecoder {
    #[verifier::external_body]
    pub fn total_bytes(&self) -> (r: u64) ensures r == img_bytes(a_dims(*self).0 as int, a_dims(*self).1 as int, a_color(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r == a_dims(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_limits(&mut self, limits: Limits) -> (r: ImageResult<()>)
        ensures r is Ok ==> within(limits, a_dims(*old(self))) && a_given(*final(self)) == Some(limits), a_dims(*final(self)) == a_dims(*old(self)), a_color(*final(self)) == a_color(*old(self)) { unimplemented!() }
}
pub struct DynamicImage { pub d: AnyDecoder }
impl DynamicImage {
    // the picture of that decoder
    #[verifier::external_body]
    pub fn from_decoder(d: AnyDecoder) -> (r: ImageResult<DynamicImage>) ensures r is Ok ==> r->Ok_0.d == d { unimplemented!() }
}
impl Clone for Limits {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item src/image_reader/image_reader_type.rs struct ImageReader vis=pub sub="R: Read + Seek=>R;;super::Limits=>Limits"
impl<R> ImageReader<R> {
    pub closed spec fn x_limits(&self) -> Limits { self.limits }
    pub closed spec fn x_inner(&self) -> R { self.inner }
    pub closed spec fn x_format(&self) -> Option<ImageFormat> { self.format }
    #[verifier::external_body]
    pub fn make_decoder(format: ImageFormat, reader: R, limits_for_png: Limits) -> (r: ImageResult<AnyDecoder>) { unimplemented!() }
    #[verifier::external_body]
    pub fn require_format(&mut self) -> (r: ImageResult<ImageFormat>) ensures *final(self) == *old(self), r is Ok <==> old(self).x_format().is_some(), r is Ok ==> r->Ok_0 == old(self).x_format().unwrap() { unimplemented!() }
//@fn src/image_reader/image_reader_type.rs new ret=res vis=pub
//@ subst? `super::Limits` => `Limits`
//@ spec
    ensures is_default(res.x_limits()), res.x_inner() == $n0, res.x_format().is_none(),
//@end
//@fn src/image_reader/image_reader_type.rs with_format ret=res vis=pub
//@ subst? `super::Limits` => `Limits`
//@ spec
    ensures is_default(res.x_limits()), res.x_inner() == $n0, res.x_format() == Some($n1),
//@end
//@fn src/image_reader/image_reader_type.rs no_limits vis=pub
//@ subst? `super::Limits` => `Limits`
//@ spec
    ensures final(self).x_limits().max_alloc.is_none(), final(self).x_limits().max_image_width.is_none(), final(self).x_limits().max_image_height.is_none(),
        final(self).x_inner() == old(self).x_inner(), final(self).x_format() == old(self).x_format(),
//@end
//@fn src/image_reader/image_reader_type.rs limits vis=pub
//@ sigsubst `super::Limits` => `Limits`
//@ spec
    ensures final(self).x_limits() == $n0, final(self).x_inner() == old(self).x_inner(), final(self).x_format() == old(self).x_format(),
//@end
//@fn src/image_reader/image_reader_type.rs into_decoder ret=res vis=pub
//@ sigsubst `impl ImageDecoder + 'a` => `AnyDecoder`
//@ sigsubst `mut self` => `vxs0: Self`
//@ subst `self` => `vxs`
//@ spec
    ensures res is Ok ==> within(vxs0.x_limits(), a_dims(res->Ok_0)) && a_given(res->Ok_0) == Some(vxs0.x_limits()),
//@ at body.start
    let mut vxs = vxs0;
//@end
//@fn src/image_reader/image_reader_type.rs decode ret=res vis=pub
//@ sigsubst `mut self` => `vxs0: Self`
//@ subst `self` => `vxs`
//@ spec
    // nothing larger than the limits is ever decoded, and the decoder works within what the picture itself leaves over
    ensures res is Ok ==> ({ let d = res->Ok_0.d; let n = img_bytes(a_dims(d).0 as int, a_dims(d).1 as int, a_color(d));
        &&& within(vxs0.x_limits(), a_dims(d))
        &&& fits_alloc(vxs0.x_limits().max_alloc, n)
        &&& a_given(d).is_some() && same_dims(a_given(d).unwrap(), vxs0.x_limits()) && a_given(d).unwrap().max_alloc == spent(vxs0.x_limits().max_alloc, n) }),
//@ at body.start
    let mut vxs = vxs0;
//@end
}
pub open spec fn is_default(l: Limits) -> bool { l.max_image_width.is_none() && l.max_image_height.is_none() && l.max_alloc == Some(536870912u64) }
}
