STD = 'std contracts listed as assume_specification'
VIEW = 'GenericImageView/GenericImage implementors satisfy the pointwise get/put contract of verus/prelude_image.vrs (proved for ImageBuffer under C01, for SubImage under C05)'
VZ = 'Verus 0.2026.09.13 and Z3; the extractor tools/vx.py'
PIX = 'Pixel implementors satisfy the contract of the Pixel trait in the unit (views of CHANNEL_COUNT samples; checked for the concrete types under C08)'
PROPS = {
    'C01': dict(verus=['buffer'], trusted=[PIX, VZ, 'indexing and slice::get by a range (vx_idx*, vx_get*) behave as documented by core'],
                note='Unbounded proof of the ImageBuffer constructors (from_pixel and from_fn included, over the row-major walk C02 proves), accessors, Index/IndexMut, Clone, Default and GenericImage(View) impl (unsafe variants and blend_pixel included) for every size, container length and channel count up to 255; Container instantiated as Vec.',
                assumptions=['from_fn is proved for makers without internal state (Fn instead of FnMut)', 'Container = Vec<Subpixel>; the public buffer invariant (container long enough) is established by from_raw and kept by put_pixel/get_pixel_mut']),
    'C02': dict(verus=['iters', 'gpixels'], trusted=[PIX, VIEW, VZ, 'chunks_exact/chunks_exact_mut and their iterators behave as documented by core (stand-in types of verus/iters.vrs, checked against the real ones by the stand-in)'],
                note='Unbounded proof of every ImageBuffer pixel/row iterator (next, next_back, len, size_hint, clone) and of the generic Pixels iterator: item k is pixel (k mod w, k div w), the k items cover every coordinate once; write-through of the mutable iterators only by the executable contract.',
                assumptions=['EnumeratePixels*/EnumerateRows*: not called again after the end when the height is 2^32-1']),
    'C03': dict(verus=['dynimage'], trusted=[VIEW, VZ],
                note='Unbounded proof of every function of imageops/affine.rs, and of DynamicImage rotate*/flip*/apply_orientation for the ten layouts and eight orientations, over the assumed get/put contract of images.',
                assumptions=['dynamic_map! is expanded by the extractor (by-example expansion of the macro_rules of src/dynimage.rs)']),
    'C04': dict(verus=['compose'], trusted=[VIEW, VZ],
                note='Unbounded proof of overlay_bounds, overlay_bounds_ext, overlay, replace, tile over the assumed get/put contract of images; Range::step_by items are an assumed contract.',
                assumptions=['tile requires a non-empty tile']),
    'C05': dict(verus=['dyncrop', 'buffer_copy'], trusted=[VIEW, VZ, PIX, 'slice::copy_within behaves as documented by core; a Vec holds at most isize::MAX elements of a non-zero-sized type'],
                note='Unbounded proof of crop, crop_imm, crop_dimms, SubImage (new, bounds, view, sub_image, to_image, get/put), view, sub_image, copy_from and copy_within (provided method and ImageBuffer override) and DynamicImage::crop/crop_imm for the ten layouts over the get/put contract.',
                assumptions=['64-bit usize', 'windows made by SubImage::new/change_bounds outside the parent are outside the contract of get/put (the parent refuses)', 'dynamic_map! is expanded by the extractor']),
    'C06': dict(verus=['flat'], trusted=[VZ, 'AsRef/AsMut of a sample container return its slice of fixed length; slice::sort sorts; Iterator::any', 'Pixel::from_slice* view CHANNEL_COUNT samples'],
                note='Unbounded proof of SampleLayout (index, min_length, fits, in_bounds, has_aliased_samples, is_normal, shrink_to, packed layouts), its FlatSamples forwards, Index operators and try_into_buffer, the accessors and GenericImage implementation of View/ViewMut and try_upgrade.',
                assumptions=['64-bit usize', 'as_ref/as_mut/to_vec of FlatSamples are covered by the bounded stand-in only']),
    'C07': dict(verus=['limits', 'decoders'], verus_own={'decoders': '(?!.*orientation|exif_metadata|from_exif|to_exif|from_exif_chunk).*'}, trusted=[VZ, 'the external codecs (png, gif, tiff, zune-jpeg, image-webp) declare the size they decode and keep the limits they are given (opaque types of verus/decoders.vrs)', 'u64/u32 saturating and checked arithmetic and TryFrom as specified by vstd', 'error values are reduced to their kind'],
                note='Unbounded proof of Limits (defaults, check_dimensions, reserve*, free*), ImageDecoder::total_bytes/set_limits defaults, the byte-size tables, set_limits of the PNG, GIF, JPEG, TIFF and WebP decoders and of boxed decoders, PngDecoder::with_limits, and ImageReader (defaults, limits, no_limits, into_decoder, decode): nothing outside the limits is decoded and the decoder is given exactly what is left.',
                assumptions=['64-bit usize', 'make_decoder is an unknown decoder satisfying the set_limits contract; allocations inside animation decoding are covered by the bounded stand-in only']),
    'C10': dict(verus=['delay'], trusted=[VZ, 'std::time::Duration is a whole number of nanoseconds with the documented constructors (stand-in type of verus/delay.vrs)'],
                note='Unbounded proof of Ratio (order, equality, integer part), Delay constructors and accessors, the Farey search (terminates, no overflow, closest fraction within the denominator bound, exact when representable), from_saturating_duration and Duration::from(Delay) for every duration.',
                assumptions=['the two nested helper functions of closest_bounded_fraction are verified as separate functions', 'Frame accessors by the executable contract']),
    'C11': dict(verus=['exif', 'decoders'], verus_own={'decoders': '.*orientation|exif_metadata|from_exif|to_exif|from_exif_chunk'}, trusted=[VZ, 'the external codecs hand out the metadata of the stream they read (opaque types of verus/decoders.vrs)', 'std::io::Cursor and byteorder reads behave as documented (stand-in types of verus/io_read.vrs)'],
                note='Unbounded proof of from_exif/to_exif (bijection) and from_exif_chunk against a full specification of the TIFF directory scan, for every blob; the default ImageDecoder::orientation, the JPEG, WebP and TIFF decoders (cached answers included) and boxed decoders answer the orientation of that metadata.',
                assumptions=['64-bit usize', 'Box<T>: verified for sized T (the text is the same for dyn)']),
    'C12': dict(verus=['format', 'fmt_tables'], trusted=[VZ, 'slice::starts_with and Iterator zip/chain/all as documented', 'the static table is read as its literal (translated mechanically)', 'a string value is determined by its characters; str::to_ascii_lowercase, OsStr::to_str and Path::extension as documented (opaque types of verus/fmt_tables.vrs)'],
                note='Unbounded proof that guess_format_impl/guess_format answer a format exactly when a documented signature is present, for every byte string (signature table translated from the source on every run), that from_extension, from_path and from_mime_type answer the documented tables for every string, that every extension and media type listed for a format maps back to it, and that all() lists every format once. The executable contract enumerates the tables in every letter case.',
                assumptions=['the generic wrappers of from_extension/from_path (as_ref) are the nested functions that are verified']),
    'C13': dict(verus=['dxt'], trusted=[VZ, 'std::io::Read and byteorder reads: a reader is the sequence of bytes still to come (trait contract of verus/rw.vrs)', 'slice range indexing, copy_from_slice, chunks().enumerate(), chunks_mut and iter().rev().fold as documented by core'],
                note='Unbounded proof that every block of the three variants decodes to the S3TC texels (endpoint expansion, colour interpolation, alpha tables and codes), every row of blocks lands at its place, the whole-image read decodes row by row, and dimensions that are not multiples of four are refused; that the DDS reader accepts every well-formed header of the three variants (four character code or extended header), takes size, variant and start of the blocks from it, and refuses everything else.',
                assumptions=['64-bit usize', 'read_image is verified with total_bytes() passed as an argument equal to the length of the buffer']),
    'C14': dict(verus=['tga'], trusted=[VZ, 'std::io::{Read, Write} as the sequence of bytes still to come / written (trait contracts of verus/rw.vrs)', 'slice::chunks, Vec::resize/extend, iter().cycle().take() as documented by core'],
                note='Unbounded proof that encode writes exactly one header (type, size, depth, alpha bits, top-left origin) and the pixels in file order or packets of at most 128 pixels that expand to them, that the decoder accepts exactly the streams whose header describes a supported layout and whose colour map is complete, that read_image returns exactly the stored bytes (run-length packets expanded, indices looked up in the colour map, red and blue changed over, rows turned upright) or an error and never panics, and the lemma that decoding what was encoded gives the image back, for every image and whatever follows it in the stream. The executable contract repeats all of this on the built crate.',
                assumptions=['64-bit usize', 'no slice is longer than isize::MAX bytes', 'ImageDecoder::total_bytes is width*height*bytes per pixel, saturating (C07)', 'read_image takes self by reference in the verified text (it is dropped afterwards)', 'conversion of an io::Error into an ImageError and the payloads of errors are not observed']),
    'C15': dict(verus=['jpeg', 'fdct'], trusted=[VZ, 'std::io::Write as the sequence of bytes written (trait contract of verus/rw.vrs)', 'a static holds the value of its initialiser (the initialisers themselves are verified)', 'unsigned_abs, Vec, chunks, step_by, u16::try_from as documented', 'transform::fdct as a function of the block (unit jpeg); that its results stay in the assumed range and that it is the DCT is proved in unit fdct', 'to_luma and to_rgb give samples that fit a byte (the conversions are under contract in C08)', '`((d / 8) as f32 / q as f32).round()` is the nearest integer to the quotient (exact at this size)'],
                note='Unbounded proof that the bit writer emits exactly the bits handed to it with 0xFF stuffing, that coefficients get the category and extra bits from which EXTEND recovers them, that a block is coded as F.1.2 says (DC difference, zero runs, zigzag order, end of block), that Annex C code derivation yields prefix-free codes, that the four standard tables are valid and cover every symbol, that quantiser entries are the libjpeg scaling clamped to 1..255, and of the whole file: every marker segment byte for byte (JFIF, ICC slices, frame, quantisers in zigzag order, Huffman tables, scan), the colour transform within rounding of BT.601, 8x8 blocks with repeated edges in scan order, components interleaved, each quantised and coded against the previous block of its component, one-bits up to the byte and EOI, with nothing left behind for the next image of the same encoder; and that the fast transform computes, for every block, the two passes of the eight-point DCT of Annex A.3.3 to within one unit of its own scale per row and two per column, without overflow.',
                assumptions=['64-bit usize', 'samples convert to bytes (16-bit and float samples beyond 255 make to_u8().unwrap() panic)', 'jpeg relies on the range of fdct proved in unit fdct']),
    'C17': dict(verus=['hdr'], trusted=[VZ, 'std::io::Read as the sequence of bytes still to come (trait contract of verus/rw.vrs)', 'iter().take_while().take().count(), slice range indexing and fill loops as documented by core'],
                note='Unbounded proof that the packets of rle_compress (RunIterator, NorunCombineIterator) expand to exactly the data with counts in the allowed range, that decode_component inverts it, accepts exactly the packet sequences that fill the scanline and never stores outside it, and that read_scanline / decode_old_rle decode both scanline forms as specified for every byte stream; pixel conversion and the whole file by executable contract.',
                assumptions=['64-bit usize', 'the callback of decode_component is verified as a store into the component plane; read_scanline uses that contract per channel', 'gathering scanlines into planes, header text and float conversion are covered by the bounded stand-in only']),
    'C18': dict(verus=['packing', 'farbfeld'], trusted=[VZ, 'std::io::{Read, Write} as the sequence of bytes still to come / written (trait contracts of verus/rw.vrs)', 'integer to/from bytes conversions of core (verus/bytes.vrs); native order is an unknown constant', 'range/flat_map/zip/skip/step_by iterators of expand_packed as documented (vx_fields, vx_steps, vx_zip)'],
                note='Unbounded proof that expand_bits puts every field of every row at its place scaled to 0..255 and drops row padding, that expand_palette gives every pixel the colour of its index (in-place, back to front), that the farbfeld encoder writes magic, big-endian dimensions and samples, that the reader accepts exactly well-formed headers of representable size and returns the samples in native order for any read sizes, and that reading inverts writing.',
                assumptions=['64-bit usize', 'expand_packed at the only bit depth and channel count used (8, 4)', 'read_exact calls read until the buffer is full (std)', 'Seek and read_rect are under C19']),
    'C16': dict(verus=['bmp_enc', 'bmp_dec'], trusted=[VZ, 'std::io::{Read, Write, Seek} as the bytes still to come / written / addressed (trait contracts of verus/rw.vrs)', 'chunks_mut and slice range indexing as documented by core', 'integer to/from bytes conversions of core (verus/bytes.vrs)'],
                note='Unbounded proof that the encoder writes exactly one well-formed BMP file (headers with exact sizes, palette, rows bottom-up with zero padding, channel order), that the decoder reads 16/24/32-bit pixel data by the masks and palettised data (1/2/4/8 bit runs) row by row with the padding skipped in either row order, that channel masks are accepted exactly when contiguous and at most 8 bits deep after scaling, that run-length data is accepted exactly when its instructions stay inside the picture and the stream, each moving the cursor as the format says (ends of rows, deltas, absolute and repeated runs), and that none of this indexes outside the row or panics; the pixels of run-length data, header parsing and the whole file by executable contract.',
                assumptions=['64-bit usize', 'with_rows is verified against the contract of its row callback, and its calls use that contract (closures become row-function types)', 'header parsing, the zeros that run-length data skips, the place of its rows in the buffer (assumed of chunks_mut and its rev: as many whole rows as fit) and ICO by the bounded stand-in only', 'custom palettes of fewer than 2^30 entries']),
    'C21': dict(verus=['pnm_text'], trusted=[VZ, 'std::io::Write::write writes a prefix or fails having written nothing (trait contract of verus/pnm_text.vrs)', 'Display of an integer writes its decimal digits in one piece; write!/writeln! write the pieces of the format string in order', 'slice iter/all/map, Vec::drain as documented'],
                note='Unbounded proof that AutoBreak lays items out greedily (an item that would overflow the line starts the next one) whatever the underlying writer accepts per call, that write_samples_ascii writes exactly the layout of the decimal samples, that this text consists of digits and white space, has no line above 70 characters and scans back to the numbers written, and that no sample above the maximum of the chosen header gets past check_sample_values, that encode chooses a header of the size, depth, maximum and format of the image (dynamic, by subtype or given) and refuses buffers of another length; header text by executable contract.',
                assumptions=['64-bit usize', 'samples fit the declared colour type (documented precondition of check_sample_values)', 'the end of the AutoBreak value runs Drop::drop (inserted by substitution)', 'binary PNM bodies are outside this property']),
    'C19': dict(verus=['load_rect', 'farbfeld_seek'], trusted=[VZ, 'the decoder behind load_rect as a cursor over the scanlines of its image (trait contract of verus/load_rect.vrs); std::io::{Read, Seek} as in verus/rw.vrs', 'chunks_mut/zip and slice range indexing as documented by core; Read::read_exact of std calls read until the buffer is full', 'integer to/from bytes conversions of core (verus/bytes.vrs)'],
                note='Unbounded proof, for any scanline length, rectangle and row pitch, that load_rect puts byte i of row k of the rectangle at k*pitch+i, leaves the padding alone, rejects empty and outside rectangles and leaves the decoder at its start; that ImageReadBuffer hands out exactly the next bytes of the image whatever the sizes of the reads and reports the end only at the end; that the farbfeld reader seeks to exactly the byte asked for and that the two callbacks of its read_rect seek to and read sample k. BMP read_rect by executable contract.',
                assumptions=['64-bit usize', 'width*height*bytes_per_pixel of the request fits in u64 and the buffer reaches to the last row (documented)', 'farbfeld Seek for even positions from an uncached state (all read_rect uses)', 'the bytes of the image are whole scanlines']),
    'C08': dict(verus=['color', 'gray'], verus_thorough=['color_fp'], trusted=[VZ, 'Rust f32/f64 arithmetic, comparisons and casts are the IEEE 754 operations of the SMT theory of floats (axioms of verus/floats.vrs); f32::max/min/clamp/round as documented', 'num_traits::NumCast::from: value towards zero when it fits (vx_f32_u8 etc.)', 'Pixel::from_slice (unsafe cast) views exactly CHANNEL_COUNT samples'],
                note='Unbounded proof for every sample value that each FromPrimitive impl clamps, rounds and never panics, that widening then narrowing (8-16-8 bit, 8 bit-float-8 bit) is the identity, that all 16 FromColor impls (for every pair of sample types) keep channels and alpha in place, make added alpha opaque and replicate gray, that gray is the Rec. 709 mean (integers: exact truncated mean; f32: the formula in f64), and the same of to_rgb/to_rgba/to_luma/to_luma_alpha/into_color/from_channels/channels4 as expanded from define_colors!; 16-bit-float-16-bit round trip and rounding error bounds in the thorough tier; that ImageBuffer::convert and the four grayscale functions convert every pixel of an image of any size in place; that DynamicImage to_*/into_*/grayscale/get_pixel/put_pixel/blend_pixel/new*/color dispatch every layout to the right conversion.',
                assumptions=['sample types u8, u16, f32', 'dynamic_map! is expanded by the extractor', 'convert and grayscale* are over the pixel conversions as functions and the row-major item order of pixels()/pixels_mut() (C02)', 'macro-generated functions are verified in their mechanical expansion']),
    'C09': dict(verus=['blend', 'pixmap', 'brighten'], trusted=[VZ, PIX, 'the functions handed to Pixel::map* are pure (read as Fn)', 'pixels()/pixels_mut() items (vx_pixels) are the pixels in row-major order: proved for ImageBuffer under C02', 'num_traits::NumCast between integers: the value when it fits; i32::saturating_add as documented', 'Rust f32 arithmetic and comparisons are those of the SMT theory of floats (axioms of verus/floats.vrs)'],
                note='Unbounded proof for every sample value that blending an opaque pixel yields it and blending a clear pixel changes nothing (Luma, LumaA, Rgb, Rgba), that invert is max - x on colour channels only and an involution on unsigned samples, that the map/apply family of every pixel type acts per channel with alpha as stated, and that brighten/brighten_in_place/invert of whole images of any size do exactly the saturating per-channel sum, with equal effect in place and copying; colour of half-transparent blends by executable contract.',
                assumptions=['sample types u8, u16, u32, f32 as listed per obligation', 'colour of mixed (neither clear nor opaque) blends by the bounded stand-in only', 'DynamicImage::brighten dispatch by the bounded stand-in only (invert is under contract)', 'macro-generated functions are verified in their mechanical expansion']),
    'C20': dict(verus=['fit'], trusted=[VZ, 'f64 multiplication, division and round are real arithmetic rounded to nearest (monotone, relative error at most 2^-53; axioms of verus/fit.vrs), u32 to f64 is exact, f64 to integer casts truncate and saturate', 'resize_exact, thumbnail_exact and crop answer images of the size asked for (crop: proved under C05)'],
                note='Unbounded proof, for every pair of non-empty sizes, that the target of resize_dimensions is at least 1x1, inside the box when fitting and covering it when filling, touches the box on one side unless clamped at 2^32-1, keeps the ratio to half a pixel and never wraps; that DynamicImage::resize and thumbnail resample to that size and resize_to_fill crops the middle of the covering image without underflow.',
                assumptions=['sizes of zero are outside the property', 'margin of 1/1000 pixel for the rounding of doubles']),
}
NOT_APPLICABLE = {
    'C22': 'The lossless formats other than BMP, TGA, PNM and farbfeld are encoded and decoded by external crates (png, image-webp, gif, tiff, qoi) whose code is not in /repo; a contract of this repository could only assume their round trip. The parts that are in /repo are decided by C14, C16, C18, C21.',
    'C23': 'The claim is about accumulated floating-point sums over kernels of run-time length (weights normalised by division): no installed deductive verifier has a theory that bounds the rounding error of such sums, and with exact reals the claim is about different code. Support windows and indices are panics-freedom facts without the stated semantic content.',
    'C24': 'Parallel iteration is one delegation per function to rayon (par_chunks, zip, map); the schedule-independence is a property of rayon, which is not in /repo and cannot be given contracts that a verifier here discharges; no sequential contract expresses work-stealing schedules.',
    'C25': 'Whole decoders drive external crates (png, gif, tiff, zune-jpeg, image-webp, qoi, exr, dav1d) on arbitrary bytes; panic-freedom and termination of that code cannot be discharged from contracts in /repo. Panic-freedom of the loops that are in /repo is proved as part of C13, C14, C16, C17, C18.',
}
