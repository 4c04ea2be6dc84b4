#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Pixel buffers map each in-bounds coordinate to its own in-range samples",
  "A pixel buffer can be built over a container exactly when the container holds at least width x height x channels samples, computed without wrap-around. Every in-bounds coordinate then addresses its own block of samples inside the container, in row-major order, so that writing one pixel changes that pixel and no other. Checked access returns a pixel exactly for in-bounds coordinates, and unchecked-by-type access outside the bounds panics instead of touching another pixel.",
  ["inputs"], "every width, height, channel count, container length and coordinate",
  "Unit tests use a handful of tiny buffers; the guarantee is over all 2^32 x 2^32 dimensions, including products that overflow, and over containers larger than needed, which no test samples.",
  ["src/buffer.rs"],
  [("size computation and fit check", "src/buffer.rs: image_buffer_len, check_image_fits, from_raw"),
   ("coordinate to sample range", "src/buffer.rs: pixel_indices, pixel_indices_unchecked"),
   ("accessors", "src/buffer.rs: get_pixel, get_pixel_mut, get_pixel_checked, get_pixel_mut_checked, put_pixel")],
  state=[("data", "flat sample container", "src/buffer.rs: struct ImageBuffer")])

p("C02", "Pixel iteration visits every pixel once, in row-major order",
  "Iterating over the pixels of an image or view yields each coordinate of the image exactly once, in row-major order, paired with the pixel stored there, and then ends; images with a zero dimension yield nothing. The number of items announced beforehand equals the number delivered.",
  ["inputs", "histories"], "all image dimensions including zero, and every position reached by repeated stepping",
  "Tests iterate a few small square images; zero widths, single rows and length reporting in mid-iteration are not sampled.",
  ["src/image.rs", "src/buffer.rs"],
  [("generic view iterator", "src/image.rs: Pixels::next"),
   ("buffer iterators", "src/buffer.rs: Pixels, EnumeratePixels, Rows, EnumerateRows and their mutable variants")])

p("C03", "Flips and quarter-turns are exact pixel permutations",
  "Rotating by 90, 180 or 270 degrees, or mirroring horizontally or vertically, moves every pixel to exactly its geometric position, loses and duplicates none, and changes no sample value; in-place forms give the same result as copying forms. A destination whose dimensions do not match is refused, and applying one of the eight stored orientations is the permutation that orientation denotes.",
  ["inputs"], "every image size (including odd, zero and single-row sizes) and every pixel content",
  "Tests check one or two fixed small images; in-place algorithms treat odd and even sizes on different paths and must be right for all of them.",
  ["src/imageops/affine.rs", "src/dynimage.rs"],
  [("copying transforms", "src/imageops/affine.rs: rotate90_in, rotate180_in, rotate270_in, flip_horizontal_in, flip_vertical_in and the allocating wrappers"),
   ("in-place transforms", "src/imageops/affine.rs: rotate180_in_place, flip_horizontal_in_place, flip_vertical_in_place"),
   ("dispatch by orientation", "src/dynimage.rs: DynamicImage::apply_orientation and the flip/rotate methods")])

p("C04", "Compositing changes exactly the clipped overlap and nothing else",
  "Overlaying or replacing one image onto another at any signed 64-bit offset writes exactly the pixels where the two rectangles intersect, each from the geometrically matching source pixel, and leaves every other pixel as it was; offsets completely outside change nothing and never panic. Tiling covers the whole image with repetitions of the tile.",
  ["inputs"], "all image sizes and all i64 offsets, including extreme and negative ones",
  "Tests sample a few offsets; clipping arithmetic mixes signed 64-bit offsets with unsigned sizes and fails only at particular extreme combinations.",
  ["src/imageops/mod.rs"],
  [("clipping", "src/imageops/mod.rs: overlay_bounds_ext, overlay_bounds"),
   ("writers", "src/imageops/mod.rs: overlay, replace, tile")])

p("C05", "Sub-views, crops and region copies are exact translations",
  "A sub-view or crop at (x, y) of size w x h shows exactly the pixels of the parent translated by (x, y), with crop rectangles clamped to the image, and writes through a sub-view reach the translated parent pixel only. Copying one image into another at an offset either fails without any change because it does not fit (whatever the offset), or sets exactly the target rectangle; copying a rectangle within an image is exact even when source and destination overlap.",
  ["inputs"], "all sizes, offsets and overlapping rectangles",
  "Overlap direction, clamping and overflow of offset plus size need specific combinations that the tests do not sample.",
  ["src/image.rs", "src/imageops/mod.rs", "src/buffer.rs"],
  [("sub-images", "src/image.rs: SubImage, SubImageInner, to_image, view, sub_image"),
   ("crop clamp", "src/imageops/mod.rs: crop_dimms, crop, crop_imm"),
   ("region copies", "src/image.rs: GenericImage::copy_from, copy_within; src/buffer.rs: ImageBuffer::copy_from, copy_within")])

p("C06", "Strided sample layouts never address outside their storage",
  "For a strided sample layout, every in-bounds (channel, x, y) has an index below the layout's reported minimum length, an index is returned only when in bounds and representable, and the minimum length is the exact tight bound (absent exactly when it overflows). A layout reported free of aliasing maps distinct in-bounds samples to distinct indices, and a buffer accepted for a pixel view is long enough for every pixel of the view.",
  ["inputs"], "all channel counts, dimensions and strides (including huge and zero strides)",
  "Strides and extents are arbitrary 64-bit values; tests use a few hand-written layouts and cannot cover overflow or aliasing combinations.",
  ["src/flat.rs"],
  [("index arithmetic", "src/flat.rs: SampleLayout::min_length, fits, index, in_bounds, in_bounds_index, strides_cwh, extents"),
   ("aliasing", "src/flat.rs: SampleLayout::has_aliased_samples, is_normal, increasing_stride_dims")])

p("C07", "Resource limits are enforced exactly and never wrap",
  "With limits set, a decode whose declared width or height exceeds its limit is refused, and reserving memory succeeds exactly when it fits in what remains of the budget, which then shrinks by exactly that amount; releasing memory never makes the budget wrap. Byte sizes computed from dimensions and colour type are the exact product, saturating instead of wrapping.",
  ["inputs", "histories", "configurations"], "all limit settings, all dimensions, all reservation/release histories",
  "Tests exercise single reservations; sequences and near-overflow sizes are not sampled.",
  ["src/image_reader/mod.rs", "src/image.rs", "src/utils/mod.rs", "src/color.rs"],
  [("budget", "src/image_reader/mod.rs: Limits::reserve, reserve_usize, reserve_buffer, free, free_usize, check_dimensions, check_support"),
   ("sizes", "src/image.rs: ImageDecoder::total_bytes, set_limits; src/utils/mod.rs: check_dimension_overflow; src/color.rs: ExtendedColorType::buffer_size, ColorType tables")])

p("C08", "Colour conversion preserves meaning exactly",
  "Converting pixels between 8-bit and 16-bit depths maps the whole range onto the whole range with correct rounding, widening followed by narrowing returns the original value, and conversions between float and integer clamp out-of-range values and never panic. Converting between colour models keeps each channel in its place, keeps alpha where it exists, makes added alpha fully opaque, replicates gray to all colour channels, and computes gray from colour with the documented Rec. 709 weights.",
  ["inputs"], "every pixel value of every pixel type",
  "Tests check one or two values; the guarantee is over all 2^64 pixel values of every source and target combination.",
  ["src/color.rs", "src/traits.rs"],
  [("sample conversion", "src/color.rs: FromPrimitive impls"),
   ("model conversion", "src/color.rs: FromColor impls, rgb_to_luma, IntoColor")])

p("C09", "Blending, inversion and brightening respect their pixel-wise definitions",
  "Blending a fully opaque pixel over anything yields that pixel, blending a fully transparent pixel over anything leaves it unchanged, and inverting twice is the identity (on unsigned integer samples) while alpha is never inverted. Brightening an 8- or 16-bit image adds the amount to each colour channel, saturating at the ends of the range for every amount, leaves alpha alone, and has the same effect in place and copying.",
  ["inputs"], "every pixel value and every brightness amount (all i32)",
  "Tests use a few pixel values; extreme amounts and most alpha values are never sampled.",
  ["src/color.rs", "src/imageops/colorops.rs"],
  [("blending and inversion", "src/color.rs: Blend, Invert impls"),
   ("brighten", "src/imageops/colorops.rs: brighten, brighten_in_place, invert")])

p("C10", "Frame delays convert without wrap-around and with exact order",
  "Building a frame delay from a duration never panics: it saturates at the largest representable delay, is exact when the duration is a ratio whose denominator is within the bound that keeps every numerator with as many whole milliseconds representable (2^32 / (milliseconds + 1)), and otherwise is a closest ratio with a denominator within that bound. Reading a delay back gives the same fraction it was built from, and comparing two delays agrees with comparing the exact fractions.",
  ["inputs"], "all durations and all 32-bit ratios",
  "Tests check a dozen durations; the largest ones reach a different arithmetic path.",
  ["src/animation.rs"],
  [("conversion", "src/animation.rs: Delay::from_saturating_duration, closest_bounded_fraction, From<Delay> for Duration"),
   ("ratio ordering", "src/animation.rs: Ratio::cmp, Ratio::to_integer")])

p("C11", "Orientation codes are a faithful bijection and metadata parsing is total",
  "Exactly the eight EXIF orientation values map to orientations and back to the same value, and every other value is rejected. Looking for the orientation in an arbitrary metadata blob never panics, and returns a value only if a well-formed entry with that value is present at the position its byte order dictates. A decoder handed out as a trait object answers the orientation of the decoder behind it.",
  ["inputs"], "all codes, and all metadata blobs",
  "Tests parse one or two well-formed blobs; truncations at every point and both byte orders with hostile offsets are not sampled.",
  ["src/metadata.rs"],
  [("mapping", "src/metadata.rs: Orientation::from_exif, to_exif, from_exif_chunk")])

p("C12", "Format identification is sound and its tables agree",
  "Content sniffing answers a format only when the bytes start with that format's documented signature, and always answers when a known signature is present, whatever follows it, for any input length. File extensions, media types and format identities are mutually consistent: every extension (in any letter case) and every format-specific media type listed for a format is recognised as that format.",
  ["inputs", "configurations"], "every byte prefix; every format",
  "Tests check a few signatures; prefixes shorter than a signature and shadowing between signatures are not sampled.",
  ["src/image_reader/free_functions.rs", "src/image.rs"],
  [("magic table", "src/image_reader/free_functions.rs: MAGIC_BYTES, guess_format_impl"),
   ("tables", "src/image.rs: ImageFormat::from_extension, from_path, from_mime_type, to_mime_type, extensions_str, can_read, can_write, all")])

p("C13", "DXT blocks decode to the texels the S3TC rules define",
  "Every 8- or 16-byte compressed block decodes to exactly the sixteen texels given by the S3TC endpoint, interpolation and alpha rules, for each of the three variants, and every block of the picture lands at its own position. Malformed dimensions are refused instead of read out of bounds.",
  ["inputs"], "all 2^64 / 2^128 block contents, all picture sizes that are multiples of four",
  "Tests contain no DXT block vectors at all; the value space is far beyond sampling.",
  ["src/codecs/dxt.rs", "src/codecs/dds.rs"],
  [("block decoders", "src/codecs/dxt.rs: decode_dxt_colors, decode_dxt1_block, decode_dxt3_block, decode_dxt5_block, alpha_table_dxt5, enc565_decode"),
   ("row assembly", "src/codecs/dxt.rs: decode_dxt1_row, decode_dxt3_row, decode_dxt5_row, DxtDecoder")],
  hook="guarded re-export of the private block decoders")

p("C14", "TGA run-length coding is lossless and bounded",
  "Writing a non-empty image as TGA, with or without run-length compression, and reading it back returns the same dimensions, colour layout and samples. Decoding run-length packets yields exactly the packets' expansion and never writes beyond the image, and truncated data is an error rather than a panic.",
  ["inputs"], "all sample data and run structures; all packet sequences",
  "Run boundaries at 128, runs crossing rows and packets crossing the image end need particular data; tests use small random-looking buffers.",
  ["src/codecs/tga/encoder.rs", "src/codecs/tga/decoder.rs", "src/codecs/tga/header.rs"],
  [("encoder", "src/codecs/tga/encoder.rs: run_length_encode, write_raw_packet, write_rle_packet"),
   ("decoder", "src/codecs/tga/decoder.rs: read_encoded_data, expand_color_map, reverse_encoding_in_output, flip_vertically, fixup_orientation")],
  hook="guarded access to private coding routines")

p("C15", "JPEG entropy coding emits a decodable bit stream",
  "Bits handed to the JPEG bit writer appear in the output in order, most significant first, with every 0xFF byte of entropy-coded data followed by a zero byte and no bit lost or added, for any sequence of code lengths up to 16. Each coefficient is written with its magnitude category and the extra bits from which the standard recovers the coefficient, the Huffman tables are prefix-free codes derived by the standard's procedure, and quantiser entries are scaled by quality and stay between 1 and 255. The file around it announces exactly the components, quantisers and Huffman tables the scan uses, every 8x8 block is coded once in order, and the scan is filled up with ones to a byte; this holds for each of several images written by one encoder.",
  ["inputs", "histories"], "all bit sequences, all coefficients in range, all qualities, all images and sequences of images",
  "Round-trip tests tolerate small differences and use a few images; a lost carry or stuffing error needs particular bit alignments.",
  ["src/codecs/jpeg/encoder.rs", "src/codecs/jpeg/entropy.rs"],
  [("bit writer", "src/codecs/jpeg/encoder.rs: BitWriter::write_bits, pad_byte, huffman_encode, write_block"),
   ("coefficient coding", "src/codecs/jpeg/encoder.rs: encode_coefficient"),
   ("file", "src/codecs/jpeg/encoder.rs: JpegEncoder::encode_image, encode_gray, encode_rgb, write_icc_profile_chunks, build_*"),
   ("tables", "src/codecs/jpeg/entropy.rs: derive_codes_and_sizes, build_huff_lut_const")],
  hook="guarded access to the private bit writer and helpers")

p("C16", "BMP reading and writing place every sample where the format says",
  "A BMP written by the library has rows bottom-up, each padded to four bytes, with header sizes that match the bytes written, and (up to 65535 pixels a side, the decoder's limit) reads back to the same pixels. On reading, channel bit fields of any position and width up to 8 bits are widened to 8 bits with correct rounding, wider ones keep their top 8 bits, and top-down or bottom-up order and row padding are honoured.",
  ["inputs"], "all dimensions, sample data, masks and 16/32-bit field values",
  "Tests use fixed files and small images; bit-field positions, pad sizes and overflow of header sums are sampled sparsely.",
  ["src/codecs/bmp/encoder.rs", "src/codecs/bmp/decoder.rs"],
  [("encoder", "src/codecs/bmp/encoder.rs: encode_with_palette, encode_rgb, encode_rgba, encode_gray, write_row_pad, get_pixel_info"),
   ("decoder fields", "src/codecs/bmp/decoder.rs: Bitfield::from_mask, Bitfield::read, num_bytes, with_rows")],
  hook="guarded access to private helpers")

p("C17", "Radiance HDR scanline compression is lossless",
  "Compressing any scanline component with the HDR run-length scheme and decompressing it gives the same bytes, each packet is within the length the format allows, and decoding never writes outside the scanline whatever the packet lengths. Truncated or overlong packets are errors, not panics.",
  ["inputs"], "all scanline contents and lengths; all packet byte sequences",
  "The tests use a few handcrafted runs; packet merging at 127/128 boundaries depends on exact run patterns.",
  ["src/codecs/hdr/encoder.rs", "src/codecs/hdr/decoder.rs"],
  [("encoder", "src/codecs/hdr/encoder.rs: RunIterator, NorunCombineIterator, rle_compress"),
   ("decoder", "src/codecs/hdr/decoder.rs: decode_component, decode_old_rle, read_scanline")],
  hook="guarded access to private coding routines")

p("C18", "Farbfeld and raw sample packing are byte-exact",
  "Writing 16-bit RGBA data as farbfeld and reading it back returns the same dimensions and samples, with all integers big-endian in the file and native-endian in memory. Unpacking 1-, 2- and 4-bit samples into bytes extracts each field in order, scaled so that the largest field value becomes 255, and skips row padding. Expanding palette indices gives every pixel the colour its index denotes.",
  ["inputs"], "all sample values, dimensions, bit depths and paddings",
  "Tests use one tiny image and one packed buffer.",
  ["src/codecs/farbfeld.rs", "src/utils/mod.rs"],
  [("farbfeld", "src/codecs/farbfeld.rs: FarbfeldReader::new, read, FarbfeldEncoder::encode_impl"),
   ("sample expansion", "src/utils/mod.rs: expand_bits, expand_packed")],
  hook="guarded access to private helpers")

p("C19", "Rectangle and incremental reads equal the full decode",
  "Reading any rectangle of a seekable image into a buffer with any sufficient row pitch yields exactly the corresponding part of the full decode and leaves the padding between rows untouched; a rectangle outside the image is refused. Draining an image through the incremental reader in pieces of any size yields the same bytes as one read.",
  ["inputs", "histories"], "all rectangles, pitches, internal scanline sizes and read sizes",
  "Tests use one 10x10-like image; alignment of rectangles with internal scanlines has many cases.",
  ["src/image.rs", "src/codecs/farbfeld.rs"],
  [("rectangle loader", "src/image.rs: load_rect"),
   ("incremental reader", "src/image.rs: ImageReadBuffer::read")],
  hook="guarded access to load_rect")

p("C20", "Aspect-preserving resize targets stay inside the requested box",
  "The size chosen for an aspect-preserving resize of a non-empty image into a non-empty box is at least 1x1, never exceeds the requested box when fitting and never falls below it when filling, equals the box in at least one dimension unless clamped, and keeps the aspect ratio to within rounding; no requested size wraps around.",
  ["inputs"], "all source and requested dimensions",
  "Tests sample about ten dimension pairs.",
  ["src/math/utils.rs"],
  [("target size", "src/math/utils.rs: resize_dimensions")],
  hook="guarded access to the private function")

p("C21", "PNM text output is well formed and line-limited",
  "Plain-text sample output never splits a number, separates all numbers by white space, keeps every line within the configured width when each item fits, and the numbers read back in order equal the numbers written. Samples above the header's maximum are refused.",
  ["inputs", "histories"], "all sequences of written items",
  "Tests check three short sequences.",
  ["src/codecs/pnm/autobreak.rs", "src/codecs/pnm/encoder.rs"],
  [("line breaking", "src/codecs/pnm/autobreak.rs: AutoBreak")],
  hook="guarded access to the private writer")

p("C22", "Whole-format round trips of lossless codecs are the identity",
  "Encoding any image in a lossless format (PNG, WebP, GIF palette exact cases, TIFF, QOI, BMP, TGA, PNM, farbfeld) and decoding it returns identical pixels, size and colour type.",
  ["inputs", "configurations"], "all images and all encoder settings",
  "Round-trip tests sample few images.",
  ["src/codecs"], [("codec adapters", "src/codecs/*")])

p("C23", "Resampling and blur are convex, normalised filters",
  "Resizing or blurring with a non-negative kernel keeps every output sample within the range of the input samples it is computed from, and a constant image stays constant.",
  ["inputs"], "all images, sizes, kernels and sigmas",
  "Floating-point accumulation is sampled at a few sizes.",
  ["src/imageops/sample.rs", "src/imageops/fast_blur.rs"],
  [("filters", "src/imageops/sample.rs: horizontal_sample, vertical_sample; src/imageops/fast_blur.rs")])

p("C24", "Parallel iteration equals sequential iteration",
  "Parallel pixel iteration visits the same pixels with the same coordinates as sequential iteration under every work-stealing schedule.",
  ["schedules"], "all splits and schedules",
  "Tests run one schedule.",
  ["src/buffer_par.rs"], [("indexed producers", "src/buffer_par.rs")])

p("C25", "Decoders survive arbitrary bytes",
  "No decoder panics, overflows or loops forever on arbitrary input bytes; it returns an image of the announced size or an error.",
  ["inputs"], "all byte strings, all formats",
  "The test corpus is finite.",
  ["src/codecs"], [("decoders", "src/codecs/*/decoder.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
