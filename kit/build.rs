// Makes private pieces of /repo that no public function reaches available to the executable contracts:
// whole files are included by path from lib.rs, single items are cut out verbatim here.
use std::{env, fs, path::Path};
fn item(text: &str, head: &str) -> Option<String> {
    let s = text.find(head)?;
    let mut d = 0; let b = text.as_bytes();
    for i in s..b.len() {
        if b[i] == b'{' { d += 1 } else if b[i] == b'}' { d -= 1; if d == 0 { return Some(text[s..=i].to_string()); } }
    }
    None
}
/// pieces left out because they no longer compile on their own (set by check.py after a failed build)
fn skip(name: &str) -> bool { env::var("KIT_SKIP").map_or(false, |v| v.split(',').any(|x| x == name)) }
fn main() {
    println!("cargo:rerun-if-env-changed=KIT_SKIP");
    let src = Path::new("/repo/src");
    let mut cfg = |name: &str, file: &str, needs: &[&str]| {
        println!("cargo:rerun-if-changed=/repo/src/{file}");
        println!("cargo:rustc-check-cfg=cfg({name})");
        if let Ok(t) = fs::read_to_string(src.join(file)) { if !skip(name) && needs.iter().all(|n| t.contains(n)) { println!("cargo:rustc-cfg={name}"); } }
    };
    cfg("has_utils", "utils/mod.rs", &["pub(crate) fn expand_bits(bit_depth: u8, row_size: u32, buf: &[u8]) -> Vec<u8>"]);
    cfg("has_math", "math/utils.rs", &["pub(crate) fn resize_dimensions("]);
    cfg("has_autobreak", "codecs/pnm/autobreak.rs", &["pub(crate) struct AutoBreak<W: io::Write>", "fn new(writer: W, line_capacity: usize)"]);
    cfg("has_entropy", "codecs/jpeg/entropy.rs", &["pub(crate) const fn build_huff_lut_const(bits: &[u8; 16], huffval: &[u8]) -> [(u8, u16); 256]"]);
    println!("cargo:rerun-if-changed=/repo/src/codecs/jpeg/encoder.rs");
    println!("cargo:rustc-check-cfg=cfg(has_jpegbits)");
    let t = fs::read_to_string(src.join("codecs/jpeg/encoder.rs")).unwrap_or_default();
    let mut parts: Vec<Option<String>> = ["pub(crate) struct BitWriter<W>", "impl<W: Write> BitWriter<W>", "fn encode_coefficient("].iter().map(|h| item(&t, h)).collect();
    // statics have a `;` inside their type: cut up to the `];` that closes the initialiser
    for n in ["LUMA_DC", "CHROMA_DC", "LUMA_AC", "CHROMA_AC"] { for k in ["CODE_LENGTHS", "VALUES"] { let h = format!("static STD_{n}_{k}: [u8;"); parts.push(t.find(&h).and_then(|s| t[s..].find("= [").and_then(|a| t[s + a..].find("];").map(|e| format!("pub {}", &t[s..s + a + e + 2]))))); } }
    parts.push(t.find("static UNZIGZAG: [u8; 64] = [").and_then(|s| t[s..].find("\n];").map(|e| t[s..s + e + 3].to_string())));
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("jpegbits.rs");
    if !skip("has_jpegbits") && !skip("has_entropy") && parts.iter().all(|p| p.is_some()) && t.contains("fn write_bits(&mut self, bits: u16, size: u8) -> io::Result<()>") && t.contains("fn encode_coefficient(coefficient: i32) -> (u8, u16)") && t.contains("fn pad_byte(&mut self)") && fs::read_to_string(src.join("codecs/jpeg/entropy.rs")).map_or(false, |t| t.contains("pub(crate) const fn build_huff_lut_const")) {
        let body: String = parts.into_iter().flatten().map(|p| p.replace("    fn new(w: W)", "    pub fn new(w: W)").replace("    fn write_bits", "    pub fn write_bits").replace("    fn pad_byte", "    pub fn pad_byte").replace("    fn write_block", "    pub fn write_block").replace("fn encode_coefficient(", "pub fn encode_coefficient(") + "\n").collect();
        fs::write(out, format!("use std::io::{{self, Write}};\npub(crate) use super::entropy::build_huff_lut_const;\n{body}")).unwrap();
        println!("cargo:rustc-cfg=has_jpegbits");
    } else { fs::write(out, "").unwrap(); }
    println!("cargo:rerun-if-changed=/repo/src/image.rs");
    println!("cargo:rustc-check-cfg=cfg(has_readbuffer)");
    let t = fs::read_to_string(src.join("image.rs")).unwrap_or_default();
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("readbuffer.rs");
    if let (Some(a), Some(b)) = (item(&t, "pub(crate) struct ImageReadBuffer"), item(&t, "impl ImageReadBuffer")) {
        if !skip("has_readbuffer") && b.contains("fn new(scanline_bytes: u64, total_bytes: u64)") && b.contains("fn read<F>(&mut self, buf: &mut [u8]") { println!("cargo:rustc-cfg=has_readbuffer"); }
        fs::write(out, format!("use std::io;\n{a}\n{b}\n")).unwrap();
    } else { fs::write(out, "").unwrap(); }
}
