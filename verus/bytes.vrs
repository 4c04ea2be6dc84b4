// ---- integers and their bytes (core documentation); the byte order of the machine is unknown, but the same everywhere ----
pub uninterp spec fn ne() -> bool;
pub trait VxBytes<const N: usize>: Sized {
    spec fn enc(self, le: bool) -> Seq<u8>;
    spec fn dec(s: Seq<u8>, le: bool) -> int;
    spec fn val(self) -> int;
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.enc(false);
    fn vx_from_be_bytes(x: [u8; N]) -> (r: Self) ensures r.val() == Self::dec(x@, false);
    fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.enc(true);
    fn vx_from_le_bytes(x: [u8; N]) -> (r: Self) ensures r.val() == Self::dec(x@, true);
    fn vx_to_ne_bytes(self) -> (r: [u8; N]) ensures r@ == self.enc(ne());
    fn vx_from_ne_bytes(x: [u8; N]) -> (r: Self) ensures r.val() == Self::dec(x@, ne());
}
impl VxBytes<2> for u16 {
    open spec fn enc(self, le: bool) -> Seq<u8> { b16(self, le) }
    open spec fn dec(s: Seq<u8>, le: bool) -> int { v16(s, 0, le) }
    open spec fn val(self) -> int { self as int }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(x: [u8; 2]) -> (r: Self) { u16::from_be_bytes(x) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(x: [u8; 2]) -> (r: Self) { u16::from_le_bytes(x) }
    #[verifier::external_body] fn vx_to_ne_bytes(self) -> (r: [u8; 2]) { self.to_ne_bytes() }
    #[verifier::external_body] fn vx_from_ne_bytes(x: [u8; 2]) -> (r: Self) { u16::from_ne_bytes(x) }
}
impl VxBytes<4> for u32 {
    open spec fn enc(self, le: bool) -> Seq<u8> { b32(self, le) }
    open spec fn dec(s: Seq<u8>, le: bool) -> int { v32(s, 0, le) }
    open spec fn val(self) -> int { self as int }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(x: [u8; 4]) -> (r: Self) { u32::from_be_bytes(x) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(x: [u8; 4]) -> (r: Self) { u32::from_le_bytes(x) }
    #[verifier::external_body] fn vx_to_ne_bytes(self) -> (r: [u8; 4]) { self.to_ne_bytes() }
    #[verifier::external_body] fn vx_from_ne_bytes(x: [u8; 4]) -> (r: Self) { u32::from_ne_bytes(x) }
}
