// ---- stand-ins for std::io::Cursor<&[u8]> and byteorder_lite::ReadBytesExt (assumed contracts) ----
#[derive(Debug)]
pub struct IoError { pub k: u8 }
pub type IoResult<T> = Result<T, IoError>;
pub struct LittleEndian {}
pub struct BigEndian {}
pub trait ByteOrder { spec fn le() -> bool; }
impl ByteOrder for LittleEndian { open spec fn le() -> bool { true } }
impl ByteOrder for BigEndian { open spec fn le() -> bool { false } }
pub open spec fn u16_at(d: Seq<u8>, p: int, le: bool) -> int { if le { d[p] + 256 * d[p + 1] } else { 256 * d[p] + d[p + 1] } }
pub open spec fn u32_at(d: Seq<u8>, p: int, le: bool) -> int { if le { u16_at(d, p, le) + 65536 * u16_at(d, p + 2, le) } else { 65536 * u16_at(d, p, le) + u16_at(d, p + 2, le) } }
pub struct Cursor<'a> { pub d: &'a [u8], pub p: u64 }
impl<'a> Cursor<'a> {
    // enough bytes are left for n more
    pub open spec fn left(&self, n: int) -> bool { self.p + n <= self.d@.len() }
    #[verifier::external_body]
    pub fn new(d: &'a [u8]) -> (r: Self) ensures r.d@ == d@, r.p == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn set_position(&mut self, p: u64) ensures final(self).d == old(self).d, final(self).p == p { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: IoResult<()>)
        ensures final(self).d == old(self).d, final(b)@.len() == old(b)@.len(), r.is_ok() <==> old(self).left(old(b)@.len() as int),
            r.is_ok() ==> final(self).p == old(self).p + old(b)@.len() && final(b)@ == old(self).d@.subrange(old(self).p as int, old(self).p + old(b)@.len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: IoResult<u8>)
        ensures final(self).d == old(self).d, r.is_ok() <==> old(self).left(1),
            r.is_ok() ==> final(self).p == old(self).p + 1 && r.unwrap() == old(self).d@[old(self).p as int],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16<T: ByteOrder>(&mut self) -> (r: IoResult<u16>)
        ensures final(self).d == old(self).d, r.is_ok() <==> old(self).left(2),
            r.is_ok() ==> final(self).p == old(self).p + 2 && r.unwrap() == u16_at(old(self).d@, old(self).p as int, T::le()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32<T: ByteOrder>(&mut self) -> (r: IoResult<u32>)
        ensures final(self).d == old(self).d, r.is_ok() <==> old(self).left(4),
            r.is_ok() ==> final(self).p == old(self).p + 4 && r.unwrap() == u32_at(old(self).d@, old(self).p as int, T::le()),
    { unimplemented!() }
}
