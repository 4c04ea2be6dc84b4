// ---- assumed contracts of std::io::{Read, Write} and byteorder_lite: a reader is the sequence of bytes still to come,
// ---- a writer the sequence of bytes written; a failed write may have written anything, a failed read loses the rest
#[derive(Debug)]
pub struct IoError { pub k: u8 }
pub type IoResult<T> = Result<T, IoError>;
pub mod io { pub use super::IoResult as Result; pub use super::IoError as Error; }
pub struct LittleEndian {}
pub struct BigEndian {}
pub trait ByteOrder { spec fn le() -> bool; }
impl ByteOrder for LittleEndian { open spec fn le() -> bool { true } }
impl ByteOrder for BigEndian { open spec fn le() -> bool { false } }
pub open spec fn b16(v: u16, le: bool) -> Seq<u8> { if le { seq![(v % 256) as u8, (v / 256) as u8] } else { seq![(v / 256) as u8, (v % 256) as u8] } }
pub open spec fn b32(v: u32, le: bool) -> Seq<u8> { if le { b16((v % 65536) as u16, le) + b16((v / 65536) as u16, le) } else { b16((v / 65536) as u16, le) + b16((v % 65536) as u16, le) } }
pub open spec fn v16(s: Seq<u8>, p: int, le: bool) -> int { if le { s[p] + 256 * s[p + 1] } else { 256 * s[p] + s[p + 1] } }
pub open spec fn v32(s: Seq<u8>, p: int, le: bool) -> int { if le { v16(s, p, le) + 65536 * v16(s, p + 2, le) } else { 65536 * v16(s, p, le) + v16(s, p + 2, le) } }
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    // the whole stream; reading does not change it
    spec fn data(&self) -> Seq<u8>;
    // a seek went beyond the end
    spec fn past(&self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: IoResult<()>)
        ensures final(self).data() == old(self).data(), final(self).past() == old(self).past(), final(buf)@.len() == old(buf)@.len(), r.is_ok() <==> old(self).rest().len() >= old(buf)@.len(),
            r.is_ok() ==> final(buf)@ == old(self).rest().subrange(0, old(buf)@.len() as int) && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int);
    // any number of bytes, possibly none
    fn read(&mut self, buf: &mut [u8]) -> (r: IoResult<usize>)
        ensures final(self).data() == old(self).data(), final(self).past() == old(self).past(), final(buf)@.len() == old(buf)@.len(),
            r.is_ok() ==> r.unwrap() <= old(buf)@.len() && r.unwrap() <= old(self).rest().len() && final(self).rest() == old(self).rest().skip(r.unwrap() as int)
                && final(buf)@ == old(self).rest().subrange(0, r.unwrap() as int) + old(buf)@.skip(r.unwrap() as int);
    fn read_u8(&mut self) -> (r: IoResult<u8>)
        ensures final(self).data() == old(self).data(), final(self).past() == old(self).past(), r.is_ok() <==> old(self).rest().len() >= 1, r.is_ok() ==> r.unwrap() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1);
    fn read_u16<T: ByteOrder>(&mut self) -> (r: IoResult<u16>)
        ensures final(self).data() == old(self).data(), final(self).past() == old(self).past(), r.is_ok() <==> old(self).rest().len() >= 2, r.is_ok() ==> r.unwrap() == v16(old(self).rest(), 0, T::le()) && final(self).rest() == old(self).rest().skip(2);
    fn read_u32<T: ByteOrder>(&mut self) -> (r: IoResult<u32>)
        ensures final(self).data() == old(self).data(), final(self).past() == old(self).past(), r.is_ok() <==> old(self).rest().len() >= 4, r.is_ok() ==> r.unwrap() == v32(old(self).rest(), 0, T::le()) && final(self).rest() == old(self).rest().skip(4);
    // `r.by_ref().take(n).read_to_end(v)`
    fn vx_take_read_to_end(&mut self, n: u64, v: &mut Vec<u8>) -> (r: IoResult<usize>)
        ensures final(self).data() == old(self).data(), final(self).past() == old(self).past(), r.is_ok(), ({ let k = if n <= old(self).rest().len() { n as int } else { old(self).rest().len() as int };
            final(v)@ == old(v)@ + old(self).rest().subrange(0, k) && final(self).rest() == old(self).rest().skip(k) && r.unwrap() == k });
}
// `SeekFrom` as in std; seeking to a position never fails here
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn at(r: Seq<u8>, d: Seq<u8>, p: int) -> bool { if p <= d.len() { r == d.skip(p) } else { r.len() == 0 } }
pub trait Seek: Read {
    fn seek(&mut self, f: SeekFrom) -> (r: IoResult<u64>)
        ensures final(self).data() == old(self).data(), f is Start ==> r.is_ok() && at(final(self).rest(), old(self).data(), f->Start_0 as int) && final(self).past() == (f->Start_0 > old(self).data().len()),
            f is Current && !old(self).past() ==> ({ let p = old(self).data().len() - old(self).rest().len() + f->Current_0;
                0 <= p <= old(self).data().len() ==> r.is_ok() && r.unwrap() == p && at(final(self).rest(), old(self).data(), p) && !final(self).past() });
}
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>) ensures r.is_ok() ==> final(self).out() == old(self).out() + buf@;
    fn write_u8(&mut self, v: u8) -> (r: IoResult<()>) ensures r.is_ok() ==> final(self).out() == old(self).out() + seq![v];
    fn write_u16<T: ByteOrder>(&mut self, v: u16) -> (r: IoResult<()>) ensures r.is_ok() ==> final(self).out() == old(self).out() + b16(v, T::le());
    fn write_i32<T: ByteOrder>(&mut self, v: i32) -> (r: IoResult<()>) ensures r.is_ok() ==> final(self).out() == old(self).out() + b32(v as u32, T::le());
    fn write_u32<T: ByteOrder>(&mut self, v: u32) -> (r: IoResult<()>) ensures r.is_ok() ==> final(self).out() == old(self).out() + b32(v, T::le());
}
