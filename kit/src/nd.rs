//! Sources of inputs for the executable contracts: symbolic (Kani), random, exhaustive, replayed.

pub trait Nd {
    /// a value in lo..=hi
    fn raw(&mut self, lo: u64, hi: u64) -> u64;
    fn assume(&mut self, c: bool);
    fn range(&mut self, lo: usize, hi: usize) -> usize { self.raw(lo as u64, hi as u64) as usize }
    fn r32(&mut self, lo: u32, hi: u32) -> u32 { self.raw(lo as u64, hi as u64) as u32 }
    fn ri(&mut self, lo: i64, hi: i64) -> i64 { (self.raw(0, (hi - lo) as u64) as i64) + lo }
    fn u8(&mut self) -> u8 { self.raw(0, 255) as u8 }
    fn u16(&mut self) -> u16 { self.raw(0, 65535) as u16 }
    fn u32(&mut self) -> u32 { self.raw(0, u32::MAX as u64) as u32 }
    fn u64(&mut self) -> u64 { self.raw(0, u64::MAX) }
    fn usize(&mut self) -> usize { self.raw(0, u64::MAX) as usize }
    fn i64(&mut self) -> i64 { self.raw(0, u64::MAX) as i64 }
    fn i32(&mut self) -> i32 { self.u32() as i32 }
    fn bool(&mut self) -> bool { self.raw(0, 1) == 1 }
    fn f32(&mut self) -> f32 { f32::from_bits(self.u32()) }
    fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(self.u8()); } v }
}

#[cfg(kani)]
pub struct K;
#[cfg(kani)]
impl Nd for K {
    fn raw(&mut self, lo: u64, hi: u64) -> u64 { let x: u64 = kani::any(); kani::assume(x >= lo && x <= hi); x }
    fn assume(&mut self, c: bool) { kani::assume(c) }
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn usize(&mut self) -> usize { kani::any() }
    fn i64(&mut self) -> i64 { kani::any() }
    fn bool(&mut self) -> bool { kani::any() }
}

/// payload of the panic that abandons an input outside the precondition
pub struct Discard;

#[derive(Clone)]
pub enum Mode { Random(u64), Odometer, Replay }

pub struct Src {
    pub mode: Mode,
    pub draws: Vec<u64>,
    pub spans: Vec<(u64, u64)>,
    pub pos: usize,
}
impl Src {
    pub fn random(seed: u64) -> Src { Src { mode: Mode::Random(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03), draws: vec![], spans: vec![], pos: 0 } }
    pub fn odometer() -> Src { Src { mode: Mode::Odometer, draws: vec![], spans: vec![], pos: 0 } }
    pub fn replay(d: Vec<u64>) -> Src { Src { mode: Mode::Replay, draws: d, spans: vec![], pos: 0 } }
    pub fn reset(&mut self) { self.pos = 0; if let Mode::Random(_) = self.mode { self.draws.clear(); self.spans.clear(); } }
    /// next input in exhaustive mode; false when done
    pub fn advance(&mut self) -> bool {
        self.draws.truncate(self.pos); self.spans.truncate(self.pos);
        while let Some(d) = self.draws.pop() {
            let (lo, hi) = self.spans.pop().unwrap(); let _ = lo;
            if d < hi { self.draws.push(d + 1); self.spans.push((lo, hi)); return true; }
        }
        false
    }
    fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl Nd for Src {
    fn raw(&mut self, lo: u64, hi: u64) -> u64 {
        match &mut self.mode {
            Mode::Random(s) => {
                let span = hi.wrapping_sub(lo);
                let v = if span < 64 { lo + Src::next(s) % (span + 1) } else {
                    let k = Src::next(s) % 16;
                    let r = Src::next(s);
                    let off = match k {
                        0 => 0, 1 => span, 2 => r % 4, 3 => span - r % 4, 4 | 5 => r % 20,
                        6 => { let b = 64 - span.leading_zeros(); let sh = (r % b as u64) as u32; (1u64 << sh).min(span) }
                        7 => { let b = 64 - span.leading_zeros(); let sh = (r % b as u64) as u32; ((1u64 << sh) - 1).min(span) }
                        8 => { let b = 64 - span.leading_zeros(); let sh = (r % b as u64) as u32; (r >> 8) & ((1u64 << sh) - 1) & span.max(1) }
                        9 => (span / 2).wrapping_add(r % 5).min(span),
                        _ => if span == u64::MAX { r } else { r % (span + 1) },
                    };
                    lo.wrapping_add(off.min(span))
                };
                self.draws.push(v); self.spans.push((lo, hi)); self.pos += 1; v
            }
            Mode::Odometer => {
                if self.pos < self.draws.len() { self.spans[self.pos] = (lo, hi); let v = self.draws[self.pos]; self.pos += 1; v }
                else { self.draws.push(lo); self.spans.push((lo, hi)); self.pos += 1; lo }
            }
            Mode::Replay => { let v = self.draws.get(self.pos).copied().unwrap_or(lo); self.pos += 1; v }
        }
    }
    fn assume(&mut self, c: bool) { if !c { std::panic::resume_unwind(Box::new(Discard)) } }
}
/// runs f, returns None if it panicked
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// a reader over the given bytes that is as awkward as `Read` allows: short reads and interruptions, decided by the data
pub struct Rd<'a> { d: &'a [u8], p: u64, mode: u32, s: u32 }
pub fn rd(d: &[u8]) -> Rd<'_> {
    let h = d.iter().take(400).fold(d.len() as u32, |h, &b| h.wrapping_mul(16777619) ^ b as u32);
    Rd { d, p: 0, mode: (h >> 3) % 4, s: h }
}
/// the same without interruptions
pub fn rd_quiet(d: &[u8]) -> Rd<'_> { let mut r = rd(d); if r.mode == 2 { r.mode = 3; } r }
impl Rd<'_> {
    fn step(&mut self) -> u32 { self.s = self.s.wrapping_mul(1664525).wrapping_add(1013904223); self.s >> 16 }
    fn some(&mut self, n: usize) -> std::io::Result<usize> {
        if n == 0 || self.mode == 0 { return Ok(n); }
        let r = self.step();
        if self.mode == 2 && r % 5 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let most = match self.mode { 1 => 1 + r as usize % 3, 2 => 1 + r as usize % 9, _ => 1 + r as usize % 300 };
        Ok(n.min(most))
    }
    fn left(&self) -> &[u8] { &self.d[(self.p as usize).min(self.d.len())..] }
}
impl std::io::Read for Rd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.some(b.len().min(self.left().len()))?;
        let l = self.left(); b[..n].copy_from_slice(&l[..n]); self.p += n as u64; Ok(n)
    }
}
impl std::io::BufRead for Rd<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { let n = self.some(self.left().len())?; Ok(&self.left()[..n]) }
    fn consume(&mut self, n: usize) { self.p += n as u64 }
}
impl std::io::Seek for Rd<'_> {
    fn seek(&mut self, f: std::io::SeekFrom) -> std::io::Result<u64> {
        let p = match f { std::io::SeekFrom::Start(p) => p as i128, std::io::SeekFrom::End(o) => self.d.len() as i128 + o as i128, std::io::SeekFrom::Current(o) => self.p as i128 + o as i128 };
        if p < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.p = p as u64; Ok(self.p)
    }
}
/// a writer that takes a few bytes at a time and is interrupted now and then
pub struct Wr { pub v: Vec<u8>, mode: u32, s: u32 }
pub fn wr(seed: usize) -> Wr { Wr { v: vec![], mode: seed as u32 % 3, s: seed as u32 ^ 0x5bd1e995 } }
impl std::io::Write for Wr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.s = self.s.wrapping_mul(1664525).wrapping_add(1013904223); let r = self.s >> 16;
        if self.mode == 2 && r % 5 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = if self.mode == 0 { b.len() } else { b.len().min(1 + r as usize % 9) };
        self.v.extend(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
