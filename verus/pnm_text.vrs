#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include slices.vrs
// ---- std::io::Write as the sequence of bytes written: `write` writes a prefix, an error means nothing was written ----
#[derive(Debug)]
pub struct IoError { pub k: ErrorKind }
#[derive(Debug, PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { Interrupted, WriteZero, Other }
impl IoError { pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k } }
pub type IoResult<T> = Result<T, IoError>;
pub mod io { pub use super::IoResult as Result; pub use super::IoError as Error; pub use super::ErrorKind; pub use super::Write; }
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    // for a borrowed writer: what it will hold when the borrow ends
    #[verifier::prophetic]
    spec fn fin(&self) -> Seq<u8>;
    fn write(&mut self, buf: &[u8]) -> (r: IoResult<usize>)
        ensures (*final(self)).fin() == (*old(self)).fin(), r.is_ok() ==> r.unwrap() <= buf@.len() && (*final(self)).out() == (*old(self)).out() + buf@.subrange(0, r.unwrap() as int), r.is_err() ==> (*final(self)).out() == (*old(self)).out();
    fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>)
        ensures (*final(self)).fin() == (*old(self)).fin(), r.is_ok() ==> (*final(self)).out() == (*old(self)).out() + buf@;
    fn flush(&mut self) -> (r: IoResult<()>) ensures (*final(self)).out() == (*old(self)).out(), (*final(self)).fin() == (*old(self)).fin();
}
impl<W: Write> Write for &mut W {
    open spec fn out(&self) -> Seq<u8> { (**self).out() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> Seq<u8> { (*final(*self)).out() }
    fn write(&mut self, buf: &[u8]) -> (r: IoResult<usize>) { (**self).write(buf) }
    fn write_all(&mut self, buf: &[u8]) -> (r: IoResult<()>) { (**self).write_all(buf) }
    fn flush(&mut self) -> (r: IoResult<()>) { (**self).flush() }
}
#[verifier::external_body]
fn vx_ioerr() -> (e: IoError) { unimplemented!() }
// `v.drain(..n)`
#[verifier::external_body]
fn vx_drain_to(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { v.drain(..n); }
// ---- the layout: an item that would overflow the line goes on the next one ----
pub struct Layout { pub done: Seq<u8>, pub line: Seq<u8> }
impl Layout { pub open spec fn text(self) -> Seq<u8> { self.done + self.line } }
pub open spec fn nl() -> Seq<u8> { seq![10u8] }
pub open spec fn wraps(cap: int, line: Seq<u8>, item: Seq<u8>) -> bool { line.len() > 0 && line.len() + item.len() > cap }
pub open spec fn put(cap: int, s: Layout, item: Seq<u8>) -> Layout {
    if wraps(cap, s.line, item) { Layout { done: s.done + (s.line + nl()), line: item } } else { Layout { done: s.done, line: s.line + item } }
}
//@item src/codecs/pnm/autobreak.rs struct AutoBreak vis=pub
impl<W: Write> AutoBreak<W> {
    // between calls the line under construction has no pending break
    pub closed spec fn inv(&self) -> bool { !self.has_newline }
    pub closed spec fn st(&self) -> Layout { Layout { done: self.wrapped.out(), line: self.line@ } }
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> Seq<u8> { self.wrapped.fin() }
    pub closed spec fn cap(&self) -> int { self.line_capacity as int }
    pub closed spec fn nlf(&self) -> bool { self.has_newline }
    pub closed spec fn inner(&self) -> W { self.wrapped }
//@fn src/codecs/pnm/autobreak.rs new ctx="AutoBreak" ret=r vis=pub
//@ panics forbid
//@ spec
    requires $n1 < usize::MAX,
    ensures r.inv(), r.cap() == $n1, r.st() == (Layout { done: $n0.out(), line: Seq::empty() }), r.inner() == $n0, r.fin() == $n0.fin(),
//@end
//@fn src/codecs/pnm/autobreak.rs flush_buf ret=r
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ subst? `io::Error::new($A)` => `vx_ioerr()`
//@ subst? `self.line.drain(..written)` => `vx_drain_to(&mut self.line, written)`
//@ slices
//@ panics forbid
//@ attrs
#[verifier::exec_allows_no_decreases_clause]
//@ loop 0 while
    invariant_except_break ret.is_ok(),

    invariant len == 0 ==> ret.is_ok(), written <= len, len == old(self).line@.len(), self.line@ == old(self).line@, self.wrapped.out() == old(self).wrapped.out() + self.line@.subrange(0, written as int),
        self.line_capacity == old(self).line_capacity, self.has_newline == old(self).has_newline, self.wrapped.fin() == old(self).wrapped.fin(),
    ensures ret.is_ok() ==> written == len,
//@ spec
    ensures old(self).line@.len() == 0 ==> r.is_ok(), r.is_ok() ==> final(self).wrapped.out() == old(self).wrapped.out() + old(self).line@ && final(self).line@.len() == 0,
        final(self).line_capacity == old(self).line_capacity, final(self).has_newline == old(self).has_newline, final(self).fin() == old(self).fin(),
//@end
//@fn src/codecs/pnm/autobreak.rs write ctx="Write for AutoBreak" ret=r vis=pub
//@ sigsubst `io::Result<usize>` => `IoResult<usize>`
//@ panics forbid
//@ at before `self . line . push`
    proof { assert(self.line@ =~= old(self).line@); }
//@ at before `Ok ( buffer . len ( ) )`
    proof {
        let p = put(old(self).cap(), old(self).st(), $n0@);
        assert(self.st().line =~= p.line); assert(self.st().done =~= p.done);
    }
//@ spec
    requires old(self).inv(), old(self).st().line.len() + $n0@.len() <= usize::MAX,
    ensures r.is_ok() ==> r.unwrap() == $n0@.len() && final(self).inv() && final(self).st() == put(old(self).cap(), old(self).st(), $n0@),
        final(self).cap() == old(self).cap(), final(self).fin() == old(self).fin(),
//@end
//@fn src/codecs/pnm/autobreak.rs flush ctx="Write for AutoBreak" ret=r vis=pub
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ panics forbid
//@ at before `self . wrapped . flush`
    proof { assert(self.line@ =~= Seq::<u8>::empty()); }
//@ spec
    ensures r.is_ok() ==> final(self).st() == (Layout { done: old(self).st().text(), line: Seq::empty() }), final(self).cap() == old(self).cap(), final(self).fin() == old(self).fin(), old(self).inv() ==> final(self).inv(),
        final(self).nlf() == old(self).nlf(),
//@end
//@fn src/codecs/pnm/autobreak.rs drop ctx="Drop for AutoBreak" as=vx_drop
//@ panics forbid
//@ spec
    ensures old(self).st().line.len() == 0 ==> final(self).st().done == old(self).st().done, final(self).fin() == old(self).fin(),
//@ at before `let _r`
    proof { if self.line@.len() == 0 { assert(self.wrapped.out() + self.line@ =~= self.wrapped.out()); } }
//@end
}
// ---- numbers as text ----
pub open spec fn dec(v: int) -> Seq<u8> decreases v { if v < 10 { seq![(48 + v) as u8] } else { dec(v / 10) + seq![(48 + v % 10) as u8] } }
pub open spec fn sp() -> Seq<u8> { seq![32u8] }
pub open spec fn lay(cap: int, s: Layout, v: Seq<u32>, k: int) -> Layout decreases k {
    if k <= 0 { s } else { put(cap, put(cap, lay(cap, s, v, k - 1), dec(v[k - 1] as int)), sp()) }
}
pub open spec fn e() -> Seq<u8> { Seq::empty() }
// every number, each followed by a space, with line breaks so that no line is longer than 70 characters
pub open spec fn ascii(v: Seq<u32>) -> Seq<u8> { lay(70, Layout { done: e(), line: e() }, v, v.len() as int).text() }
// any iterator of integers shown in decimal
pub struct Samples { pub v: Vec<u32> }
// `Display` of an integer writes its digits at once
#[verifier::external_body]
fn vx_digits(v: u32) -> (r: Vec<u8>) ensures r@ == dec(v as int), r@.len() <= 10 { v.to_string().into_bytes() }
fn vx_num<W: Write>(w: &mut AutoBreak<W>, v: u32) -> (r: IoResult<()>)
    requires old(w).inv(), old(w).st().line.len() + 10 <= usize::MAX,
    ensures r.is_ok() ==> final(w).inv() && final(w).st() == put(old(w).cap(), old(w).st(), dec(v as int)), final(w).cap() == old(w).cap(), final(w).fin() == old(w).fin(),
{ let d = vx_digits(v); match w.write(&d) { Ok(_n) => Ok(()), Err(x) => Err(x) } }
// `write_all`: `write` takes everything or fails
fn vx_lit<W: Write>(w: &mut AutoBreak<W>, b: &[u8]) -> (r: IoResult<()>)
    requires old(w).inv(), old(w).st().line.len() + b@.len() <= usize::MAX, b@.len() > 0,
    ensures r.is_ok() ==> final(w).inv() && final(w).st() == put(old(w).cap(), old(w).st(), b@), final(w).cap() == old(w).cap(), final(w).fin() == old(w).fin(),
{ match w.write(b) { Ok(_n) => Ok(()), Err(x) => Err(x) } }
proof fn lemma_dec(v: int) requires 0 <= v <= u32::MAX ensures 1 <= dec(v).len() <= 10
{ reveal_with_fuel(dec, 11); }
// lines never get longer than the capacity
proof fn lemma_line(cap: int, s: Layout, v: Seq<u32>, k: int) requires s.line.len() == 0, cap >= 10, 0 <= k <= v.len() ensures lay(cap, s, v, k).line.len() <= cap decreases k
{ if k > 0 { lemma_line(cap, s, v, k - 1); lemma_dec(v[k - 1] as int); } }
proof fn lemma_base(cap: int, o: Seq<u8>, v: Seq<u32>, k: int)
    requires 0 <= k <= v.len(),
    ensures lay(cap, Layout { done: o, line: e() }, v, k).line == lay(cap, Layout { done: e(), line: e() }, v, k).line,
        lay(cap, Layout { done: o, line: e() }, v, k).done == o + lay(cap, Layout { done: e(), line: e() }, v, k).done,
    decreases k
{
    if k <= 0 { assert(o + e() =~= o); }
    else {
        lemma_base(cap, o, v, k - 1);
        let a = lay(cap, Layout { done: o, line: e() }, v, k - 1); let b = lay(cap, Layout { done: e(), line: e() }, v, k - 1);
        let d = dec(v[k - 1] as int);
        let a1 = put(cap, a, d); let b1 = put(cap, b, d); assert(a1.done =~= o + b1.done); assert(a1.line == b1.line);
        let a2 = put(cap, a1, sp()); let b2 = put(cap, b1, sp()); assert(a2.done =~= o + b2.done);
    }
}
// ---- what a reader makes of the text ----
pub struct Scan { pub got: Seq<int>, pub cur: Option<int> }
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn white(b: u8) -> bool { b == 32 || b == 10 }
pub open spec fn scan1(s: Scan, b: u8) -> Scan {
    if digit(b) { Scan { got: s.got, cur: Some((match s.cur { Some(x) => 10 * x, None => 0 }) + (b - 48)) } }
    else { match s.cur { Some(x) => Scan { got: s.got.push(x), cur: None }, None => s } }
}
pub open spec fn scan(s: Scan, t: Seq<u8>) -> Scan decreases t.len() { if t.len() == 0 { s } else { scan1(scan(s, t.drop_last()), t.last()) } }
pub open spec fn s0() -> Scan { Scan { got: Seq::empty(), cur: None } }
// the numbers of a text, which ends after white space
pub open spec fn numbers(t: Seq<u8>) -> Option<Seq<int>> { if scan(s0(), t).cur.is_none() { Some(scan(s0(), t).got) } else { None } }
proof fn lemma_scan_cat(s: Scan, a: Seq<u8>, b: Seq<u8>) ensures scan(s, a + b) == scan(scan(s, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_scan_cat(s, a, b.drop_last()); }
}
proof fn lemma_scan_dec(s: Scan, v: int) requires s.cur.is_none(), v >= 0 ensures scan(s, dec(v)) == (Scan { got: s.got, cur: Some(v) }) decreases v
{
    if v < 10 { assert(dec(v).drop_last() =~= e()); assert(scan(s, e()) == s); }
    else { lemma_scan_dec(s, v / 10); assert(dec(v).drop_last() =~= dec(v / 10)); }
}
pub open spec fn ints(v: Seq<u32>, k: int) -> Seq<int> { Seq::new(k as nat, |i: int| v[i] as int) }
proof fn lemma_scan_put(s: Scan, cap: int, l: Layout, item: Seq<u8>)
    ensures scan(s, put(cap, l, item).text()) == scan(if wraps(cap, l.line, item) { scan1(scan(s, l.text()), 10) } else { scan(s, l.text()) }, item)
{
    let p = put(cap, l, item);
    if wraps(cap, l.line, item) {
        assert(p.text() =~= (l.text() + nl()) + item); lemma_scan_cat(s, l.text() + nl(), item); lemma_scan_cat(s, l.text(), nl());
        assert(nl().drop_last() =~= e()); assert(scan(scan(s, l.text()), e()) == scan(s, l.text()));
    } else { assert(p.text() =~= l.text() + item); lemma_scan_cat(s, l.text(), item); }
}
proof fn lemma_scan_lay(v: Seq<u32>, k: int)
    requires 0 <= k <= v.len()
    ensures scan(s0(), lay(70, Layout { done: e(), line: e() }, v, k).text()) == (Scan { got: ints(v, k), cur: None }) decreases k
{
    let l0 = Layout { done: e(), line: e() };
    if k == 0 { assert(l0.text() =~= e()); assert(ints(v, 0) =~= Seq::<int>::empty()); }
    else {
        lemma_scan_lay(v, k - 1);
        let a = lay(70, l0, v, k - 1); let d = dec(v[k - 1] as int); let b = put(70, a, d);
        lemma_scan_put(s0(), 70, a, d); lemma_scan_dec(Scan { got: ints(v, k - 1), cur: None }, v[k - 1] as int);
        let mid = Scan { got: ints(v, k - 1), cur: Some(v[k - 1] as int) };
        assert(scan(s0(), b.text()) == mid);
        lemma_scan_put(s0(), 70, b, sp());
        assert(ints(v, k - 1).push(v[k - 1] as int) =~= ints(v, k));
        assert(sp().drop_last() =~= e()); reveal_with_fuel(scan, 2);
    }
}
// only digits and white space, and no more than 70 characters between line breaks
pub open spec fn plain(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] digit(t[i]) || white(t[i]) }
pub open spec fn breaks(t: Seq<u8>, i: int, j: int) -> bool { exists|k: int| i <= k < j && #[trigger] t[k] == 10 }
pub open spec fn short(t: Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i && j <= t.len() && j - i > 70 ==> #[trigger] breaks(t, i, j) }
// `done` is empty or ends with a line break and is well formed; `line` has no break
spec fn good(l: Layout) -> bool {
    short(l.done) && plain(l.done) && plain(l.line) && l.line.len() <= 70 && (l.done.len() > 0 ==> l.done.last() == 10)
}
proof fn lemma_good(l: Layout, item: Seq<u8>) requires good(l), plain(item), item.len() <= 70 ensures good(put(70, l, item))
{
    let p = put(70, l, item);
    if wraps(70, l.line, item) {
        let t = l.done + (l.line + nl()); assert(p.done == t);
        assert(t[t.len() - 1] == 10);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] digit(t[i]) || white(t[i]) by {
            if i < l.done.len() { assert(digit(l.done[i]) || white(l.done[i])); } else if i < l.done.len() + l.line.len() { let z = i - l.done.len(); assert(digit(l.line[z]) || white(l.line[z])); }
        }
        assert forall|i: int, j: int| 0 <= i && j <= t.len() && j - i > 70 implies #[trigger] breaks(t, i, j) by {
            let n = l.done.len() as int;
            if j == t.len() { assert(t[j - 1] == 10); }
            else if j <= n { assert(breaks(l.done, i, j)); let k = choose|k: int| i <= k < j && #[trigger] l.done[k] == 10; assert(t[k] == 10); }
            else { assert(i < n); assert(t[n - 1] == l.done[n - 1]); assert(t[n - 1] == 10); }
        }
    } else {
        assert forall|i: int| 0 <= i < p.line.len() implies #[trigger] digit(p.line[i]) || white(p.line[i]) by {
            if i < l.line.len() { assert(digit(l.line[i]) || white(l.line[i])); } else { let z = i - l.line.len(); assert(digit(item[z]) || white(item[z])); }
        }
    }
}
proof fn lemma_dec_plain(v: int) requires v >= 0 ensures plain(dec(v)) decreases v
{ if v >= 10 { lemma_dec_plain(v / 10); let t = dec(v); let a = dec(v / 10); assert forall|i: int| 0 <= i < t.len() implies #[trigger] digit(t[i]) || white(t[i]) by { if i < a.len() { assert(digit(a[i]) || white(a[i])); } } } }
proof fn lemma_good_lay(v: Seq<u32>, k: int) requires 0 <= k <= v.len() ensures good(lay(70, Layout { done: e(), line: e() }, v, k)) decreases k
{
    if k > 0 {
        lemma_good_lay(v, k - 1); lemma_dec(v[k - 1] as int); lemma_dec_plain(v[k - 1] as int);
        let a = lay(70, Layout { done: e(), line: e() }, v, k - 1); lemma_good(a, dec(v[k - 1] as int)); lemma_good(put(70, a, dec(v[k - 1] as int)), sp());
    }
}
// the text of C21: it reads back as the numbers written, is plain, and every line fits in 70 characters
pub proof fn lemma_ascii(v: Seq<u32>)
    ensures numbers(ascii(v)) == Some(ints(v, v.len() as int)), plain(ascii(v)), short(ascii(v))
{
    lemma_scan_lay(v, v.len() as int); lemma_good_lay(v, v.len() as int);
    let l = lay(70, Layout { done: e(), line: e() }, v, v.len() as int); let t = l.text(); let n = l.done.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] digit(t[i]) || white(t[i]) by {
        if i < n { assert(digit(l.done[i]) || white(l.done[i])); } else { assert(digit(l.line[i - n]) || white(l.line[i - n])); }
    }
    assert forall|i: int, j: int| 0 <= i && j <= t.len() && j - i > 70 implies #[trigger] breaks(t, i, j) by {
        if j <= n { assert(breaks(l.done, i, j)); let k = choose|k: int| i <= k < j && #[trigger] l.done[k] == 10; assert(t[k] == 10); }
        else { assert(i < n); assert(t[n - 1] == l.done[n - 1]); assert(t[n - 1] == 10); }
    }
}
//@item src/codecs/pnm/encoder.rs struct SampleWriter vis=pub sub="<'a>(&'a mut dyn Write)=><'a, W: Write>(pub &'a mut W)"
impl<W: Write> SampleWriter<'_, W> {
//@fn src/codecs/pnm/encoder.rs write_samples_ascii ret=r vis=pub
//@ sigsubst `<V>` => ``
//@ sigsubst `samples: V` => `samples: Samples`
//@ sigsubst `where V: Iterator, V::Item: fmt::Display,` => ``
//@ sigsubst `io::Result<()>` => `IoResult<()>`
//@ fmt own=auto_break_writer
//@ subst? `auto_break_writer.flush()` => `{ let vxr = auto_break_writer.flush(); auto_break_writer.vx_drop(); vxr }`
//@ forvec 0 `samples` => `samples.v`
//@ panics forbid
//@ at body.start
    let ghost s0 = Layout { done: (*self.0).out(), line: e() };
//@ loop 0 forvec
    invariant vxk0 <= vxi0@.len(), auto_break_writer.inv(), auto_break_writer.cap() == 70, auto_break_writer.st() == lay(70, s0, vxi0@, vxk0 as int), s0.line.len() == 0, auto_break_writer.fin() == (*final(self.0)).out(),
    decreases vxi0@.len() - vxk0
//@ at loop0.start
    proof { lemma_line(70, s0, vxi0@, vxk0 as int); lemma_dec(vxi0@[vxk0 as int] as int); assert([32u8]@ =~= sp()); }
//@ at loop0.after
    proof { lemma_base(70, s0.done, vxi0@, vxi0@.len() as int); let x = lay(70, Layout { done: e(), line: e() }, vxi0@, vxi0@.len() as int); assert(s0.done + x.done + x.line =~= s0.done + x.text()); }
//@ spec
    ensures r.is_ok() ==> (*final(self.0)).out() == (*old(self.0)).out() + ascii($n0.v@),
//@end
}
// ---- which samples are written, and how ----
#[derive(Debug)]
pub enum ImageError { IoError, Other }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body]
pub fn vx_err() -> (e: ImageError) { unimplemented!() }
// `.map_err(ImageError::IoError)`
pub fn vx_io<T>(r: IoResult<T>) -> (o: ImageResult<T>) ensures o.is_ok() == r.is_ok(), r.is_ok() ==> o == Ok::<T, ImageError>(r.unwrap()) { match r { Ok(x) => Ok(x), Err(_e) => Err(ImageError::IoError) } }
//@include colortypes.vrs
//@item src/codecs/pnm/header.rs enum SampleEncoding vis=pub attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]"
//@item src/codecs/pnm/header.rs struct PnmHeader vis=pub sub="pub(crate)=>pub"
//@item src/codecs/pnm/header.rs enum HeaderRecord vis=pub
//@item src/codecs/pnm/header.rs struct BitmapHeader vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/codecs/pnm/header.rs struct GraymapHeader vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/codecs/pnm/header.rs struct PixmapHeader vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/codecs/pnm/header.rs struct ArbitraryHeader vis=pub
//@item src/codecs/pnm/header.rs enum ArbitraryTuplType vis=pub
//@item src/codecs/pnm/encoder.rs enum FlatSamples vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/codecs/pnm/encoder.rs enum HeaderStrategy vis=pub
//@item src/codecs/pnm/encoder.rs struct PnmEncoder vis=pub sub="writer:=>pub writer:;;header:=>pub header:"
//@item src/codecs/pnm/header.rs enum PnmSubtype vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/codecs/pnm/encoder.rs struct CheckedImageBuffer vis=pub
//@item src/codecs/pnm/encoder.rs struct UncheckedHeader vis=pub
//@item src/codecs/pnm/encoder.rs struct CheckedDimensions vis=pub
//@item src/codecs/pnm/encoder.rs struct CheckedHeaderColor vis=pub
//@item src/codecs/pnm/encoder.rs struct CheckedHeader vis=pub
//@item src/codecs/pnm/encoder.rs enum TupleEncoding vis=pub
pub open spec fn vn<T: Small>(s: Seq<T>) -> Seq<u32> { Seq::new(s.len(), |i: int| s[i].n()) }
pub open spec fn vals(s: FlatSamples) -> Seq<u32> { match s { FlatSamples::U8(a) => vn(a@), FlatSamples::U16(a) => vn(a@) } }
pub open spec fn upto(s: Seq<u32>, max: u32) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= max }
pub open spec fn blacks(s: Seq<u32>) -> Seq<u32> { s.map_values(|v: u32| if v == 0 { 1u32 } else { 0u32 }) }
// `s.iter().all(f)`
#[verifier::external_body]
fn vx_every<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), true), !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), false),
{ s.iter().all(f) }
// `s.iter()` and `s.iter().map(f)` as sequences of integers to be shown
pub trait Small: Copy { spec fn n(self) -> u32; fn small(self) -> (r: u32) ensures r == self.n(); }
impl Small for u8 { open spec fn n(self) -> u32 { self as u32 } fn small(self) -> (r: u32) { self as u32 } }
impl Small for u16 { open spec fn n(self) -> u32 { self as u32 } fn small(self) -> (r: u32) { self as u32 } }
#[verifier::external_body]
fn vx_nums<T: Small>(s: &[T]) -> (r: Samples) ensures r.v@ == vn(s@) { Samples { v: s.iter().map(|x| x.small()).collect() } }
#[verifier::external_body]
fn vx_map<T, U: Small, F: Fn(&T) -> U>(s: &[T], f: F) -> (r: Samples)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures r.v@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> exists|u: U| call_ensures(f, (&s@[i],), u) && #[trigger] r.v@[i] == u.n(),
{ Samples { v: s.iter().map(|x| f(x).small()).collect() } }
pub fn u8_from(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }
#[verifier::external_body]
fn vx_write_u16s<W: Write>(w: &mut W, s: &[u16]) -> (r: ImageResult<()>) { unimplemented!() }
#[verifier::external_body]
fn vx_pbm<W: Write, T>(w: &mut W, s: &[T], width: u32) -> (r: IoResult<()>) { unimplemented!() }
impl<'a> FlatSamples<'a> {
//@fn src/codecs/pnm/encoder.rs len ctx="FlatSamples" ret=r
//@ spec
    ensures r == vals(*self).len(),
//@end
//@fn src/codecs/pnm/encoder.rs all_smaller ctx="FlatSamples" ret=r
//@ subst? `arr.iter().all(|&val| $A)` => `vx_every(arr, |vxv| { let val = *vxv; $A })`
//@ closure 0 (&u8) -> (cr: bool)
    ensures cr == (*$p0 as u32 <= max_val)
//@ closure 1 (&u16) -> (cr: bool)
    ensures cr == (*$p0 as u32 <= max_val)
//@ spec
    ensures r == upto(vals(*self), $n0),
//@ at body.start
    proof { match *self { FlatSamples::U8(a) => { assert forall|i: int| 0 <= i < a@.len() implies vals(*self)[i] == #[trigger] a@[i] as u32 by {} } FlatSamples::U16(a) => { assert forall|i: int| 0 <= i < a@.len() implies vals(*self)[i] == #[trigger] a@[i] as u32 by {} } } }
//@end
//@fn src/codecs/pnm/encoder.rs encoding_for ctx="FlatSamples" ret=r
//@ spec
    ensures enc_ok(*$n0, *self, r),
//@end
}
// which encoding a header asks for
pub open spec fn enc_ok(h: HeaderRecord, s: FlatSamples, r: TupleEncoding) -> bool {
    match h {
        HeaderRecord::Bitmap(b) => if b.encoding == SampleEncoding::Ascii { r == (TupleEncoding::PbmAscii { samples: s }) } else { r == (TupleEncoding::PbmBits { samples: s, width: b.width }) },
        HeaderRecord::Graymap(g) => if g.encoding == SampleEncoding::Ascii { r == (TupleEncoding::Ascii { samples: s }) } else { r == (TupleEncoding::Bytes { samples: s }) },
        HeaderRecord::Pixmap(g) => if g.encoding == SampleEncoding::Ascii { r == (TupleEncoding::Ascii { samples: s }) } else { r == (TupleEncoding::Bytes { samples: s }) },
        HeaderRecord::Arbitrary(_) => r == (TupleEncoding::Bytes { samples: s }),
    }
}
// the greatest sample a header allows; a bitmap only tells zero from the others
pub open spec fn hmax(h: HeaderRecord) -> u32 {
    match h { HeaderRecord::Bitmap(_) => 0xffff, HeaderRecord::Graymap(g) => g.maxwhite, HeaderRecord::Pixmap(g) => g.maxval, HeaderRecord::Arbitrary(g) => g.maxval }
}
// the greatest sample of a colour type of at most 16 bits
pub open spec fn cmax(c: ExtendedColorType) -> u32 {
    match c {
        ExtendedColorType::L1 => 1, ExtendedColorType::Unknown(n) => if n <= 16 { ((1u32 << n) - 1) as u32 } else { 0xffff },
        ExtendedColorType::L8 | ExtendedColorType::La8 | ExtendedColorType::Rgb8 | ExtendedColorType::Rgba8 | ExtendedColorType::Bgr8 | ExtendedColorType::Bgra8 => 0xff,
        _ => 0xffff,
    }
}
// samples of an image of that size and colour
pub open spec fn whole(c: ExtendedColorType, w: u32, h: u32) -> int { (echans(c) * w) * h }
pub proof fn lemma_whole(c: ExtendedColorType, w: u32, h: u32)
    ensures 0 <= echans(c) * w <= usize::MAX, 0 <= whole(c, w, h)
{
    assert(0 <= echans(c) * w <= 255 * 0xffff_ffff) by (nonlinear_arith) requires 0 <= echans(c) <= 255, 0 <= w <= 0xffff_ffff;
    assert(0 <= (echans(c) * w) * h) by (nonlinear_arith) requires 0 <= echans(c) * w, 0 <= h;
}
// the samples fit the header, and follow its text in the form it announces
pub open spec fn written(hd: PnmHeader, img: FlatSamples, o: Seq<u8>, f: Seq<u8>) -> bool {
    let h = header_text(hd);
    upto(vals(img), hmax(hd.decoded)) && match hd.decoded {
        HeaderRecord::Bitmap(b) => b.encoding == SampleEncoding::Ascii ==> f == o + h + ascii(blacks(vals(img))),
        HeaderRecord::Graymap(b) => b.encoding == SampleEncoding::Ascii ==> f == o + h + ascii(vals(img)),
        HeaderRecord::Pixmap(b) => b.encoding == SampleEncoding::Ascii ==> f == o + h + ascii(vals(img)),
        _ => true,
    }
}
pub open spec fn made(h: PnmHeader) -> bool { true }
// the header made for an image without a chosen format
pub open spec fn pam(h: PnmHeader, w: u32, ht: u32, c: ExtendedColorType) -> bool {
    h.encoded is None && match h.decoded {
        HeaderRecord::Arbitrary(a) => a.width == w && a.height == ht && a.depth == echans(c) && a.maxval == cmax2(c) && a.tupltype == Some(tuple_of(c)),
        _ => false,
    }
}
// the samples of one-bit images are zero and one
pub open spec fn cmax2(c: ExtendedColorType) -> u32 { if ebits(c) == echans(c) { 1 } else { cmax(c) } }
pub open spec fn tuple_of(c: ExtendedColorType) -> ArbitraryTuplType {
    let one = ebits(c) == echans(c);
    if echans(c) == 1 { if one { ArbitraryTuplType::BlackAndWhite } else { ArbitraryTuplType::Grayscale } }
    else if echans(c) == 2 { if one { ArbitraryTuplType::BlackAndWhiteAlpha } else { ArbitraryTuplType::GrayscaleAlpha } }
    else if echans(c) == 3 { ArbitraryTuplType::RGB } else { ArbitraryTuplType::RGBAlpha }
}
// the header made for a chosen format: the format asked for, and the colour it can hold
pub open spec fn of_subtype(h: PnmHeader, s: PnmSubtype, w: u32, ht: u32, c: ExtendedColorType) -> bool {
    hw(h.decoded) == w && hh(h.decoded) == ht && h.encoded is None && match s {
        PnmSubtype::ArbitraryMap => pam(h, w, ht, c),
        PnmSubtype::Pixmap(e) => c == ExtendedColorType::Rgb8 && (h.decoded matches HeaderRecord::Pixmap(p) && p.encoding == e && p.maxval == 255),
        PnmSubtype::Graymap(e) => c == ExtendedColorType::L8 && (h.decoded matches HeaderRecord::Graymap(p) && p.encoding == e && p.maxwhite == 255),
        PnmSubtype::Bitmap(e) => (c == ExtendedColorType::L8 || c == ExtendedColorType::L1) && (h.decoded matches HeaderRecord::Bitmap(p) && p.encoding == e),
    }
}
impl<'a> CheckedImageBuffer<'a> {
//@fn src/codecs/pnm/encoder.rs check ctx="CheckedImageBuffer" ret=r
//@ subst? `ImageError::Parameter($A)` => `vx_err()`
//@ closure 0 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 * uheight <= usize::MAX { Some(($p0 * uheight) as usize) } else { None })
//@ spec
    ensures r.is_ok() ==> r.unwrap()._image == $n0, r.is_ok() <==> vals($n0).len() == whole($n3, $n1, $n2),
//@ at body.start
    proof { lemma_whole($n3, $n1, $n2); }
//@end
}
impl<'a> UncheckedHeader<'a> {
//@fn src/codecs/pnm/encoder.rs check_header_dimensions ctx="UncheckedHeader" ret=r
//@ subst? `ImageError::Parameter($A)` => `vx_err()`
//@ spec
    ensures r.is_ok() ==> r.unwrap().unchecked == self && r.unwrap().width == $n0 && r.unwrap().height == $n1, r.is_ok() <==> hw(self.header.decoded) == $n0 && hh(self.header.decoded) == $n1,
//@end
}
impl PnmHeader {
//@fn src/codecs/pnm/header.rs width ctx="PnmHeader" ret=r vis=pub
//@ spec
    ensures r == hw(self.decoded),
//@end
//@fn src/codecs/pnm/header.rs height ctx="PnmHeader" ret=r vis=pub
//@ spec
    ensures r == hh(self.decoded),
//@end
    #[verifier::external_body]
    fn write<W: Write>(&self, w: &mut W) -> (r: ImageResult<()>) ensures r.is_ok() ==> (*final(w)).out() == (*old(w)).out() + header_text(*self), (*final(w)).fin() == (*old(w)).fin() { unimplemented!() }
}
pub uninterp spec fn header_text(h: PnmHeader) -> Seq<u8>;
pub open spec fn hw(h: HeaderRecord) -> u32 { match h { HeaderRecord::Bitmap(g) => g.width, HeaderRecord::Graymap(g) => g.width, HeaderRecord::Pixmap(g) => g.width, HeaderRecord::Arbitrary(g) => g.width } }
pub open spec fn hh(h: HeaderRecord) -> u32 { match h { HeaderRecord::Bitmap(g) => g.height, HeaderRecord::Graymap(g) => g.height, HeaderRecord::Pixmap(g) => g.height, HeaderRecord::Arbitrary(g) => g.height } }
impl<'a> CheckedDimensions<'a> {
//@fn src/codecs/pnm/encoder.rs check_header_color ctx="CheckedDimensions" ret=r
//@ subst? `( & Some` => `( Some`
//@ subst? `( & None` => `( None`
//@ subst? `ImageError::Parameter($A)` => `vx_err()`
//@ spec
    ensures r.is_ok() ==> r.unwrap().dimensions == self && r.unwrap().color == $n0,
//@end
}
impl<'a> CheckedHeaderColor<'a> {
//@fn src/codecs/pnm/encoder.rs check_sample_values ret=r
//@ subst? `ImageError::Unsupported($A)` => `vx_err()`
//@ at body.start
    proof { assert(forall|n: u8| n <= 16 ==> #[trigger] (1u32 << n) >= 1) by (bit_vector); }
//@ spec
    requires upto(vals($n0), cmax(self.color)),
    ensures r.is_ok() ==> upto(vals($n0), hmax(self.dimensions.unchecked.header.decoded)) && enc_ok(self.dimensions.unchecked.header.decoded, $n0, r.unwrap().encoding) && r.unwrap().color == self
            && vals($n0).len() == whole(self.color, self.dimensions.width, self.dimensions.height),
//@end
}
impl<'a> CheckedHeader<'a> {
//@fn src/codecs/pnm/encoder.rs header ctx="CheckedHeader" ret=r
//@ spec
    ensures r == self.color.dimensions.unchecked.header,
//@end
//@fn src/codecs/pnm/encoder.rs write_header ctx="CheckedHeader" ret=r
//@ sigsubst `fn write_header` => `fn write_header<W: Write>`
//@ sigsubst `&mut dyn Write` => `&mut W`
//@ spec
    ensures r.is_ok() ==> r.unwrap() == self.encoding && (*final($n0)).out() == (*old($n0)).out() + header_text(*self.color.dimensions.unchecked.header), (*final($n0)).fin() == (*old($n0)).fin(),
//@end
}
impl TupleEncoding<'_> {
//@fn src/codecs/pnm/encoder.rs write_image ctx="TupleEncoding" ret=r
//@ sigsubst `fn write_image` => `fn write_image<W: Write>`
//@ sigsubst `&mut dyn Write` => `&mut W`
//@ subst? `SampleWriter(writer).write_pbm_bits(samples, width).map_err(ImageError::IoError)` => `vx_io(vx_pbm(writer, samples, width))`
//@ subst? `SampleWriter(writer).write_samples_ascii(samples.iter()).map_err(ImageError::IoError)` => `vx_io(SampleWriter(writer).write_samples_ascii(vx_nums(samples)))`
//@ subst? `SampleWriter(writer).write_samples_ascii(samples.iter().map(|&v| $A)).map_err(ImageError::IoError)` => `{ let vxs = vx_map(samples, |vxv| { let v = *vxv; $A }); proof { assert(vxs.v@ =~= blacks(vn(samples@))); } vx_io(SampleWriter(writer).write_samples_ascii(vxs)) }`
//@ subst? `u8::from($A)` => `u8_from($A)`
//@ subst? `writer.write_all(samples).map_err(ImageError::IoError)` => `vx_io(writer.write_all(samples))`
//@ subst? `samples.iter().try_for_each($A)` => `vx_write_u16s(writer, samples)`
//@ closure 0 (&u8) -> (cr: u8)
    ensures cr == (if *$p0 == 0 { 1u8 } else { 0u8 })
//@ closure 1 (&u16) -> (cr: u8)
    ensures cr == (if *$p0 == 0 { 1u8 } else { 0u8 })
//@ spec
    ensures r.is_ok() ==> match *self {
        TupleEncoding::PbmAscii { samples: s } => (*final($n0)).out() == (*old($n0)).out() + ascii(blacks(vals(s))),
        TupleEncoding::Ascii { samples: s } => (*final($n0)).out() == (*old($n0)).out() + ascii(vals(s)),
        TupleEncoding::Bytes { samples: FlatSamples::U8(s) } => (*final($n0)).out() == (*old($n0)).out() + s@,
        _ => true,
    },
//@end
}
impl<W: Write> PnmEncoder<W> {
//@fn src/codecs/pnm/encoder.rs write_with_header ret=r
//@ sigsubst `writer: &mut dyn Write` => `writer: &mut W`
//@ spec
    requires upto(vals($n2), cmax($n5)),
    ensures r.is_ok() ==> written(*$n1, $n2, (*old($n0)).out(), (*final($n0)).out()) && hw($n1.decoded) == $n3 && hh($n1.decoded) == $n4 && vals($n2).len() == whole($n5, $n3, $n4),
//@end
//@fn src/codecs/pnm/encoder.rs write_dynamic_header ret=r
//@ subst? `ImageError::Unsupported($A)` => `vx_err()`
//@ spec
    requires upto(vals($n0), cmax($n3)),
    // a header for this very image, allowing every value of its colour type
    ensures r.is_ok() ==> exists|h: PnmHeader| #[trigger] made(h) && written(h, $n0, old(self).writer.out(), final(self).writer.out()) && pam(h, $n1, $n2, $n3), r.is_ok() ==> vals($n0).len() == whole($n3, $n1, $n2),
//@ at before `Self::write_with_header`
    assert(made(header) && pam(header, $n1, $n2, $n3));
//@end
//@fn src/codecs/pnm/encoder.rs write_subtyped_header ret=r
//@ subst? `ImageError::Parameter($A)` => `vx_err()`
//@ spec
    requires upto(vals($n1), cmax($n4)),
    ensures r.is_ok() ==> exists|h: PnmHeader| #[trigger] made(h) && written(h, $n1, old(self).writer.out(), final(self).writer.out()) && of_subtype(h, $n0, $n2, $n3, $n4), r.is_ok() ==> vals($n1).len() == whole($n4, $n2, $n3),
//@ at before `Self::write_with_header`
    assert(made(header) && of_subtype(header, $n0, $n2, $n3, $n4));
//@end
//@fn src/codecs/pnm/encoder.rs encode ret=r vis=pub
//@ sigsubst `encode<'s, S>` => `encode<'s>`
//@ sigsubst `image: S` => `image: FlatSamples<'s>`
//@ sigsubst `where S: Into<FlatSamples<'s>>,` => ``
//@ subst? `let image = image.into();` => ``
//@ spec
    requires upto(vals($n0), cmax($n3)),
    // whichever way the header is found, it describes the image, allows its samples, and the samples follow it
    ensures r.is_ok() ==> vals($n0).len() == whole($n3, $n1, $n2) && exists|h: PnmHeader| #[trigger] made(h) && written(h, $n0, old(self).writer.out(), final(self).writer.out()) && hw(h.decoded) == $n1 && hh(h.decoded) == $n2
        && match old(self).header { HeaderStrategy::Dynamic => pam(h, $n1, $n2, $n3), HeaderStrategy::Subtype(s) => of_subtype(h, s, $n1, $n2, $n3), HeaderStrategy::Chosen(c) => h == c },
//@ at body.start
    proof { assert(forall|vxc: PnmHeader| self.header == HeaderStrategy::Chosen(vxc) ==> #[trigger] made(vxc)); assert(self.header matches HeaderStrategy::Chosen(vxc) ==> made(vxc)); }
//@end
}
}
fn main() {}
