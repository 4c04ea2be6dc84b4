//@item src/metadata.rs enum Orientation vis=pub attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]"
// the eight codes of EXIF tag 0x112
pub open spec fn code(o: Orientation) -> int {
    match o { Orientation::NoTransforms => 1, Orientation::FlipHorizontal => 2, Orientation::Rotate180 => 3, Orientation::FlipVertical => 4,
        Orientation::Rotate90FlipH => 5, Orientation::Rotate90 => 6, Orientation::Rotate270FlipH => 7, Orientation::Rotate270 => 8 }
}
pub open spec fn decode(c: int) -> Option<Orientation> {
    if c == 1 { Some(Orientation::NoTransforms) } else if c == 2 { Some(Orientation::FlipHorizontal) } else if c == 3 { Some(Orientation::Rotate180) } else if c == 4 { Some(Orientation::FlipVertical) }
    else if c == 5 { Some(Orientation::Rotate90FlipH) } else if c == 6 { Some(Orientation::Rotate90) } else if c == 7 { Some(Orientation::Rotate270FlipH) } else if c == 8 { Some(Orientation::Rotate270) } else { None }
}
pub proof fn bijection(o: Orientation, c: int) ensures decode(code(o)) == Some(o), 1 <= code(o) <= 8, decode(c).is_some() <==> 1 <= c <= 8, decode(c).is_some() ==> code(decode(c).unwrap()) == c {}
// the first entry of the first directory that is a single SHORT tagged 0x112 decides
pub open spec fn is_entry(d: Seq<u8>, p: int, le: bool) -> bool { u16_at(d, p, le) == 0x112 && u16_at(d, p + 2, le) == 3 && u32_at(d, p + 4, le) == 1 }
pub open spec fn scan(d: Seq<u8>, p: int, n: int, le: bool) -> Option<Orientation> decreases n {
    if n <= 0 || p + 12 > d.len() { None } else if is_entry(d, p, le) { decode(u16_at(d, p + 8, le)) } else { scan(d, p + 12, n - 1, le) }
}
pub open spec fn directory(d: Seq<u8>, le: bool) -> Option<Orientation> {
    if d.len() < 8 { None } else { let p = u32_at(d, 4, le); if p + 2 > d.len() { None } else { scan(d, p + 2, u16_at(d, p, le), le) } }
}
pub open spec fn magic_is(d: Seq<u8>, a: u8, b: u8, c: u8, e: u8) -> bool { d.len() >= 4 && d[0] == a && d[1] == b && d[2] == c && d[3] == e }
pub open spec fn exif(d: Seq<u8>) -> Option<Orientation> {
    if magic_is(d, 0x49, 0x49, 42, 0) { directory(d, true) } else if magic_is(d, 0x4d, 0x4d, 0, 42) { directory(d, false) } else { None }
}
impl Orientation {
//@fn src/metadata.rs from_exif ctx="impl Orientation" ret=res vis=pub
//@ spec
    ensures res == decode($n0 as int),
//@end
//@fn src/metadata.rs to_exif ctx="impl Orientation" ret=res vis=pub
//@ spec
    ensures res == code(self),
//@end
//@fn src/metadata.rs from_exif_chunk ctx="impl Orientation" ret=res vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ arraymatch
//@ subst? `value.min(255)` => `core::cmp::min(value, 255)`
//@ spec
    ensures res == exif($n0@),
//@ loop 0 for it=it
    invariant reader.d@ == $n0@, it.index@ <= entries, directory($n0@, true) == scan($n0@, reader.p as int, entries - it.index@, true),
//@ loop 1 for it=it
    invariant reader.d@ == $n0@, it.index@ <= entries, directory($n0@, false) == scan($n0@, reader.p as int, entries - it.index@, false),
//@end
}
