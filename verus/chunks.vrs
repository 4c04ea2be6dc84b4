// assumed contract of `s.chunks(n)`, as the vector of its items
#[verifier::external_body]
pub fn vx_chunks<'a, T>(s: &'a [T], n: usize) -> (r: Vec<&'a [T]>)
    requires n > 0,
    ensures n * r.len() >= s@.len(), n * (r.len() - 1) < s@.len() || r.len() == 0,
        forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k])@ == s@.subrange(k * n, if (k + 1) * n <= s@.len() { (k + 1) * n } else { s@.len() as int }),
{ s.chunks(n).collect() }
#[verifier::external_body]
pub fn vx_chunks_exact<'a, T>(s: &'a [T], n: usize) -> (r: Vec<&'a [T]>)
    requires n > 0,
    ensures r.len() == s@.len() / n as nat, forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k])@ == s@.subrange(k * n, k * n + n),
{ s.chunks_exact(n).collect() }
// `a == b` of slices of plain data
#[verifier::external_body]
pub fn vx_same<T: PartialEq>(a: &[T], b: &[T]) -> (r: bool) ensures r <==> a@ == b@ { a == b }
#[verifier::external_body]
pub fn vx_extend<T: Copy>(v: &mut Vec<T>, s: &[T]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
#[verifier::external_body]
pub fn vx_resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T) ensures final(v)@ == old(v)@.subrange(0, if n < old(v)@.len() { n as int } else { old(v)@.len() as int }) + Seq::new((if n < old(v)@.len() { 0 } else { n - old(v)@.len() }) as nat, |k: int| x) { v.resize(n, x) }
