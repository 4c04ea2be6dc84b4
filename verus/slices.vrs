// ---- range indexing and bulk copies of slices (documented behaviour of core) ----
pub fn vx_idx<T>(v: &[T], a: usize, b: usize) -> (o: &[T])
    requires a <= b <= v@.len(), ensures o@ == v@.subrange(a as int, b as int) { &v[a..b] }
pub fn vx_from<T>(v: &[T], a: usize) -> (o: &[T]) requires a <= v@.len(), ensures o@ == v@.skip(a as int) { &v[a..] }
pub fn vx_all<T>(v: &[T]) -> (o: &[T]) ensures o@ == v@ { v }
#[verifier::external_body]
pub fn vx_copy_from<T: Copy>(dst: &mut [T], a: usize, src: &[T])
    requires a <= old(dst)@.len(), src@.len() == old(dst)@.len() - a,
    ensures final(dst)@ == old(dst)@.subrange(0, a as int) + src@ { dst[a..].copy_from_slice(src) }
#[verifier::external_body]
pub fn vx_copy_all<T: Copy>(dst: &mut [T], src: &[T]) requires src@.len() == old(dst)@.len(), ensures final(dst)@ == src@ { dst.copy_from_slice(src) }
#[verifier::external_body]
pub fn vx_from_mut<T>(v: &mut [T], a: usize) -> (o: &mut [T])
    requires a <= old(v)@.len(), ensures o@ == old(v)@.skip(a as int), final(o)@.len() == old(v)@.len() - a, final(v)@ == old(v)@.subrange(0, a as int) + final(o)@,
{ &mut v[a..] }
#[verifier::external_body]
pub fn vx_all_mut<T>(v: &mut [T]) -> (o: &mut [T]) ensures o@ == old(v)@, final(v)@ == final(o)@, final(o)@.len() == o@.len() { v }
// `dst[a..b].copy_from_slice(src)`
#[verifier::external_body]
pub fn vx_copy_into<T: Copy>(dst: &mut [T], a: usize, b: usize, src: &[T])
    requires a <= b <= old(dst)@.len(), src@.len() == b - a,
    ensures final(dst)@.len() == old(dst)@.len(), forall|k: int| 0 <= k < old(dst)@.len() ==> #[trigger] final(dst)@[k] == (if a <= k < b { src@[k - a] } else { old(dst)@[k] }),
{ dst[a..b].copy_from_slice(src) }
#[verifier::external_body]
pub fn vx_slice_mut<T>(v: &mut [T], a: usize, b: usize) -> (o: &mut [T])
    requires a <= b <= old(v)@.len(),
    ensures o@ == old(v)@.subrange(a as int, b as int), final(o)@.len() == b - a,
        final(v)@ == old(v)@.subrange(0, a as int) + final(o)@ + old(v)@.subrange(b as int, old(v)@.len() as int),
{ &mut v[a..b] }
