// ---- the k-th piece of `v.chunks_mut(n)` and their number ----
pub fn vx_nchunks(len: usize, n: usize) -> (r: usize) requires n > 0 ensures r == (if len % n == 0 { len / n } else { (len / n + 1) as usize }), len % n > 0 ==> len / n < usize::MAX, len % n == 0 ==> r * n == len
{
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len as int, n as int); assert((len / n) * n == n * (len / n)) by (nonlinear_arith); assert(len / n <= len) by (nonlinear_arith) requires n > 0; assert(n == 1 ==> len % n == 0); assert(n > 1 ==> len / n < usize::MAX) by (nonlinear_arith) requires n > 0, len <= usize::MAX; }
    if len % n == 0 { len / n } else { len / n + 1 }
}
pub fn vx_chunk_mut<T>(v: &mut [T], n: usize, k: usize) -> (o: &mut [T])
    requires n > 0, k * n < old(v)@.len(),
    ensures o@ == old(v)@.subrange(k * n, if k * n + n <= old(v)@.len() { k * n + n } else { old(v)@.len() as int }), final(o)@.len() == o@.len(),
        final(v)@ == old(v)@.subrange(0, k * n) + final(o)@ + old(v)@.subrange(k * n + o@.len(), old(v)@.len() as int),
{ let a = k * n; let e = if v.len() - a < n { v.len() } else { a + n }; vx_slice_mut(v, a, e) }
