// ---- assumed contracts of core functions that vstd does not specify (trusted; see DESIGN.md) ----
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
pub assume_specification [i64::saturating_mul] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a * b > i64::MAX { i64::MAX as int } else if a * b < i64::MIN { i64::MIN as int } else { a * b });
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification [<i64 as core::convert::From<u32>>::from] (a: u32) -> (r: i64) ensures r == a;
