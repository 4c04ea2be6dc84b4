#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include colortypes.vrs
// ---- stand-ins for error values: only the variant matters ----
pub mod error {
    use vstd::prelude::*;
    pub enum LimitErrorKind { DimensionError, InsufficientMemory }
    pub struct LimitError { pub kind: LimitErrorKind }
    impl LimitError { pub fn from_kind(kind: LimitErrorKind) -> (r: LimitError) ensures r.kind == kind { LimitError { kind } } }
}
pub enum ImageError { Limits(error::LimitError), Other }
pub type ImageResult<T> = Result<T, ImageError>;

//@item src/image_reader/mod.rs struct LimitSupport vis=pub
//@item src/image_reader/mod.rs struct Limits vis=pub

pub open spec fn smin64(a: int) -> int { if a > u64::MAX { u64::MAX as int } else { a } }
pub open spec fn fits_dim(m: Option<u32>, v: u32) -> bool { m.is_none() || v <= m.unwrap() }
pub open spec fn same_dims(a: Limits, b: Limits) -> bool { a.max_image_width == b.max_image_width && a.max_image_height == b.max_image_height }
// what is left of a budget after spending
pub open spec fn spent(a: Option<u64>, n: int) -> Option<u64> { if a.is_none() { a } else { Some((a.unwrap() - n) as u64) } }
pub open spec fn fits_alloc(a: Option<u64>, n: int) -> bool { a.is_none() || n <= a.unwrap() }
pub open spec fn img_bytes(w: int, h: int, c: ColorType) -> int { smin64(w * h * cbytes(c)) }

impl Limits {
//@fn src/image_reader/mod.rs default ctx="impl Default for Limits" ret=res vis=pub
//@ spec
    ensures res.max_image_width.is_none(), res.max_image_height.is_none(), res.max_alloc == Some(536870912u64),
//@end
//@fn src/image_reader/mod.rs no_limits ctx="impl Limits" ret=res vis=pub
//@ spec
    ensures res.max_image_width.is_none(), res.max_image_height.is_none(), res.max_alloc.is_none(),
//@end
//@fn src/image_reader/mod.rs check_support ctx="impl Limits" ret=res vis=pub
//@ spec
    ensures res.is_ok(),
//@end
//@fn src/image_reader/mod.rs check_dimensions ctx="impl Limits" ret=res vis=pub
//@ spec
    ensures res.is_ok() <==> fits_dim(self.max_image_width, $n0) && fits_dim(self.max_image_height, $n1),
        res.is_err() ==> res.unwrap_err() == ImageError::Limits(error::LimitError { kind: error::LimitErrorKind::DimensionError }),
//@end
//@fn src/image_reader/mod.rs reserve ctx="impl Limits" ret=res vis=pub
//@ spec
    ensures res.is_ok() <==> fits_alloc(old(self).max_alloc, $n0 as int),
        same_dims(*final(self), *old(self)),
        final(self).max_alloc == (if res.is_ok() { spent(old(self).max_alloc, $n0 as int) } else { old(self).max_alloc }),
//@end
//@fn src/image_reader/mod.rs reserve_usize ctx="impl Limits" ret=res vis=pub
//@ spec
    ensures res.is_ok() <==> fits_alloc(old(self).max_alloc, $n0 as int),
        same_dims(*final(self), *old(self)),
        final(self).max_alloc == (if res.is_ok() { spent(old(self).max_alloc, $n0 as int) } else { old(self).max_alloc }),
//@end
//@fn src/image_reader/mod.rs reserve_buffer ctx="impl Limits" ret=res vis=pub
//@ spec
    ensures ({ let n = img_bytes($n0 as int, $n1 as int, $n2);
        &&& res.is_ok() <==> fits_dim(old(self).max_image_width, $n0) && fits_dim(old(self).max_image_height, $n1) && fits_alloc(old(self).max_alloc, n)
        &&& same_dims(*final(self), *old(self))
        &&& final(self).max_alloc == (if res.is_ok() { spent(old(self).max_alloc, n) } else { old(self).max_alloc }) }),
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound($n0 as int, u32::MAX as int, $n1 as int, u32::MAX as int); }
//@end
//@fn src/image_reader/mod.rs free ctx="impl Limits" vis=pub
//@ spec
    ensures same_dims(*final(self), *old(self)),
        final(self).max_alloc == (if old(self).max_alloc.is_none() { None } else { Some(smin64(old(self).max_alloc.unwrap() + $n0) as u64) }),
//@end
//@fn src/image_reader/mod.rs free_usize ctx="impl Limits" vis=pub
//@ spec
    ensures same_dims(*final(self), *old(self)),
        final(self).max_alloc == (if old(self).max_alloc.is_none() { None } else { Some(smin64(old(self).max_alloc.unwrap() + $n0) as u64) }),
//@end
}
// releasing what was reserved restores the budget; a budget never grows past what it was
pub proof fn lemma_history(b: u64, a: u64) requires a <= b ensures smin64((b - a) + a) == b {}

pub trait ImageDecoder {
    spec fn s_dims(&self) -> (u32, u32);
    spec fn s_color(&self) -> ColorType;
    fn dimensions(&self) -> (r: (u32, u32)) ensures r == self.s_dims();
    fn color_type(&self) -> (r: ColorType) ensures r == self.s_color();
//@fn src/image.rs total_bytes ctx="trait ImageDecoder" ret=res
//@ spec
    ensures res == img_bytes(self.s_dims().0 as int, self.s_dims().1 as int, self.s_color()),
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound(self.s_dims().0 as int, u32::MAX as int, self.s_dims().1 as int, u32::MAX as int); }
//@end
//@fn src/image.rs set_limits ctx="trait ImageDecoder" ret=res
//@ subst `crate::LimitSupport` => `LimitSupport`
//@ sigsubst `crate::Limits` => `Limits`
//@ subst? `LimitSupport::default()` => `LimitSupport {}`
//@ spec
    ensures res.is_ok() <==> fits_dim($n0.max_image_width, old(self).s_dims().0) && fits_dim($n0.max_image_height, old(self).s_dims().1),
//@end
}
impl ExtendedColorType {
//@fn src/color.rs buffer_size ctx="impl ExtendedColorType" ret=res vis=pub
//@ spec
    ensures res == smin64(((($n0 as int) * ebits(self) + 7) / 8) * $n1),
//@ at body.start
    proof { vstd::arithmetic::mul::lemma_mul_upper_bound($n0 as int, u32::MAX as int, ebits(self), 255); }
//@end
}
}
fn main() {}
