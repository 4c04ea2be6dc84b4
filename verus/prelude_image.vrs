#![feature(const_destruct)]
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::std_specs::cmp::*;
#[allow(unused_imports)]
use core::cmp;
#[allow(unused_imports)]
use std::cmp::{min, max};
verus! {

#[verifier::external_body]
pub fn vx_nondet() -> bool { unimplemented!() }

// ---- stand-ins for types the functions mention; no behaviour assumed beyond the contracts below ----
pub trait Pixel: Copy + Clone {
    type Subpixel;
    spec fn spec_blend(self, other: Self) -> Self;
    fn blend(&mut self, other: &Self)
        ensures *final(self) == old(self).spec_blend(*other);
}

pub trait GenericImageView {
    type Pixel: Pixel;
    spec fn sw(&self) -> u32;
    spec fn sh(&self) -> u32;
    spec fn px(&self, x: int, y: int) -> Self::Pixel;
    fn dimensions(&self) -> (r: (u32, u32))
        ensures r.0 == self.sw(), r.1 == self.sh();
    fn width(&self) -> (r: u32) ensures r == self.sw();
    fn height(&self) -> (r: u32) ensures r == self.sh();
    // get_pixel is documented to panic out of bounds: callers must prove the bounds
    fn get_pixel(&self, x: u32, y: u32) -> (r: Self::Pixel)
        requires x < self.sw(), y < self.sh(),
        ensures r == self.px(x as int, y as int);
}
pub trait GenericImage: GenericImageView {
    fn put_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel)
        requires x < old(self).sw(), y < old(self).sh(),
        ensures final(self).sw() == old(self).sw(), final(self).sh() == old(self).sh(),
            forall|i: int, j: int| #[trigger] final(self).px(i, j) == (if i == x && j == y { pixel } else { old(self).px(i, j) });
    fn blend_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel)
        requires x < old(self).sw(), y < old(self).sh(),
        ensures final(self).sw() == old(self).sw(), final(self).sh() == old(self).sh(),
            forall|i: int, j: int| #[trigger] final(self).px(i, j) == (if i == x && j == y { old(self).px(i, j).spec_blend(pixel) } else { old(self).px(i, j) });
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> (r: &mut Self::Pixel)
        requires x < old(self).sw(), y < old(self).sh(),
        ensures *r == old(self).px(x as int, y as int), final(self).sw() == old(self).sw(), final(self).sh() == old(self).sh(),
            forall|i: int, j: int| #[trigger] final(self).px(i, j) == (if i == x && j == y { *final(r) } else { old(self).px(i, j) });
}

#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(C)]
pub struct ImageBuffer<P: Pixel, C> { p: core::marker::PhantomData<P>, c: C }

impl<P: Pixel, C> ImageBuffer<P, C> {
    pub uninterp spec fn sw(&self) -> u32;
    pub uninterp spec fn sh(&self) -> u32;
    pub uninterp spec fn px(&self, x: int, y: int) -> P;
    #[verifier::external_body]
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 == self.sw(), r.1 == self.sh() { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> (r: u32) ensures r == self.sw() { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u32) ensures r == self.sh() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_pixel(&mut self, x: u32, y: u32, pixel: P)
        requires x < old(self).sw(), y < old(self).sh(),
        ensures final(self).sw() == old(self).sw(), final(self).sh() == old(self).sh(),
            forall|i: int, j: int| #[trigger] final(self).px(i, j) == (if i == x && j == y { pixel } else { old(self).px(i, j) })
    { unimplemented!() }
}
impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    #[verifier::external_body]
    pub fn new(w: u32, h: u32) -> (r: Self) ensures r.sw() == w, r.sh() == h { unimplemented!() }
}
pub enum ImageError { Parameter(ParameterError) }
pub struct ParameterError { pub k: ParameterErrorKind }
pub enum ParameterErrorKind { DimensionMismatch }
impl ParameterError { pub fn from_kind(k: ParameterErrorKind) -> Self { ParameterError { k } } }
pub type ImageResult<T> = Result<T, ImageError>;
pub mod krate { pub use super::ImageResult; }
