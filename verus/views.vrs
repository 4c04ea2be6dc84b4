//@include prelude_image.vrs
//@include std_specs.vrs
//@include panics.vrs
global size_of usize == 8;
//@item src/math/rect.rs struct Rect vis=pub
//@item src/image.rs struct SubImage vis=pub
//@item src/image.rs struct SubImageInner vis=pub

pub open spec fn smin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn smax(a: int, b: int) -> int { if a > b { a } else { b } }
// (x, y, w, h) is inside an image of size iw x ih
pub open spec fn inside(x: int, y: int, w: int, h: int, iw: int, ih: int) -> bool { x + w <= iw && y + h <= ih }
pub open spec fn in_rect(i: int, j: int, x: int, y: int, w: int, h: int) -> bool { x <= i < x + w && y <= j < y + h }

impl<I> SubImage<I> {
    pub closed spec fn img(&self) -> I { self.inner.image }
    pub closed spec fn ox(&self) -> u32 { self.inner.xoffset }
    pub closed spec fn oy(&self) -> u32 { self.inner.yoffset }
    pub closed spec fn sw(&self) -> u32 { self.inner.xstride }
    pub closed spec fn sh(&self) -> u32 { self.inner.ystride }
    pub open spec fn at(&self, x: int, y: int, w: int, h: int) -> bool { self.ox() == x && self.oy() == y && self.sw() == w && self.sh() == h }
    pub closed spec fn sin(&self) -> SubImageInner<I> { self.inner }
//@fn src/image.rs new ctx="impl < I > SubImage < I >" ret=res vis=pub
//@ spec
    ensures res.img() == $n0, res.at($n1 as int, $n2 as int, $n3 as int, $n4 as int),
//@end
//@fn src/image.rs change_bounds ctx="impl < I > SubImage < I >" vis=pub
//@ spec
    ensures final(self).img() == old(self).img(), final(self).at($n0 as int, $n1 as int, $n2 as int, $n3 as int),
//@end
//@fn src/image.rs offsets ctx="impl < I > SubImage < I >" ret=res vis=pub
//@ spec
    ensures res.0 == self.ox(), res.1 == self.oy(),
//@end
}
impl<I> SubImageInner<I> {
    pub closed spec fn img(&self) -> I { self.image }
    pub closed spec fn ox(&self) -> u32 { self.xoffset }
    pub closed spec fn oy(&self) -> u32 { self.yoffset }
    pub closed spec fn sw(&self) -> u32 { self.xstride }
    pub closed spec fn sh(&self) -> u32 { self.ystride }
//@fn src/image.rs dimensions ctx="GenericImageView for SubImageInner < I >" ret=res vis=pub
//@ spec
    ensures res.0 == self.sw(), res.1 == self.sh(),
//@end
//@fn src/image.rs width ctx="trait GenericImageView" ret=res vis=pub
//@ spec
    ensures res == self.sw(),
//@end
//@fn src/image.rs height ctx="trait GenericImageView" ret=res vis=pub
//@ spec
    ensures res == self.sh(),
//@end
}
// a view shows the pixels of its parent, translated
impl<'a, V: GenericImageView> SubImageInner<&'a V> {
//@fn src/image.rs get_pixel ctx="GenericImageView for SubImageInner < I >" ret=res vis=pub
//@ sigsubst `Self::Pixel` => `V::Pixel`
//@ spec
    requires inside(self.ox() as int, self.oy() as int, self.sw() as int, self.sh() as int, self.img().sw() as int, self.img().sh() as int), $n0 < self.sw(), $n1 < self.sh(),
    ensures res == self.img().px($n0 + self.ox(), $n1 + self.oy()),
//@end
}
impl<'a, V: GenericImageView> SubImage<&'a V> {
//@fn src/image.rs to_image ctx="impl < I > SubImage < I >" ret=res vis=pub
//@ sigsubst `ImageBuffer<DerefPixel<I>, Vec<DerefSubpixel<I>>>` => `ImageBuffer<V::Pixel, Vec<<V::Pixel as Pixel>::Subpixel>>`
//@ sigsubst `where I: Deref, I::Target: GenericImageView + 'static,` => ` `
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    requires inside(self.ox() as int, self.oy() as int, self.sw() as int, self.sh() as int, self.img().sw() as int, self.img().sh() as int),
    ensures res.sw() == self.sw(), res.sh() == self.sh(),
        forall|i: int, j: int| 0 <= i < self.sw() && 0 <= j < self.sh() ==> #[trigger] res.px(i, j) == self.img().px(i + self.ox(), j + self.oy()),
//@ loop 0 for
    invariant out.sw() == self.sw(), out.sh() == self.sh(),
        forall|i: int, j: int| 0 <= i < self.sw() && 0 <= j < $v0 ==> #[trigger] out.px(i, j) == self.img().px(i + self.ox(), j + self.oy()),
//@ loop 1 for
    invariant out.sw() == self.sw(), out.sh() == self.sh(),
        forall|i: int, j: int| 0 <= i < self.sw() && (0 <= j < $v0 || j == $v0 && i < $v1) ==> #[trigger] out.px(i, j) == self.img().px(i + self.ox(), j + self.oy()),
//@end
//@fn src/image.rs view ctx="SubImage < I > where I : Deref ," ret=res vis=pub
//@ panics allow
//@ sigsubst `&I::Target` => `&V`
//@ subst? `use crate::GenericImageView as _;` => ` `
//@ subst? `SubImage::new(&*self.inner.image, $A)` => `SubImage::new(self.inner.image, $A)`
//@ spec
    // the outer window lies inside its parent; then so does the nested one
    requires inside(self.ox() as int, self.oy() as int, self.sw() as int, self.sh() as int, self.img().sw() as int, self.img().sh() as int),
    ensures inside($n0 as int, $n1 as int, $n2 as int, $n3 as int, self.sw() as int, self.sh() as int),
        res.at(self.ox() + $n0, self.oy() + $n1, $n2 as int, $n3 as int), *res.img() == *self.img(),
//@end
//@fn src/image.rs inner ctx="SubImage < I > where I : Deref ," ret=res vis=pub
//@ sigsubst `&I::Target` => `&V`
//@ subst? `&self.inner.image` => `self.inner.image`
//@ spec
    ensures *res == *self.img(),
//@end
}
//@fn src/image.rs in_bounds ctx="trait GenericImageView" ret=res
//@ sigsubst `fn in_bounds(&self,` => `fn in_bounds<I: GenericImageView>(this: &I,`
//@ subst? `self` => `this`
//@ spec
    ensures res == ($n0 < this.sw() && $n1 < this.sh()),
//@end
//@fn src/image.rs view ctx="trait GenericImageView" as=view ret=res
//@ panics allow
//@ sigsubst `fn view(&self,` => `fn view<I: GenericImageView>(this: &I,`
//@ sigsubst `&Self` => `&I`
//@ sigsubst `where Self: Sized,` => ` `
//@ subst? `self` => `this`
//@ spec
    ensures inside($n0 as int, $n1 as int, $n2 as int, $n3 as int, this.sw() as int, this.sh() as int),
        res.at($n0 as int, $n1 as int, $n2 as int, $n3 as int), *res.img() == *this,
//@end

//@fn src/image.rs view ctx="trait GenericImageView" as=view_total ret=res
//@ panics forbid
//@ sigsubst `fn view(&self,` => `fn view<I: GenericImageView>(this: &I,`
//@ sigsubst `&Self` => `&I`
//@ sigsubst `where Self: Sized,` => ` `
//@ subst? `self` => `this`
//@ spec
    requires inside($n0 as int, $n1 as int, $n2 as int, $n3 as int, this.sw() as int, this.sh() as int),
    ensures res.at($n0 as int, $n1 as int, $n2 as int, $n3 as int), *res.img() == *this,
//@end
//@fn src/image.rs sub_image ctx="trait GenericImage :" as=sub_image ret=res
//@ panics allow
//@ sigsubst `fn sub_image(&mut self,` => `fn sub_image<I: GenericImage>(this: &mut I,`
//@ sigsubst `&mut Self` => `&mut I`
//@ sigsubst `where Self: Sized,` => ` `
//@ subst? `self` => `this`
//@ spec
    ensures inside($n0 as int, $n1 as int, $n2 as int, $n3 as int, old(this).sw() as int, old(this).sh() as int),
        res.at($n0 as int, $n1 as int, $n2 as int, $n3 as int), *res.img() == *old(this), *final(res.img()) == *final(this),
//@end
//@fn src/image.rs sub_image ctx="trait GenericImage :" as=sub_image_total ret=res
//@ panics forbid
//@ sigsubst `fn sub_image(&mut self,` => `fn sub_image<I: GenericImage>(this: &mut I,`
//@ sigsubst `&mut Self` => `&mut I`
//@ sigsubst `where Self: Sized,` => ` `
//@ subst? `self` => `this`
//@ spec
    requires inside($n0 as int, $n1 as int, $n2 as int, $n3 as int, old(this).sw() as int, old(this).sh() as int),
    ensures res.at($n0 as int, $n1 as int, $n2 as int, $n3 as int), *res.img() == *old(this),
//@end
// writes through a mutable window reach the translated parent pixel and nothing else
impl<'a, V: GenericImage> SubImageInner<&'a mut V> {
//@fn src/image.rs get_pixel ctx="GenericImageView for SubImageInner < I >" as=get_pixel ret=res vis=pub
//@ sigsubst `Self::Pixel` => `V::Pixel`
//@ spec
    requires inside(self.ox() as int, self.oy() as int, self.sw() as int, self.sh() as int, self.img().sw() as int, self.img().sh() as int), $n0 < self.sw(), $n1 < self.sh(),
    ensures res == self.img().px($n0 + self.ox(), $n1 + self.oy()),
//@end
//@fn src/image.rs put_pixel ctx="GenericImage for SubImageInner < I >" vis=pub
//@ sigsubst `Self::Pixel` => `V::Pixel`
//@ spec
    requires inside(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int, old(self).img().sw() as int, old(self).img().sh() as int), $n0 < old(self).sw(), $n1 < old(self).sh(),
    ensures final(self).at(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int),
        final(self).img().sw() == old(self).img().sw(), final(self).img().sh() == old(self).img().sh(),
        forall|i: int, j: int| #[trigger] final(self).img().px(i, j) == (if i == $n0 + old(self).ox() && j == $n1 + old(self).oy() { $n2 } else { old(self).img().px(i, j) }),
//@end
//@fn src/image.rs blend_pixel ctx="GenericImage for SubImageInner < I >" vis=pub
//@ sigsubst `Self::Pixel` => `V::Pixel`
//@ spec
    requires inside(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int, old(self).img().sw() as int, old(self).img().sh() as int), $n0 < old(self).sw(), $n1 < old(self).sh(),
    ensures final(self).at(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int),
        final(self).img().sw() == old(self).img().sw(), final(self).img().sh() == old(self).img().sh(),
        forall|i: int, j: int| #[trigger] final(self).img().px(i, j) == (if i == $n0 + old(self).ox() && j == $n1 + old(self).oy() { old(self).img().px(i, j).spec_blend($n2) } else { old(self).img().px(i, j) }),
//@end
//@fn src/image.rs get_pixel_mut ctx="GenericImage for SubImageInner < I >" ret=res vis=pub
//@ sigsubst `Self::Pixel` => `V::Pixel`
//@ spec
    requires inside(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int, old(self).img().sw() as int, old(self).img().sh() as int), $n0 < old(self).sw(), $n1 < old(self).sh(),
    ensures final(self).at(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int),
        final(self).img().sw() == old(self).img().sw(), final(self).img().sh() == old(self).img().sh(),
        *res == old(self).img().px($n0 + old(self).ox(), $n1 + old(self).oy()),
        forall|i: int, j: int| #[trigger] final(self).img().px(i, j) == (if i == $n0 + old(self).ox() && j == $n1 + old(self).oy() { *final(res) } else { old(self).img().px(i, j) }),
//@end
    pub open spec fn at(&self, x: int, y: int, w: int, h: int) -> bool { self.ox() == x && self.oy() == y && self.sw() == w && self.sh() == h }
}
impl<'a, V: GenericImage> SubImage<&'a mut V> {
//@fn src/image.rs sub_image ctx="SubImage < I > where I : DerefMut ," ret=res vis=pub
//@ panics allow
//@ sigsubst `&mut I::Target` => `&mut V`
//@ subst? `SubImage::new(&mut *self.inner.image, $A)` => `SubImage::new(&mut *self.inner.image, $A)`
//@ spec
    requires inside(old(self).ox() as int, old(self).oy() as int, old(self).sw() as int, old(self).sh() as int, old(self).img().sw() as int, old(self).img().sh() as int),
    ensures inside($n0 as int, $n1 as int, $n2 as int, $n3 as int, old(self).sw() as int, old(self).sh() as int),
        res.at(old(self).ox() + $n0, old(self).oy() + $n1, $n2 as int, $n3 as int), *res.img() == *old(self).img(), *final(res.img()) == *final(self).img(),
//@end
}
//@fn src/imageops/mod.rs crop_dimms ret=res
//@ spec
    ensures res.0 == smin($n1 as int, $n0.sw() as int), res.1 == smin($n2 as int, $n0.sh() as int),
        res.2 == smin($n3 as int, $n0.sw() - res.0), res.3 == smin($n4 as int, $n0.sh() - res.1),
        inside(res.0 as int, res.1 as int, res.2 as int, res.3 as int, $n0.sw() as int, $n0.sh() as int),
//@end
//@fn src/imageops/mod.rs crop_imm ret=res
//@ spec
    ensures ({ let x = smin($n1 as int, $n0.sw() as int); let y = smin($n2 as int, $n0.sh() as int);
        res.at(x, y, smin($n3 as int, $n0.sw() - x), smin($n4 as int, $n0.sh() - y)) }), *res.img() == *$n0,
//@end
//@fn src/imageops/mod.rs crop ret=res
//@ spec
    ensures ({ let x = smin($n1 as int, old($n0).sw() as int); let y = smin($n2 as int, old($n0).sh() as int);
        res.at(x, y, smin($n3 as int, old($n0).sw() - x), smin($n4 as int, old($n0).sh() - y)) }), *res.img() == *old($n0), *final(res.img()) == *final($n0),
//@end
//@fn src/image.rs copy_from ctx="trait GenericImage :" as=copy_from ret=res
//@ sigsubst `fn copy_from<O>(&mut self,` => `fn copy_from<I: GenericImage, O>(this: &mut I,`
//@ sigsubst `Self::Pixel` => `I::Pixel`
//@ subst? `self` => `this`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures final(this).sw() == old(this).sw(), final(this).sh() == old(this).sh(),
        res.is_ok() <==> inside($n1 as int, $n2 as int, $n0.sw() as int, $n0.sh() as int, old(this).sw() as int, old(this).sh() as int),
        res.is_err() ==> *final(this) == *old(this),
        res.is_ok() ==> forall|a: int, b: int| #[trigger] final(this).px(a, b) == (if in_rect(a, b, $n1 as int, $n2 as int, $n0.sw() as int, $n0.sh() as int) { $n0.px(a - $n1, b - $n2) } else { old(this).px(a, b) }),
//@ loop 0 for
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, $n1 as int, $n2 as int, $n0.sw() as int, $v0 as int) { $n0.px(a - $n1, b - $n2) } else { old(this).px(a, b) }),
//@ loop 1 for
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, $n1 as int, $n2 as int, $n0.sw() as int, $v0 as int) || in_rect(a, b, $n1 as int, $n2 + $v0, $v1 as int, 1) { $n0.px(a - $n1, b - $n2) } else { old(this).px(a, b) }),
//@end

//@fn src/image.rs copy_within ctx="trait GenericImage :" as=copy_within ret=res
//@ panics allow
//@ expandmacro copy_within_impl_
//@ sigsubst `fn copy_within(&mut self,` => `fn copy_within<I: GenericImage>(this: &mut I,`
//@ subst? `self` => `this`
//@ subst? `dx.max(sx)` => `max(dx, sx)`
//@ subst? `dy.max(sy)` => `max(dy, sy)`
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures final(this).sw() == old(this).sw(), final(this).sh() == old(this).sh(),
        $n0.x < old(this).sw(), $n0.y < old(this).sh(), $n1 < old(this).sw(), $n2 < old(this).sh(),
        res <==> inside(smax($n0.x as int, $n1 as int), smax($n0.y as int, $n2 as int), $n0.width as int, $n0.height as int, old(this).sw() as int, old(this).sh() as int),
        !res ==> *final(this) == *old(this),
        res ==> forall|a: int, b: int| #[trigger] final(this).px(a, b) == (if in_rect(a, b, $n1 as int, $n2 as int, $n0.width as int, $n0.height as int) { old(this).px(a - $n1 + $n0.x, b - $n2 + $n0.y) } else { old(this).px(a, b) }),
//@ at body.start
    let ghost gx = $n1; let ghost gy = $n2;
//@ loop 0 for it=yi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy + $n0.height - yi.index@, $n0.width as int, yi.index@ as int) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 1 for it=xi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy + $n0.height - yi.index@, $n0.width as int, yi.index@ as int) || in_rect(a, b, gx + $n0.width - xi.index@, gy + y, xi.index@ as int, 1) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 2 for it=yi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy as int, $n0.width as int, yi.index@ as int) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 3 for it=xi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy as int, $n0.width as int, yi.index@ as int) || in_rect(a, b, gx + $n0.width - xi.index@, gy + y, xi.index@ as int, 1) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 4 for it=yi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy + $n0.height - yi.index@, $n0.width as int, yi.index@ as int) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 5 for it=xi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy + $n0.height - yi.index@, $n0.width as int, yi.index@ as int) || in_rect(a, b, gx as int, gy + y, xi.index@ as int, 1) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 6 for it=yi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy as int, $n0.width as int, yi.index@ as int) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@ loop 7 for it=xi
    invariant this.sw() == old(this).sw(), this.sh() == old(this).sh(),
        forall|a: int, b: int| #[trigger] this.px(a, b) == (if in_rect(a, b, gx as int, gy as int, $n0.width as int, yi.index@ as int) || in_rect(a, b, gx as int, gy + y, xi.index@ as int, 1) { old(this).px(a - gx + $n0.x, b - gy + $n0.y) } else { old(this).px(a, b) }),
//@end
} // verus!
fn main() {}
