//@include prelude_image.vrs
#[allow(unused)]
pub struct Pixels<'a, I> { image: &'a I, x: u32, y: u32, width: u32, height: u32 }
pub open spec fn below(p: int, w: u32, h: u32) -> bool { w > 0 && p < w * h }
impl<'a, I: GenericImageView> Pixels<'a, I> {
    pub closed spec fn img(&self) -> I { *self.image }
    pub closed spec fn w(&self) -> u32 { self.width }
    pub closed spec fn h(&self) -> u32 { self.height }
    // how many items have been delivered, in row-major order
    pub closed spec fn pos(&self) -> int { self.y * self.width + self.x }
    pub closed spec fn wf(&self) -> bool { self.x <= self.width && self.width == self.image.sw() && self.height == self.image.sh() }
    // the next item is the next coordinate in row-major order, until all have been delivered
//@fn src/image.rs next ctx="Iterator for Pixels <" ret=res vis=pub
//@ sigsubst `I::Pixel` => `I::Pixel`
//@ at body.start
    proof { lemma_pos(self.x as int, self.y as int, self.width as int, self.height as int); }
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).img() == old(self).img(), final(self).w() == old(self).w(), final(self).h() == old(self).h(),
        below(old(self).pos(), old(self).w(), old(self).h()) ==> final(self).pos() == old(self).pos() + 1 && res.is_some()
            && res.unwrap().0 == old(self).pos() % (old(self).w() as int) && res.unwrap().1 == old(self).pos() / (old(self).w() as int)
            && res.unwrap().0 < old(self).w() && res.unwrap().1 < old(self).h()
            && res.unwrap().2 == old(self).img().px(res.unwrap().0 as int, res.unwrap().1 as int),
        !below(old(self).pos(), old(self).w(), old(self).h()) ==> res.is_none() && !below(final(self).pos(), final(self).w(), final(self).h()),
//@ at before? `None`
    proof { lemma_pos(self.x as int, self.y as int, self.width as int, self.height as int); }
//@end
}
pub proof fn lemma_pos(x: int, y: int, w: int, h: int)
    requires 0 <= x, 0 <= y, 0 <= w, 0 <= h,
    ensures
        x < w ==> (y * w + x) % w == x && (y * w + x) / w == y && ((y * w + x < w * h) <==> y < h),
        x == w && w > 0 ==> (y * w + x) % w == 0 && (y * w + x) / w == y + 1 && ((y * w + x < w * h) <==> y + 1 < h) && y * w + x == (y + 1) * w + 0,
        y >= h ==> y * w + x >= w * h,
        (y + 1) * w == y * w + w,
{
    assert(y * w + w == (y + 1) * w) by (nonlinear_arith);
    if w > 0 {
        if x < w {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
            if y < h { assert(y * w + x < w * h) by (nonlinear_arith) requires y + 1 <= h, x < w, w > 0; }
        }
        if x == w {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((y + 1) * w, w, y + 1, 0);
            if y + 1 < h { assert((y + 1) * w < w * h) by (nonlinear_arith) requires y + 1 < h, w > 0; }
            else { assert((y + 1) * w >= w * h) by (nonlinear_arith) requires y + 1 >= h, w > 0; }
        }
    }
    if y >= h { assert(y * w >= w * h) by (nonlinear_arith) requires y >= h, w >= 0; }
}
//@fn src/image.rs clone ctx="Clone for Pixels <" as=pixels_clone ret=res
//@ sigsubst `fn clone(&self) -> Self` => `fn clone<'a, I: GenericImageView>(this: &Pixels<'a, I>) -> Pixels<'a, I>`
//@ subst? `..*self` => `image: this.image, x: this.x, y: this.y, width: this.width, height: this.height`
//@ spec
    ensures res == *this,
//@end
//@fn src/image.rs pixels ctx="trait GenericImageView" ret=res
//@ sigsubst `fn pixels(&self)` => `fn pixels<I: GenericImageView>(this: &I)`
//@ sigsubst `Pixels<Self>` => `Pixels<I>`
//@ sigsubst `where Self: Sized,` => ` `
//@ subst? `self` => `this`
//@ spec
    ensures res.wf(), res.pos() == 0, res.img() == *this, res.w() == this.sw(), res.h() == this.sh(),
//@end
// a view delivers nothing more only after all w*h coordinates: k-th item is (k % w, k / w) with 0 <= k < w*h,
// so every coordinate is delivered exactly once
pub proof fn lemma_each_once(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h
    ensures 0 <= y * w + x < w * h, (y * w + x) % w == x, (y * w + x) / w == y,
        forall|k: int| 0 <= k < w * h && #[trigger] (k % w) == x && k / w == y ==> k == y * w + x,
{
    lemma_pos(x, y, w, h);
    assert(y * w >= 0) by (nonlinear_arith) requires y >= 0, w >= 0;
    assert forall|k: int| 0 <= k < w * h && #[trigger] (k % w) == x && k / w == y implies k == y * w + x by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, w); assert(w * (k / w) == (k / w) * w) by (nonlinear_arith); }
}
} // verus!
fn main() {}
