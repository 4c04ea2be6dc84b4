#![feature(const_destruct)]
#![allow(unused)]
use vstd::prelude::*;
use core::ops::Range;
verus! {
//@include buffer_core.vrs
//@fn src/buffer.rs from_raw ctx="impl < P , Container >" ret=res vis=pub
//@ sigsubst `Container` => `Vec<P::Subpixel>`
//@ sigsubst `ImageBuffer<P, Vec<P::Subpixel>>` => `ImageBuffer<P>`
//@ subst? `_phantom: PhantomData` => `_phantom: core::marker::PhantomData`
//@ spec
    requires P::cc() <= 255,
    ensures res.is_some() <==> need::<P>($n0, $n1) <= $n2@.len(),
        res.is_some() ==> res.unwrap().fits() && res.unwrap().w() == $n0 && res.unwrap().h() == $n1 && res.unwrap().samples() == $n2@,
//@end
//@fn src/buffer.rs dimensions ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    ensures res.0 == self.w(), res.1 == self.h(),
//@end
//@fn src/buffer.rs width ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    ensures res == self.w(),
//@end
//@fn src/buffer.rs height ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ spec
    ensures res == self.h(),
//@end
//@fn src/buffer.rs into_raw ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ sigsubst `Container` => `Vec<P::Subpixel>`
//@ spec
    ensures res@ == self.samples(),
//@end
//@fn src/buffer.rs as_raw ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ sigsubst `Container` => `Vec<P::Subpixel>`
//@ spec
    ensures res@ == self.samples(),
//@end
//@include buffer_len.vrs
//@fn src/buffer.rs check_image_fits ret=res
//@ closure 0 (usize) -> (cr: bool)
    ensures cr == ($p0 <= len)
//@ spec
    requires P::cc() <= 255,
    ensures res <==> need::<P>($n0, $n1) <= $n2,
//@end
//@fn src/buffer.rs pixel_indices ret=res
//@ spec
    requires self.fits(),
    ensures res.is_some() <==> $n0 < self.w() && $n1 < self.h(),
        res.is_some() ==> res.unwrap().start == idx::<P>(self.w(), $n0 as int, $n1 as int) && res.unwrap().end == res.unwrap().start + P::cc(),
//@end
//@fn src/buffer.rs pixel_indices_unchecked ret=res
//@ subst `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ spec
    requires self.fits(), $n0 < self.w(), $n1 < self.h(),
    ensures res.start == idx::<P>(self.w(), $n0 as int, $n1 as int), res.end == res.start + P::cc(), res.end <= self.samples().len(),
//@ at body.start
    proof { lemma_in::<P>(self.width, self.height, $n0 as int, $n1 as int); lemma_small(self.width, $n0, $n1); assert(self.data.len() <= usize::MAX); }
//@end
//@fn src/buffer.rs get_pixel ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ panics allow
//@ subst? `&self.data[$A]` => `vx_idx(&self.data, $A)`
//@ spec
    requires self.fits(),
    ensures $n0 < self.w(), $n1 < self.h(), res.chans() == self.at($n0 as int, $n1 as int),
//@ at body.start
    proof { if $n0 < self.width && $n1 < self.height { lemma_in::<P>(self.width, self.height, $n0 as int, $n1 as int); } }
//@end
//@fn src/buffer.rs get_pixel_checked ctx="impl < P , Container > ImageBuffer" ret=res vis=pub
//@ subst `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `self.data.get($A)` => `vx_get(&self.data, $A)`
//@ closure 0 (&[P::Subpixel]) -> (cr: &P)
    requires $p0@.len() == P::cc() ensures cr.chans() == $p0@
//@ spec
    requires self.fits(),
    ensures res.is_some() <==> $n0 < self.w() && $n1 < self.h(),
        res.is_some() ==> res.unwrap().chans() == self.at($n0 as int, $n1 as int),
//@ at body.start
    proof { if $n0 < self.width && $n1 < self.height { lemma_in::<P>(self.width, self.height, $n0 as int, $n1 as int); }
        lemma_small(self.width, $n0, $n1); assert(self.data.len() <= usize::MAX); }
//@end
//@fn src/buffer.rs get_pixel_mut ctx="Container : Deref < Target = \[ P :: Subpixel \] > \+ DerefMut ,$" nth=0 ret=res vis=pub
//@ panics allow
//@ subst? `&mut self.data[$A]` => `vx_idx_mut(&mut self.data, $A)`
//@ spec
    requires old(self).fits(),
    ensures $n0 < old(self).w(), $n1 < old(self).h(),
        res.chans() == old(self).at($n0 as int, $n1 as int),
        final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        final(self).samples() == old(self).samples().subrange(0, idx::<P>(old(self).w(), $n0 as int, $n1 as int)) + final(res).chans()
            + old(self).samples().subrange(idx::<P>(old(self).w(), $n0 as int, $n1 as int) + P::cc(), old(self).samples().len() as int),
//@ at body.start
    proof { if $n0 < self.width && $n1 < self.height { lemma_in::<P>(self.width, self.height, $n0 as int, $n1 as int); } }
//@end
//@fn src/buffer.rs get_pixel_mut_checked ret=res vis=pub
//@ subst `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ subst? `self.data.get_mut($A)` => `vx_get_mut(&mut self.data, $A)`
//@ closure 0 (&mut [P::Subpixel]) -> (cr: &mut P)
    requires old($p0)@.len() == P::cc() ensures cr.chans() == old($p0)@, final($p0)@ == final(cr).chans()
//@ spec
    requires old(self).fits(),
    ensures res.is_some() <==> $n0 < old(self).w() && $n1 < old(self).h(),
        res.is_some() ==> res.unwrap().chans() == old(self).at($n0 as int, $n1 as int),
//@ at body.start
    proof { if $n0 < self.width && $n1 < self.height { lemma_in::<P>(self.width, self.height, $n0 as int, $n1 as int); }
        lemma_small(self.width, $n0, $n1); assert(self.data.len() <= usize::MAX); }
//@end
//@fn src/buffer.rs put_pixel ctx="impl < P , Container > ImageBuffer" vis=pub
//@ spec
    requires old(self).fits(),
    ensures $n0 < old(self).w(), $n1 < old(self).h(),
        final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        final(self).samples().len() == old(self).samples().len(),
        forall|i: int, j: int| 0 <= i < old(self).w() && 0 <= j < old(self).h() ==> #[trigger] final(self).at(i, j) == (if i == $n0 && j == $n1 { $n2.chans() } else { old(self).at(i, j) }),
        forall|k: int| need::<P>(old(self).w(), old(self).h()) <= k < old(self).samples().len() ==> final(self).samples()[k] == old(self).samples()[k],
//@ at body.end
    proof {
        let p = $n2; p.chans_len();
        lemma_in::<P>(old(self).w(), old(self).h(), $n0 as int, $n1 as int);
        let s = old(self).samples(); let t = self.samples(); let o = idx::<P>(old(self).w(), $n0 as int, $n1 as int); let c = P::cc() as int;
        assert(t == s.subrange(0, o) + p.chans() + s.subrange(o + c, s.len() as int));
        assert forall|i: int, j: int| 0 <= i < old(self).w() && 0 <= j < old(self).h() implies #[trigger] self.at(i, j) == (if i == $n0 && j == $n1 { p.chans() } else { old(self).at(i, j) }) by {
            lemma_in::<P>(old(self).w(), old(self).h(), i, j);
            let q = idx::<P>(old(self).w(), i, j);
            if i == $n0 && j == $n1 { assert(self.at(i, j) =~= p.chans()); }
            else { lemma_disjoint::<P>(old(self).w(), old(self).h(), $n0 as int, $n1 as int, i, j); assert(self.at(i, j) =~= old(self).at(i, j)); }
        }
    }
//@end

// storing one block changes that pixel and nothing else
pub proof fn lemma_stored(a: Self, b: Self, x: u32, y: u32, p: P)
    requires a.fits(), x < a.w(), y < a.h(), b.w() == a.w(), b.h() == a.h(),
        b.samples() == a.samples().subrange(0, idx::<P>(a.w(), x as int, y as int)) + p.chans() + a.samples().subrange(idx::<P>(a.w(), x as int, y as int) + P::cc(), a.samples().len() as int),
    ensures b.samples().len() == a.samples().len(),
        forall|i: int, j: int| 0 <= i < a.w() && 0 <= j < a.h() ==> #[trigger] b.at(i, j) == (if i == x && j == y { p.chans() } else { a.at(i, j) }),
        forall|k: int| need::<P>(a.w(), a.h()) <= k < a.samples().len() ==> b.samples()[k] == a.samples()[k],
{
    p.chans_len(); lemma_in::<P>(a.w(), a.h(), x as int, y as int);
    let s = a.samples(); let t = b.samples(); let o = idx::<P>(a.w(), x as int, y as int); let c = P::cc() as int;
    assert forall|i: int, j: int| 0 <= i < a.w() && 0 <= j < a.h() implies #[trigger] b.at(i, j) == (if i == x && j == y { p.chans() } else { a.at(i, j) }) by {
        lemma_in::<P>(a.w(), a.h(), i, j);
        if i == x && j == y { assert(b.at(i, j) =~= p.chans()); }
        else { lemma_disjoint::<P>(a.w(), a.h(), x as int, y as int, i, j); assert(b.at(i, j) =~= a.at(i, j)); }
    }
}
// ---- the same buffer behind Index, Clone and the GenericImage traits ----
//@fn src/buffer.rs index ctx="> Index < \( u32 , u32 \) >" ret=res vis=pub
//@ sigsubst `(x, y): (u32, u32)` => `x: u32, y: u32`
//@ spec
    requires self.fits(),
    ensures x < self.w(), y < self.h(), res.chans() == self.at(x as int, y as int),
//@end
//@fn src/buffer.rs index_mut ctx="> IndexMut < \( u32 , u32 \) >" ret=res vis=pub
//@ sigsubst `(x, y): (u32, u32)` => `x: u32, y: u32`
//@ spec
    requires old(self).fits(),
    ensures x < old(self).w(), y < old(self).h(),
        res.chans() == old(self).at(x as int, y as int),
        final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        final(self).samples() == old(self).samples().subrange(0, idx::<P>(old(self).w(), x as int, y as int)) + final(res).chans()
            + old(self).samples().subrange(idx::<P>(old(self).w(), x as int, y as int) + P::cc(), old(self).samples().len() as int),
//@end
//@fn src/buffer.rs clone ctx="Clone for ImageBuffer" as=vx_clone ret=res vis=pub
//@ sigsubst `ImageBuffer<P, Container>` => `ImageBuffer<P>`
//@ subst? `self.data.clone()` => `vx_vec_clone(&self.data)`
//@ subst? `_phantom: PhantomData` => `_phantom: core::marker::PhantomData`
//@ spec
    ensures res.w() == self.w(), res.h() == self.h(), res.samples() == self.samples(),
//@end
//@fn src/buffer.rs clone_from ctx="Clone for ImageBuffer" as=vx_clone_from vis=pub
//@ subst? `self.data.clone_from(&source.data)` => `vx_vec_clone_from(&mut self.data, &source.data)`
//@ spec
    ensures final(self).w() == $n0.w(), final(self).h() == $n0.h(), final(self).samples() == $n0.samples(),
//@end
//@fn src/buffer.rs dimensions ctx="GenericImageView for ImageBuffer" as=t_dimensions ret=res vis=pub
//@ spec
    ensures res.0 == self.w(), res.1 == self.h(),
//@end
//@fn src/buffer.rs get_pixel ctx="GenericImageView for ImageBuffer" as=t_get_pixel ret=res vis=pub
//@ spec
    requires self.fits(),
    ensures $n0 < self.w(), $n1 < self.h(), res.chans() == self.at($n0 as int, $n1 as int),
//@end
//@fn src/buffer.rs unsafe_get_pixel ctx="GenericImageView for ImageBuffer" ret=res vis=pub
//@ subst? `self.data.get_unchecked($A)` => `vx_idx(&self.data, $A)`
//@ spec
    requires self.fits(), $n0 < self.w(), $n1 < self.h(),
    ensures res.chans() == self.at($n0 as int, $n1 as int),
//@end
//@fn src/buffer.rs get_pixel_mut ctx="GenericImage for ImageBuffer" as=t_get_pixel_mut ret=res vis=pub
//@ spec
    requires old(self).fits(),
    ensures $n0 < old(self).w(), $n1 < old(self).h(),
        res.chans() == old(self).at($n0 as int, $n1 as int),
        final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        final(self).samples() == old(self).samples().subrange(0, idx::<P>(old(self).w(), $n0 as int, $n1 as int)) + final(res).chans()
            + old(self).samples().subrange(idx::<P>(old(self).w(), $n0 as int, $n1 as int) + P::cc(), old(self).samples().len() as int),
//@end
//@fn src/buffer.rs put_pixel ctx="GenericImage for ImageBuffer" as=t_put_pixel vis=pub
//@ spec
    requires old(self).fits(),
    ensures $n0 < old(self).w(), $n1 < old(self).h(),
        final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        final(self).samples().len() == old(self).samples().len(),
        forall|i: int, j: int| 0 <= i < old(self).w() && 0 <= j < old(self).h() ==> #[trigger] final(self).at(i, j) == (if i == $n0 && j == $n1 { $n2.chans() } else { old(self).at(i, j) }),
        forall|k: int| need::<P>(old(self).w(), old(self).h()) <= k < old(self).samples().len() ==> final(self).samples()[k] == old(self).samples()[k],
//@ at body.end
    proof { Self::lemma_stored(*old(self), *self, $n0, $n1, $n2); }
//@end
//@fn src/buffer.rs unsafe_put_pixel ctx="GenericImage for ImageBuffer" vis=pub
//@ subst? `self.data.get_unchecked_mut($A)` => `vx_idx_mut(&mut self.data, $A)`
//@ spec
    requires old(self).fits(), $n0 < old(self).w(), $n1 < old(self).h(),
    ensures
        final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        final(self).samples().len() == old(self).samples().len(),
        forall|i: int, j: int| 0 <= i < old(self).w() && 0 <= j < old(self).h() ==> #[trigger] final(self).at(i, j) == (if i == $n0 && j == $n1 { $n2.chans() } else { old(self).at(i, j) }),
        forall|k: int| need::<P>(old(self).w(), old(self).h()) <= k < old(self).samples().len() ==> final(self).samples()[k] == old(self).samples()[k],
//@ at body.end
    proof { Self::lemma_stored(*old(self), *self, $n0, $n1, $n2); }
//@end
//@fn src/buffer.rs blend_pixel ctx="GenericImage for ImageBuffer" as=t_blend_pixel vis=pub
//@ subst `self.get_pixel_mut($A).blend($B);` => `let vxr = self.get_pixel_mut($A); let ghost vxa = *vxr; vxr.blend($B); proof { Self::lemma_stored(*old(self), *self, x, y, vxa.spec_blend(p)); assert(stored(*old(self), *self, x, y, vxa.spec_blend(p))); }`
//@ spec
    requires old(self).fits(),
    ensures $n0 < old(self).w(), $n1 < old(self).h(), final(self).w() == old(self).w(), final(self).h() == old(self).h(), final(self).fits(),
        exists|a: P, b: P| a.chans() == old(self).at($n0 as int, $n1 as int) && b == a.spec_blend($n2) && stored(*old(self), *final(self), $n0, $n1, b),
//@end
//@fn src/buffer.rs from_vec ctx="ImageBuffer < P , Vec" ret=res vis=pub
//@ sigsubst `ImageBuffer<P, Vec<P::Subpixel>>` => `ImageBuffer<P>`
//@ spec
    requires P::cc() <= 255,
    ensures res.is_some() <==> need::<P>($n0, $n1) <= $n2@.len(),
        res.is_some() ==> res.unwrap().fits() && res.unwrap().w() == $n0 && res.unwrap().h() == $n1 && res.unwrap().samples() == $n2@,
//@end
//@fn src/buffer.rs into_vec ctx="ImageBuffer < P , Vec" ret=res vis=pub
//@ spec
    ensures res@ == self.samples(),
//@end
//@fn src/buffer.rs new ctx="ImageBuffer < P , Vec" ret=res vis=pub
//@ panics allow
//@ sigsubst `ImageBuffer<P, Vec<P::Subpixel>>` => `ImageBuffer<P>`
//@ subst? `Self::image_buffer_len(width, height).expect($A)` => `vx_or_panic(Self::image_buffer_len(width, height))`
//@ subst? `vec![Zero::zero(); size]` => `vx_zeros::<P::Subpixel>(size)`
//@ subst? `_phantom: PhantomData` => `_phantom: core::marker::PhantomData`
//@ spec
    requires P::cc() <= 255,
    ensures res.fits(), res.w() == $n0, res.h() == $n1, res.samples().len() == need::<P>($n0, $n1), forall|k: int| 0 <= k < res.samples().len() ==> #[trigger] res.samples()[k] == zero::<P::Subpixel>(),
//@end
// a constructed image holds what its maker named for each coordinate, walked in the row-major order C02 proves
//@fn src/buffer.rs from_pixel ctx="ImageBuffer < P , Vec" ret=res vis=pub
//@ panics allow
//@ sigsubst `ImageBuffer<P, Vec<P::Subpixel>>` => `ImageBuffer<P>`
//@ subst? `ImageBuffer::new(` => `ImageBuffer::<P>::new(`
//@ subst? `for p in buf.pixels_mut() {$B}` => `{ let vxw = buf.width() as u64; let vxn = vx_area(buf.width(), buf.height()); let mut vxk: u64 = 0; while vxk < vxn { proof { lemma_rm(buf.w(), buf.h(), vxk as int); } let ghost vxb = buf; let x = (vxk % vxw) as u32; let y = (vxk / vxw) as u32; let p = buf.get_pixel_mut(x, y); $B let ghost vxp = *p; proof { Self::lemma_stored(vxb, buf, x, y, vxp); } vxk = vxk + 1; } }`
//@ spec
    requires P::cc() <= 255,
    ensures res.fits(), res.w() == $n0, res.h() == $n1, res.samples().len() == need::<P>($n0, $n1),
        forall|i: int, j: int| 0 <= i < $n0 && 0 <= j < $n1 ==> #[trigger] res.at(i, j) == $n2.chans(),
//@ loop 0 while
    invariant buf.fits(), buf.w() == $n0, buf.h() == $n1, vxw == $n0, vxn == $n0 * $n1, vxk <= vxn, P::cc() <= 255, buf.samples().len() == need::<P>($n0, $n1),
        forall|i: int, j: int| 0 <= i < $n0 && 0 <= j < $n1 && lin($n0, i, j) < vxk ==> #[trigger] buf.at(i, j) == $n2.chans(),
    decreases vxn - vxk,
//@ at loop0.end
    proof { lemma_rm_eq($n0, $n1, vxk - 1); }
//@ at loop0.after
    proof { lemma_rm_all($n0, $n1); }
//@end
//@fn src/buffer.rs from_fn ctx="ImageBuffer < P , Vec" ret=res vis=pub
//@ panics allow
//@ sigsubst `ImageBuffer<P, Vec<P::Subpixel>>` => `ImageBuffer<P>`
//@ subst? `ImageBuffer::new(` => `ImageBuffer::<P>::new(`
//@ sigsubst `mut f: F` => `f: F`
//@ sigsubst `FnMut` => `Fn`
//@ subst? `for (x, y, p) in buf.enumerate_pixels_mut() {$B}` => `{ let vxw = buf.width() as u64; let vxn = vx_area(buf.width(), buf.height()); let mut vxk: u64 = 0; while vxk < vxn { proof { lemma_rm(buf.w(), buf.h(), vxk as int); } let ghost vxb = buf; let x = (vxk % vxw) as u32; let y = (vxk / vxw) as u32; let p = buf.get_pixel_mut(x, y); $B let ghost vxp = *p; proof { Self::lemma_stored(vxb, buf, x, y, vxp); } vxk = vxk + 1; } }`
//@ spec
    requires P::cc() <= 255, forall|a: u32, b: u32| a < $n0 && b < $n1 ==> #[trigger] $n2.requires((a, b)),
    ensures res.fits(), res.w() == $n0, res.h() == $n1, res.samples().len() == need::<P>($n0, $n1),
        forall|i: int, j: int| #![trigger res.at(i, j)] 0 <= i < $n0 && 0 <= j < $n1 ==> made::<P, F>($n2, i as u32, j as u32, res.at(i, j)),
//@ loop 0 while
    invariant buf.fits(), buf.w() == $n0, buf.h() == $n1, vxw == $n0, vxn == $n0 * $n1, vxk <= vxn, P::cc() <= 255, forall|a: u32, b: u32| a < $n0 && b < $n1 ==> #[trigger] $n2.requires((a, b)), buf.samples().len() == need::<P>($n0, $n1),
        forall|i: int, j: int| #![trigger buf.at(i, j)] 0 <= i < $n0 && 0 <= j < $n1 && lin($n0, i, j) < vxk ==> made::<P, F>($n2, i as u32, j as u32, buf.at(i, j)),
    decreases vxn - vxk,
//@ at loop0.end
    proof {
        lemma_rm($n0, $n1, vxk - 1); lemma_rm_eq($n0, $n1, vxk - 1);
        assert(made::<P, F>($n2, x, y, vxp.chans()));
        assert forall|i: int, j: int| #![trigger buf.at(i, j)] 0 <= i < $n0 && 0 <= j < $n1 && lin($n0, i, j) < vxk implies made::<P, F>($n2, i as u32, j as u32, buf.at(i, j)) by {
            if i == x && j == y { assert(buf.at(i, j) == vxp.chans()); } else { assert(buf.at(i, j) == vxb.at(i, j)); assert(lin($n0, i, j) < vxk - 1); }
        }
    }
//@ at loop0.after
    proof { lemma_rm_all($n0, $n1); }
//@end
//@fn src/buffer.rs default ctx="Default for ImageBuffer" ret=res vis=pub as=vx_default
//@ subst? `Container::default()` => `vx_zeros::<P::Subpixel>(0)`
//@ subst? `Default::default()` => `vx_zeros::<P::Subpixel>(0)`
//@ subst? `_phantom: PhantomData` => `_phantom: core::marker::PhantomData`
//@ spec
    ensures res.fits(), res.w() == 0, res.h() == 0,
//@end
}
pub open spec fn made<P: Pixel, F: Fn(u32, u32) -> P>(f: F, x: u32, y: u32, s: Seq<P::Subpixel>) -> bool { exists|v: P| #[trigger] f.ensures((x, y), v) && s == v.chans() }
pub open spec fn lin(w: u32, i: int, j: int) -> int { j * w + i }
// the k-th pixel in row-major order is (k % w, k / w)
pub fn vx_area(w: u32, h: u32) -> (r: u64) ensures r == w * h
{ proof { assert(w as int * h as int <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires w <= 0xffff_ffff, h <= 0xffff_ffff; } w as u64 * h as u64 }
pub proof fn lemma_rm(w: u32, h: u32, k: int)
    requires 0 <= k < w * h
    ensures w > 0, 0 <= k % (w as int) < w, 0 <= k / (w as int) < h, (k / (w as int)) * w + k % (w as int) == k
{
    assert(w > 0) by (nonlinear_arith) requires 0 <= k < w * h, w >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, w as int);
    assert(k / (w as int) < h) by (nonlinear_arith) requires k < w * h, (w as int) * (k / (w as int)) + k % (w as int) == k, k % (w as int) >= 0, w > 0;
    assert((w as int) * (k / (w as int)) == (k / (w as int)) * w) by (nonlinear_arith);
}
pub proof fn lemma_rm_eq(w: u32, h: u32, k: int)
    requires 0 <= k < w * h
    ensures forall|i: int, j: int| 0 <= i < w && 0 <= j && #[trigger] lin(w, i, j) == k ==> i == k % (w as int) && j == k / (w as int)
{
    assert forall|i: int, j: int| 0 <= i < w && 0 <= j && #[trigger] lin(w, i, j) == k implies i == k % (w as int) && j == k / (w as int) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, w as int, j, i);
    }
}
pub proof fn lemma_rm_all(w: u32, h: u32)
    ensures forall|i: int, j: int| 0 <= i < w && 0 <= j < h ==> #[trigger] lin(w, i, j) < w * h
{
    assert forall|i: int, j: int| 0 <= i < w && 0 <= j < h implies #[trigger] lin(w, i, j) < w * h by {
        assert(j * w + i < w * h) by (nonlinear_arith) requires 0 <= i < w, 0 <= j <= h - 1;
    }
}
// storing p at (x, y): that pixel and nothing else
pub open spec fn stored<P: Pixel>(a: ImageBuffer<P>, b: ImageBuffer<P>, x: u32, y: u32, p: P) -> bool {
    &&& b.samples().len() == a.samples().len()
    &&& forall|i: int, j: int| 0 <= i < a.w() && 0 <= j < a.h() ==> #[trigger] b.at(i, j) == (if i == x && j == y { p.chans() } else { a.at(i, j) })
    &&& forall|k: int| need::<P>(a.w(), a.h()) <= k < a.samples().len() ==> b.samples()[k] == a.samples()[k]
}
pub uninterp spec fn zero<T>() -> T;
// `expect` where panicking is the documented answer
#[verifier::external_body]
pub fn vx_or_panic<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_zeros<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| zero::<T>()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_clone<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_clone_from<T>(v: &mut Vec<T>, w: &Vec<T>) ensures final(v)@ == w@ { unimplemented!() }
} // verus!
fn main() {}
