#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include panics.vrs
//@include slices.vrs
// the mapped functions are read as pure (`Fn` instead of `FnMut`): what they are asked and what they answer
//@item src/color.rs#define_colors struct Luma vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct LumaA vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct Rgb vis=pub attrs="#[derive(Clone, Copy)]"
//@item src/color.rs#define_colors struct Rgba vis=pub attrs="#[derive(Clone, Copy)]"
impl<T: Copy> Luma<T> {
//@fn src/color.rs#define_colors apply ctx="Pixel for Luma < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for $A in &mut self.0 {$B}` => `for vxi in 0..self.0.len() { let $A = &mut self.0[vxi]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 1 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply_with_alpha ctx="Pixel for Luma < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `const ALPHA: usize = $A;` => `let ALPHA: usize = $A;`
//@ subst `for $A in self.0[..ALPHA].iter_mut() {$B}` => `for vxi in 0..ALPHA { let $A = &mut self.0[vxi]; {$B} }`
//@ subst `if let Some($A) = self.0.get_mut(ALPHA) {$B}` => `if ALPHA < self.0.len() { let $A = &mut self.0[ALPHA]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 1 <= i < 1 ==> $n1.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant ALPHA == 1, forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 1 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply2 ctx="Pixel for Luma < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for ($A, &$B) in self.0.iter_mut().zip(other.0.iter()) {$C}` => `for vxi in 0..self.0.len() { let $B = other.0[vxi]; let $A = &mut self.0[vxi]; {$C} }`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 1 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T, y: T| #[trigger] $n1.requires((x, y)), forall|i: int| 0 <= i < $v0 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), self.0@[i]), forall|i: int| $v0 <= i < 1 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors map ctx="Pixel for Luma < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/color.rs#define_colors map_with_alpha ctx="Pixel for Luma < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 1 <= i < 1 ==> $n1.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/traits.rs apply_without_alpha ctx="trait Pixel"
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 1 <= i < 1 ==> final(self).0@[i] == #[trigger] old(self).0@[i],
//@end
//@fn src/traits.rs map_without_alpha ctx="trait Pixel" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 1 <= i < 1 ==> res.0@[i] == #[trigger] self.0@[i],
//@end
//@fn src/color.rs#define_colors map2 ctx="Pixel for Luma < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 1 ==> $n1.ensures((#[trigger] self.0@[i], $n0.0@[i]), res.0@[i]),
//@end
}
impl<T: Copy> LumaA<T> {
//@fn src/color.rs#define_colors apply ctx="Pixel for LumaA < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for $A in &mut self.0 {$B}` => `for vxi in 0..self.0.len() { let $A = &mut self.0[vxi]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 2 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 2 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply_with_alpha ctx="Pixel for LumaA < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `const ALPHA: usize = $A;` => `let ALPHA: usize = $A;`
//@ subst `for $A in self.0[..ALPHA].iter_mut() {$B}` => `for vxi in 0..ALPHA { let $A = &mut self.0[vxi]; {$B} }`
//@ subst `if let Some($A) = self.0.get_mut(ALPHA) {$B}` => `if ALPHA < self.0.len() { let $A = &mut self.0[ALPHA]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 1 <= i < 2 ==> $n1.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant ALPHA == 1, forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 2 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply2 ctx="Pixel for LumaA < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for ($A, &$B) in self.0.iter_mut().zip(other.0.iter()) {$C}` => `for vxi in 0..self.0.len() { let $B = other.0[vxi]; let $A = &mut self.0[vxi]; {$C} }`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 2 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T, y: T| #[trigger] $n1.requires((x, y)), forall|i: int| 0 <= i < $v0 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), self.0@[i]), forall|i: int| $v0 <= i < 2 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors map ctx="Pixel for LumaA < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 2 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/color.rs#define_colors map_with_alpha ctx="Pixel for LumaA < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 1 <= i < 2 ==> $n1.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/traits.rs apply_without_alpha ctx="trait Pixel"
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 1 <= i < 2 ==> final(self).0@[i] == #[trigger] old(self).0@[i],
//@end
//@fn src/traits.rs map_without_alpha ctx="trait Pixel" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 1 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 1 <= i < 2 ==> res.0@[i] == #[trigger] self.0@[i],
//@end
//@fn src/color.rs#define_colors map2 ctx="Pixel for LumaA < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 2 ==> $n1.ensures((#[trigger] self.0@[i], $n0.0@[i]), res.0@[i]),
//@end
}
impl<T: Copy> Rgb<T> {
//@fn src/color.rs#define_colors apply ctx="Pixel for Rgb < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for $A in &mut self.0 {$B}` => `for vxi in 0..self.0.len() { let $A = &mut self.0[vxi]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 3 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply_with_alpha ctx="Pixel for Rgb < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `const ALPHA: usize = $A;` => `let ALPHA: usize = $A;`
//@ subst `for $A in self.0[..ALPHA].iter_mut() {$B}` => `for vxi in 0..ALPHA { let $A = &mut self.0[vxi]; {$B} }`
//@ subst `if let Some($A) = self.0.get_mut(ALPHA) {$B}` => `if ALPHA < self.0.len() { let $A = &mut self.0[ALPHA]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 3 <= i < 3 ==> $n1.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant ALPHA == 3, forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 3 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply2 ctx="Pixel for Rgb < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for ($A, &$B) in self.0.iter_mut().zip(other.0.iter()) {$C}` => `for vxi in 0..self.0.len() { let $B = other.0[vxi]; let $A = &mut self.0[vxi]; {$C} }`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 3 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T, y: T| #[trigger] $n1.requires((x, y)), forall|i: int| 0 <= i < $v0 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), self.0@[i]), forall|i: int| $v0 <= i < 3 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors map ctx="Pixel for Rgb < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/color.rs#define_colors map_with_alpha ctx="Pixel for Rgb < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 3 <= i < 3 ==> $n1.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/traits.rs apply_without_alpha ctx="trait Pixel"
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 3 <= i < 3 ==> final(self).0@[i] == #[trigger] old(self).0@[i],
//@end
//@fn src/traits.rs map_without_alpha ctx="trait Pixel" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 3 <= i < 3 ==> res.0@[i] == #[trigger] self.0@[i],
//@end
//@fn src/color.rs#define_colors map2 ctx="Pixel for Rgb < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 3 ==> $n1.ensures((#[trigger] self.0@[i], $n0.0@[i]), res.0@[i]),
//@end
}
impl<T: Copy> Rgba<T> {
//@fn src/color.rs#define_colors apply ctx="Pixel for Rgba < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for $A in &mut self.0 {$B}` => `for vxi in 0..self.0.len() { let $A = &mut self.0[vxi]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 4 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 4 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply_with_alpha ctx="Pixel for Rgba < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `const ALPHA: usize = $A;` => `let ALPHA: usize = $A;`
//@ subst `for $A in self.0[..ALPHA].iter_mut() {$B}` => `for vxi in 0..ALPHA { let $A = &mut self.0[vxi]; {$B} }`
//@ subst `if let Some($A) = self.0.get_mut(ALPHA) {$B}` => `if ALPHA < self.0.len() { let $A = &mut self.0[ALPHA]; {$B} }`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 3 <= i < 4 ==> $n1.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]),
//@ loop 0 for
    invariant ALPHA == 3, forall|x: T| #[trigger] $n0.requires((x,)), forall|i: int| 0 <= i < $v0 ==> $n0.ensures((#[trigger] old(self).0@[i],), self.0@[i]), forall|i: int| $v0 <= i < 4 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors apply2 ctx="Pixel for Rgba < T >"
//@ sigsubst `FnMut` => `Fn`
//@ subst `for ($A, &$B) in self.0.iter_mut().zip(other.0.iter()) {$C}` => `for vxi in 0..self.0.len() { let $B = other.0[vxi]; let $A = &mut self.0[vxi]; {$C} }`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 4 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), final(self).0@[i]),
//@ loop 0 for
    invariant forall|x: T, y: T| #[trigger] $n1.requires((x, y)), forall|i: int| 0 <= i < $v0 ==> $n1.ensures((#[trigger] old(self).0@[i], $n0.0@[i]), self.0@[i]), forall|i: int| $v0 <= i < 4 ==> #[trigger] self.0@[i] == old(self).0@[i],
//@end
//@fn src/color.rs#define_colors map ctx="Pixel for Rgba < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 4 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/color.rs#define_colors map_with_alpha ctx="Pixel for Rgba < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)), forall|x: T| #[trigger] $n1.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 3 <= i < 4 ==> $n1.ensures((#[trigger] self.0@[i],), res.0@[i]),
//@end
//@fn src/traits.rs apply_without_alpha ctx="trait Pixel"
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] old(self).0@[i],), final(self).0@[i]), forall|i: int| 3 <= i < 4 ==> final(self).0@[i] == #[trigger] old(self).0@[i],
//@end
//@fn src/traits.rs map_without_alpha ctx="trait Pixel" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ sigsubst? `Self::Subpixel` => `T`
//@ closure 0 (T) -> (cr: T)
    ensures cr == $p0
//@ spec
    requires forall|x: T| #[trigger] $n0.requires((x,)),
    ensures forall|i: int| 0 <= i < 3 ==> $n0.ensures((#[trigger] self.0@[i],), res.0@[i]), forall|i: int| 3 <= i < 4 ==> res.0@[i] == #[trigger] self.0@[i],
//@end
//@fn src/color.rs#define_colors map2 ctx="Pixel for Rgba < T >" ret=res
//@ sigsubst `FnMut` => `Fn`
//@ subst? `(*self).clone()` => `*self`
//@ spec
    requires forall|x: T, y: T| #[trigger] $n1.requires((x, y)),
    ensures forall|i: int| 0 <= i < 4 ==> $n1.ensures((#[trigger] self.0@[i], $n0.0@[i]), res.0@[i]),
//@end
}
}
fn main() {}
