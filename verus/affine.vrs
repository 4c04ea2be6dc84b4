//@include prelude_image.vrs

//@fn src/imageops/affine.rs rotate90_in ret=res vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `where I: GenericImageView, I::Pixel: 'static, Container: std::ops::DerefMut<Target = [<I::Pixel as Pixel>::Subpixel]>,` => `where I: GenericImageView, I::Pixel: 'static,`
//@ sigsubst? `crate :: ImageResult` => `ImageResult`
//@ spec
    ensures
        res.is_ok() <==> old($n1).sw() == $n0.sh() && old($n1).sh() == $n0.sw(),
        final($n1).sw() == old($n1).sw(), final($n1).sh() == old($n1).sh(),
        res.is_err() ==> forall|i: int, j: int| #[trigger] final($n1).px(i, j) == old($n1).px(i, j),
        res.is_ok() ==> forall|i: int, j: int| 0 <= i < final($n1).sw() && 0 <= j < final($n1).sh()
            ==> #[trigger] final($n1).px(i, j) == $n0.px(j, $n0.sh() - 1 - i),
//@ loop 0 for
    invariant
        $n1.sw() == $n0.sh(), $n1.sh() == $n0.sw(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && $n0.sh() - 1 - i < $v0 ==> #[trigger] $n1.px(i, j) == $n0.px(j, $n0.sh() - 1 - i),
//@ loop 1 for
    invariant
        $n1.sw() == $n0.sh(), $n1.sh() == $n0.sw(), $v0 < $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && ($n0.sh() - 1 - i < $v0 || ($n0.sh() - 1 - i == $v0 && j < $v1)) ==> #[trigger] $n1.px(i, j) == $n0.px(j, $n0.sh() - 1 - i),
//@end

//@fn src/imageops/affine.rs rotate180_in ret=res vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `where I: GenericImageView, I::Pixel: 'static, Container: std::ops::DerefMut<Target = [<I::Pixel as Pixel>::Subpixel]>,` => `where I: GenericImageView, I::Pixel: 'static,`
//@ sigsubst? `crate :: ImageResult` => `ImageResult`
//@ spec
    ensures
        res.is_ok() <==> old($n1).sw() == $n0.sw() && old($n1).sh() == $n0.sh(),
        final($n1).sw() == old($n1).sw(), final($n1).sh() == old($n1).sh(),
        res.is_err() ==> forall|i: int, j: int| #[trigger] final($n1).px(i, j) == old($n1).px(i, j),
        res.is_ok() ==> forall|i: int, j: int| 0 <= i < final($n1).sw() && 0 <= j < final($n1).sh()
            ==> #[trigger] final($n1).px(i, j) == $n0.px($n0.sw() - 1 - i, $n0.sh() - 1 - j),
//@ loop 0 for
    invariant
        $n1.sw() == $n0.sw(), $n1.sh() == $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && $n0.sh() - 1 - j < $v0 ==> #[trigger] $n1.px(i, j) == $n0.px($n0.sw() - 1 - i, $n0.sh() - 1 - j),
//@ loop 1 for
    invariant
        $n1.sw() == $n0.sw(), $n1.sh() == $n0.sh(), $v0 < $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && ($n0.sh() - 1 - j < $v0 || ($n0.sh() - 1 - j == $v0 && $n0.sw() - 1 - i < $v1)) ==> #[trigger] $n1.px(i, j) == $n0.px($n0.sw() - 1 - i, $n0.sh() - 1 - j),
//@end

//@fn src/imageops/affine.rs rotate270_in ret=res vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `where I: GenericImageView, I::Pixel: 'static, Container: std::ops::DerefMut<Target = [<I::Pixel as Pixel>::Subpixel]>,` => `where I: GenericImageView, I::Pixel: 'static,`
//@ sigsubst? `crate :: ImageResult` => `ImageResult`
//@ spec
    ensures
        res.is_ok() <==> old($n1).sw() == $n0.sh() && old($n1).sh() == $n0.sw(),
        final($n1).sw() == old($n1).sw(), final($n1).sh() == old($n1).sh(),
        res.is_err() ==> forall|i: int, j: int| #[trigger] final($n1).px(i, j) == old($n1).px(i, j),
        res.is_ok() ==> forall|i: int, j: int| 0 <= i < final($n1).sw() && 0 <= j < final($n1).sh()
            ==> #[trigger] final($n1).px(i, j) == $n0.px($n0.sw() - 1 - j, i),
//@ loop 0 for
    invariant
        $n1.sw() == $n0.sh(), $n1.sh() == $n0.sw(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && i < $v0 ==> #[trigger] $n1.px(i, j) == $n0.px($n0.sw() - 1 - j, i),
//@ loop 1 for
    invariant
        $n1.sw() == $n0.sh(), $n1.sh() == $n0.sw(), $v0 < $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && (i < $v0 || (i == $v0 && $n0.sw() - 1 - j < $v1)) ==> #[trigger] $n1.px(i, j) == $n0.px($n0.sw() - 1 - j, i),
//@end

//@fn src/imageops/affine.rs flip_horizontal_in ret=res vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `where I: GenericImageView, I::Pixel: 'static, Container: std::ops::DerefMut<Target = [<I::Pixel as Pixel>::Subpixel]>,` => `where I: GenericImageView, I::Pixel: 'static,`
//@ sigsubst? `crate :: ImageResult` => `ImageResult`
//@ spec
    ensures
        res.is_ok() <==> old($n1).sw() == $n0.sw() && old($n1).sh() == $n0.sh(),
        final($n1).sw() == old($n1).sw(), final($n1).sh() == old($n1).sh(),
        res.is_err() ==> forall|i: int, j: int| #[trigger] final($n1).px(i, j) == old($n1).px(i, j),
        res.is_ok() ==> forall|i: int, j: int| 0 <= i < final($n1).sw() && 0 <= j < final($n1).sh()
            ==> #[trigger] final($n1).px(i, j) == $n0.px($n0.sw() - 1 - i, j),
//@ loop 0 for
    invariant
        $n1.sw() == $n0.sw(), $n1.sh() == $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && j < $v0 ==> #[trigger] $n1.px(i, j) == $n0.px($n0.sw() - 1 - i, j),
//@ loop 1 for
    invariant
        $n1.sw() == $n0.sw(), $n1.sh() == $n0.sh(), $v0 < $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && (j < $v0 || (j == $v0 && $n0.sw() - 1 - i < $v1)) ==> #[trigger] $n1.px(i, j) == $n0.px($n0.sw() - 1 - i, j),
//@end

//@fn src/imageops/affine.rs flip_vertical_in ret=res vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ sigsubst? `where I: GenericImageView, I::Pixel: 'static, Container: std::ops::DerefMut<Target = [<I::Pixel as Pixel>::Subpixel]>,` => `where I: GenericImageView, I::Pixel: 'static,`
//@ sigsubst? `crate :: ImageResult` => `ImageResult`
//@ spec
    ensures
        res.is_ok() <==> old($n1).sw() == $n0.sw() && old($n1).sh() == $n0.sh(),
        final($n1).sw() == old($n1).sw(), final($n1).sh() == old($n1).sh(),
        res.is_err() ==> forall|i: int, j: int| #[trigger] final($n1).px(i, j) == old($n1).px(i, j),
        res.is_ok() ==> forall|i: int, j: int| 0 <= i < final($n1).sw() && 0 <= j < final($n1).sh()
            ==> #[trigger] final($n1).px(i, j) == $n0.px(i, $n0.sh() - 1 - j),
//@ loop 0 for
    invariant
        $n1.sw() == $n0.sw(), $n1.sh() == $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && $n0.sh() - 1 - j < $v0 ==> #[trigger] $n1.px(i, j) == $n0.px(i, $n0.sh() - 1 - j),
//@ loop 1 for
    invariant
        $n1.sw() == $n0.sw(), $n1.sh() == $n0.sh(), $v0 < $n0.sh(),
        forall|i: int, j: int| 0 <= i < $n1.sw() && 0 <= j < $n1.sh() && ($n0.sh() - 1 - j < $v0 || ($n0.sh() - 1 - j == $v0 && i < $v1)) ==> #[trigger] $n1.px(i, j) == $n0.px(i, $n0.sh() - 1 - j),
//@end

//@fn src/imageops/affine.rs rotate90 ret=res vis=pub
//@ spec
    ensures
        res.sw() == $n0.sh(), res.sh() == $n0.sw(),
        forall|i: int, j: int| 0 <= i < res.sw() && 0 <= j < res.sh() ==> #[trigger] res.px(i, j) == $n0.px(j, $n0.sh() - 1 - i),
//@end

//@fn src/imageops/affine.rs rotate180 ret=res vis=pub
//@ spec
    ensures
        res.sw() == $n0.sw(), res.sh() == $n0.sh(),
        forall|i: int, j: int| 0 <= i < res.sw() && 0 <= j < res.sh() ==> #[trigger] res.px(i, j) == $n0.px($n0.sw() - 1 - i, $n0.sh() - 1 - j),
//@end

//@fn src/imageops/affine.rs rotate270 ret=res vis=pub
//@ spec
    ensures
        res.sw() == $n0.sh(), res.sh() == $n0.sw(),
        forall|i: int, j: int| 0 <= i < res.sw() && 0 <= j < res.sh() ==> #[trigger] res.px(i, j) == $n0.px($n0.sw() - 1 - j, i),
//@end

//@fn src/imageops/affine.rs flip_horizontal ret=res vis=pub
//@ spec
    ensures
        res.sw() == $n0.sw(), res.sh() == $n0.sh(),
        forall|i: int, j: int| 0 <= i < res.sw() && 0 <= j < res.sh() ==> #[trigger] res.px(i, j) == $n0.px($n0.sw() - 1 - i, j),
//@end

//@fn src/imageops/affine.rs flip_vertical ret=res vis=pub
//@ spec
    ensures
        res.sw() == $n0.sw(), res.sh() == $n0.sh(),
        forall|i: int, j: int| 0 <= i < res.sw() && 0 <= j < res.sh() ==> #[trigger] res.px(i, j) == $n0.px(i, $n0.sh() - 1 - j),
//@end

//@fn src/imageops/affine.rs rotate180_in_place vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh()
            ==> #[trigger] final($n0).px(i, j) == old($n0).px(old($n0).sw() - 1 - i, old($n0).sh() - 1 - j),
//@ loop 0 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), 
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j < $v0 || j >= old($n0).sh() - $v0 { old($n0).px(old($n0).sw() - 1 - i, old($n0).sh() - 1 - j) } else { old($n0).px(i, j) },
//@ loop 1 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), $v0 < old($n0).sh() / 2,
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j < $v0 || j >= old($n0).sh() - $v0 || (j == $v0 && i < $v1) || (j == old($n0).sh() - 1 - $v0 && i > old($n0).sw() - 1 - $v1) { old($n0).px(old($n0).sw() - 1 - i, old($n0).sh() - 1 - j) } else { old($n0).px(i, j) },
//@ loop 2 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), old($n0).sh() % 2 == 1,
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j != old($n0).sh() / 2 || i < $v2 || i > old($n0).sw() - 1 - $v2 { old($n0).px(old($n0).sw() - 1 - i, old($n0).sh() - 1 - j) } else { old($n0).px(i, j) },
//@end

//@fn src/imageops/affine.rs flip_horizontal_in_place vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh()
            ==> #[trigger] final($n0).px(i, j) == old($n0).px(old($n0).sw() - 1 - i, j),
//@ loop 0 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), 
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j < $v0 { old($n0).px(old($n0).sw() - 1 - i, j) } else { old($n0).px(i, j) },
//@ loop 1 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), $v0 < old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j < $v0 || (j == $v0 && (i < $v1 || i > old($n0).sw() - 1 - $v1)) { old($n0).px(old($n0).sw() - 1 - i, j) } else { old($n0).px(i, j) },
//@end

//@fn src/imageops/affine.rs flip_vertical_in_place vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh()
            ==> #[trigger] final($n0).px(i, j) == old($n0).px(i, old($n0).sh() - 1 - j),
//@ loop 0 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), 
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j < $v0 || j >= old($n0).sh() - $v0 { old($n0).px(i, old($n0).sh() - 1 - j) } else { old($n0).px(i, j) },
//@ loop 1 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), $v0 < old($n0).sh() / 2,
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if j < $v0 || j >= old($n0).sh() - $v0 || ((j == $v0 || j == old($n0).sh() - 1 - $v0) && i < $v1) { old($n0).px(i, old($n0).sh() - 1 - j) } else { old($n0).px(i, j) },
//@end

} // verus!
fn main() {}