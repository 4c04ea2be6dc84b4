//@include prelude_image.vrs
//@include std_specs.vrs

pub open spec fn smin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn smax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn sclamp(v: int, lo: int, hi: int) -> int { if v < lo { lo } else if v > hi { hi } else { v } }
// length of [0,bottom) ∩ [x, x+top)
pub open spec fn olen(b: int, t: int, x: int) -> int { smax(0, smin(b, x + t) - smax(0, x)) }

//@fn src/imageops/mod.rs overlay_bounds ret=res vis=pub
//@ sigsubst `(bottom_width, bottom_height): (u32, u32)` => `bd: (u32, u32)`
//@ sigsubst `(top_width, top_height): (u32, u32)` => `td: (u32, u32)`
//@ at body.start
    let (bottom_width, bottom_height) = bd; let (top_width, top_height) = td;
//@ spec
    ensures
        res.0 == olen(bd.0 as int, td.0 as int, x as int),
        res.1 == olen(bd.1 as int, td.1 as int, y as int),
//@end

//@fn src/imageops/mod.rs overlay_bounds_ext ret=res
//@ sigsubst `(bottom_width, bottom_height): (u32, u32)` => `bd: (u32, u32)`
//@ sigsubst `(top_width, top_height): (u32, u32)` => `td: (u32, u32)`
//@ at body.start
    let (bottom_width, bottom_height) = bd; let (top_width, top_height) = td;
//@ spec
    ensures
        ({ let nx = olen(bd.0 as int, td.0 as int, $n2 as int); let ny = olen(bd.1 as int, td.1 as int, $n3 as int);
           // area that is written: the exact intersection (or an empty area)
           if nx > 0 && ny > 0 {
               res.4 == nx && res.5 == ny
               && res.0 == smax(0, $n2 as int) && res.1 == smax(0, $n3 as int)
               && res.2 == smax(0, -($n2 as int)) && res.3 == smax(0, -($n3 as int))
           } else { res.4 == 0 || res.5 == 0 } }),
        res.0 + res.4 <= bd.0, res.1 + res.5 <= bd.1,
        (res.4 > 0 && res.5 > 0) ==> res.2 + res.4 <= td.0 && res.3 + res.5 <= td.1,
//@end

// (i, j) is inside the placed rectangle
pub open spec fn hit<J: GenericImageView>(top: &J, x: int, y: int, i: int, j: int) -> bool {
    0 <= i - x < top.sw() && 0 <= j - y < top.sh()
}

//@fn src/imageops/mod.rs overlay vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] final($n0).px(i, j) ==
            if hit($n1, $n2 as int, $n3 as int, i, j) { old($n0).px(i, j).spec_blend($n1.px(i - $n2, j - $n3)) } else { old($n0).px(i, j) },
//@ at body.start
    let ghost gx = x as int; let ghost gy = y as int;
//@ loop 0 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if hit($n1, gx, gy, i, j) && j < smax(0, gy) + $v0 { old($n0).px(i, j).spec_blend($n1.px(i - gx, j - gy)) } else { old($n0).px(i, j) },
//@ loop 1 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), $v0 < range_height,
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if hit($n1, gx, gy, i, j) && (j < smax(0, gy) + $v0 || (j == smax(0, gy) + $v0 && i < smax(0, gx) + $v1)) { old($n0).px(i, j).spec_blend($n1.px(i - gx, j - gy)) } else { old($n0).px(i, j) },
//@end

//@fn src/imageops/mod.rs replace vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] final($n0).px(i, j) ==
            if hit($n1, $n2 as int, $n3 as int, i, j) { $n1.px(i - $n2, j - $n3) } else { old($n0).px(i, j) },
//@ at body.start
    let ghost gx = x as int; let ghost gy = y as int;
//@ loop 0 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if hit($n1, gx, gy, i, j) && j < smax(0, gy) + $v0 { $n1.px(i - gx, j - gy) } else { old($n0).px(i, j) },
//@ loop 1 for
    invariant
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(), $v0 < range_height,
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if hit($n1, gx, gy, i, j) && (j < smax(0, gy) + $v0 || (j == smax(0, gy) + $v0 && i < smax(0, gx) + $v1)) { $n1.px(i - gx, j - gy) } else { old($n0).px(i, j) },
//@end

// items of (a..b).step_by(s), as documented by core
#[verifier::external_body]
pub fn vx_step_by(a: u32, b: u32, s: usize) -> (r: Vec<u32>)
    requires s != 0,
    ensures forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == a + k * s && r[k] < b,
        b <= a + r.len() * s,
        r.len() <= b,
{ (a..b).step_by(s).collect() }

pub proof fn lemma_mod(i: int, k: int, w: int) requires w > 0, k * w <= i < k * w + w, k >= 0 ensures i % w == i - k * w, 0 <= i % w < w
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, w, k, i - k * w); }

pub open spec fn tiled<P: Pixel, J: GenericImageView<Pixel = P>>(o: P, top: &J, i: int, j: int) -> P {
    o.spec_blend(top.px(i % (top.sw() as int), j % (top.sh() as int)))
}

//@fn src/imageops/mod.rs tile vis=pub
//@ attrs
#[verifier::loop_isolation(false)]
//@ forvec 1 `($A..$B).step_by($C)` => `vx_step_by($A, $B, $C)`
//@ forvec 0 `($A..$B).step_by($C)` => `vx_step_by($A, $B, $C)`
//@ spec
    requires $n1.sw() > 0, $n1.sh() > 0,
    ensures
        final($n0).sw() == old($n0).sw(), final($n0).sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] final($n0).px(i, j) == tiled(old($n0).px(i, j), $n1, i, j),
//@ loop 0 forvec
    invariant
        vxk0 <= vxi0.len(),
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if i < vxk0 * $n1.sw() { tiled(old($n0).px(i, j), $n1, i, j) } else { old($n0).px(i, j) },
    decreases vxi0.len() - vxk0
//@ loop 1 forvec
    invariant
        vxk0 <= vxi0.len(), vxk1 <= vxi1.len(),
        $n0.sw() == old($n0).sw(), $n0.sh() == old($n0).sh(),
        forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() ==> #[trigger] $n0.px(i, j) ==
            if i < $v0 || (i < $v0 + $n1.sw() && j < vxk1 * $n1.sh()) { tiled(old($n0).px(i, j), $n1, i, j) } else { old($n0).px(i, j) },
    decreases vxi1.len() - vxk1
//@ at loop1.start
    let ghost before = *$n0;
//@ at loop1.end
    proof {
        let k0 = vxk0 - 1; let k1 = vxk1 - 1;
        assert(vxk1 * $n1.sh() == k1 * $n1.sh() + $n1.sh()) by (nonlinear_arith) requires k1 == vxk1 - 1;
        assert forall|i: int, j: int| 0 <= i < old($n0).sw() && 0 <= j < old($n0).sh() implies #[trigger] $n0.px(i, j) ==
            if i < $v0 || (i < $v0 + $n1.sw() && j < vxk1 * $n1.sh()) { tiled(old($n0).px(i, j), $n1, i, j) } else { old($n0).px(i, j) } by {
            if hit($n1, $v0 as int, $v1 as int, i, j) {
                lemma_mod(i, k0, $n1.sw() as int);
                lemma_mod(j, k1, $n1.sh() as int);
            }
            assert(before.px(i, j) == before.px(i, j));
        }
    }
//@ at loop0.end
    proof {
        let k0 = vxk0 - 1;
        assert(vxk0 * $n1.sw() == k0 * $n1.sw() + $n1.sw()) by (nonlinear_arith) requires k0 == vxk0 - 1;
    }
//@end

//@fn src/imageops/mod.rs crop_dimms ret=res
//@ spec
    ensures
        res.0 == smin($n1 as int, $n0.sw() as int), res.1 == smin($n2 as int, $n0.sh() as int),
        res.2 == smin($n3 as int, $n0.sw() - res.0), res.3 == smin($n4 as int, $n0.sh() - res.1),
//@end
} // verus!
fn main() {}
