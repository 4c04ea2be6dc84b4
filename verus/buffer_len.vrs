//@fn src/buffer.rs image_buffer_len ret=res
//@ subst `<P as Pixel>::CHANNEL_COUNT` => `P::channel_count()`
//@ closure 0 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 * width <= usize::MAX { Some(($p0 * width) as usize) } else { None })
//@ closure 1 (usize) -> (cr: Option<usize>)
    ensures cr == (if $p0 * height <= usize::MAX { Some(($p0 * height) as usize) } else { None })
//@ at body.start
    proof {
        let c = P::cc() as int;
        assert(c * $n0 >= 0) by (nonlinear_arith) requires c >= 0;
        assert(c * $n0 <= usize::MAX) by (nonlinear_arith) requires 0 <= c <= 0xff, 0 <= $n0 <= 0xffff_ffff;
        if $n1 >= 1 { assert((c * $n0) * $n1 >= c * $n0) by (nonlinear_arith) requires c * $n0 >= 0, $n1 >= 1; }
        assert(c * $n0 <= 0xff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= c <= 0xff, 0 <= $n0 <= 0xffff_ffff;
        if $n1 == 0 { assert((c * $n0) * $n1 == 0) by (nonlinear_arith) requires $n1 == 0; }
    }
//@ spec
    requires P::cc() <= 255,
    ensures res == (if need::<P>($n0, $n1) <= usize::MAX { Some(need::<P>($n0, $n1) as usize) } else { None }),
//@end
