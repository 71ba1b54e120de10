// ---- lib/pushdown_conv.rs: pushdowns from and to lists; needs lib/pushdown.rs ----
//@@ fn src/util/push_down.rs <From~for~Pushdown>::from
//@ implhead impl<'a, A: Clone> Pushdown<A>
//@ params vec
//@ ret r
//@ requires faithful::<A>()
//@ ensures held(r) == vec@
//@ local res 0
//@ forpat 0 a
//@ mapmethod iter vt_iter
//@ loop 0 for it
    invariant faithful::<A>(), it.seq() == refs(vec@), held(res) == vec@.take(it.index@)
//@ loopstart 0
    assert(*a == vec@[it.index@]);
    assert(vec@.take(it.index@ + 1) =~= vec@.take(it.index@).push(vec@[it.index@]));
//@@ end
//@@ fn src/util/push_down.rs <Into~for~Pushdown>::into
//@ implhead impl<A: Clone> Pushdown<A>
//@ ret r
//@ mapmethod deref vt_rc_deref &
//@ local current 0
//@ local res 1
//@ requires faithful::<A>()
//@ ensures r@ == held(self)
//@ loop 0 loop
    invariant faithful::<A>(), held(current) + res@.reverse() == held(self)
    ensures held(current).len() == 0
    decreases current
//@ loopstart 0
    broadcast use items_step;
    let ghost (c0, r0) = (current, res@);
//@ loopend 0
    proof { one_down(held(c0), r0); }
//@@ end
