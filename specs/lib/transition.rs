// ---- lib/transition.rs: applying transitions; needs lib/std.rs and the trait Instruction ----
//@@ type src/recognisable/transition.rs Transition
//@ public
//@@ end
//@@ type src/recognisable/configuration.rs Configuration
//@ public
//@@ end
fn vt_starts_with<T: PartialEq>(v: &[T], w: &[T]) -> (r: bool)
    requires lawful::<T>()
    ensures r == begins(v@, w@)
{
    let r = v.starts_with(w);
    proof {
        if r {
            assert forall|i: int| 0 <= i < w@.len() implies v@[i] == #[trigger] w@[i] by { assert(v@[i].eq_spec(&w@[i])); }
            assert(v@.take(w@.len() as int) =~= w@);
        }
        if begins(v@, w@) {
            assert forall|i: int| 0 <= i < w@.len() implies v@[i].eq_spec(& #[trigger] w@[i]) by { assert(v@[i] == v@.take(w@.len() as int)[i]); }
        }
    }
    r
}
spec fn begins<T>(w: Seq<T>, u: Seq<T>) -> bool { u.len() <= w.len() && w.take(u.len() as int) == u }
// what a transition yields when its instruction yields ss
spec fn after<I, T, W: Mul<Output = W> + Copy, S>(t: Transition<I, T, W>, c: Configuration<S, T, W>, ss: Seq<S>, r: Seq<Configuration<S, T, W>>) -> bool {
    r.len() == ss.len() && forall|k: int| 0 <= k < r.len() ==> one_after(t, c, ss[k], #[trigger] r[k])
}
spec fn one_after<I, T, W: Mul<Output = W> + Copy, S>(t: Transition<I, T, W>, c: Configuration<S, T, W>, s: S, r: Configuration<S, T, W>) -> bool {
    r.word@ == c.word@.skip(t.word@.len() as int) && r.storage == s && (W::obeys_mul_spec() ==> r.weight == c.weight.mul_spec(t.weight))
}
// the instruction yields exactly ss, and the transition what follows from it
spec fn follows<I: Instruction, T, W: Mul<Output = W> + Copy>(t: Transition<I, T, W>, c: Configuration<I::Storage, T, W>, r: Seq<Configuration<I::Storage, T, W>>) -> bool {
    exists|ss: Seq<I::Storage>| #[trigger] yields(t.instruction, c.storage, ss) && after(t, c, ss, r)
}
// what `apply` answers
spec fn applied<I: Instruction, T, W: Mul<Output = W> + Copy>(t: Transition<I, T, W>, c: Configuration<I::Storage, T, W>, r: Seq<Configuration<I::Storage, T, W>>) -> bool {
    if begins(c.word@, t.word@) { follows(t, c, r) } else { r.len() == 0 }
}
spec fn yields<I: Instruction>(i: I, s: I::Storage, ss: Seq<I::Storage>) -> bool { exists|v: Vec<I::Storage>| #[trigger] call_ensures(I::apply, (&i, s), v) && v@ == ss }

//@@ fn src/recognisable/transition.rs Transition::apply
//@ params c
//@ ret r
//@ local confs 0
//@ forpat 0 s1
//@ attr #[verifier::loop_isolation(false)]
//@ mapmethod starts_with vt_starts_with &
//@ requires
    lawful::<T>(), faithful::<T>(), faithful::<I::Storage>(),
    begins(c.word@, self.word@) ==> call_requires(I::apply, (&self.instruction, c.storage)) && c.weight.mul_req(self.weight),
//@ ensures
    applied(*self, *c, r@),
//@ loop 0 for it
    invariant yields(self.instruction, c.storage, it.seq()), confs@.len() == it.index@, forall|j: int| 0 <= j < confs@.len() ==> one_after(*self, *c, it.seq()[j], #[trigger] confs@[j]),
//@ loopstart 0
    assert(s1 == it.seq()[it.index@]);
    assert(c.word@.skip(0) =~= c.word@);
//@@ end
