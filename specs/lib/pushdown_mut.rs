// ---- lib/pushdown_mut.rs: mapping with functions that may change; needs lib/pushdown_store.rs ----
// some state of the function answers y on x
spec fn an_answer<A, B, F: FnMut(&A) -> B>(x: A, y: B) -> bool { exists|g: F| #[trigger] call_ensures(g, (&x,), y) }
spec fn answers<A, B, F: FnMut(&A) -> B>(s: Seq<A>, r: Seq<B>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> an_answer::<A, B, F>(s[i], #[trigger] r[i]) }
spec fn callable<A, B, F: FnMut(&A) -> B>(s: Seq<A>) -> bool { forall|g: F, i: int| 0 <= i < s.len() ==> call_requires(g, (& #[trigger] s[i],)) }
impl<'f, A, B, F: FnMut(&A) -> B> VtFun<A, B> for &'f mut F {
    spec fn ok(&self, s: Seq<A>) -> bool { callable::<A, B, F>(s) }
    spec fn gives(&self, s: Seq<A>, r: Seq<B>) -> bool { answers::<A, B, F>(s, r) }
    fn vt_each<'a>(self, v: Vec<&'a A>) -> (r: Vec<B>) {
        let mut r: Vec<B> = Vec::new();
        for x in it: v
            invariant it.seq() == v@, r@.len() == it.index@, callable::<A, B, F>(vals(v@)), forall|i: int| 0 <= i < r@.len() ==> an_answer::<A, B, F>(vals(v@)[i], #[trigger] r@[i])
        { assert(*x == vals(v@)[it.index@]); r.push(self(x)); }
        r
    }
}
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::map_mut
//@ params f
//@ ret r
//@ mapmethod iter vt_iter &
//@ mapmethod map vt_map_by
//@ mapmethod collect vt_collect
//@ requires callable::<A, B, F>(self.elements@)
//@ ensures answers::<A, B, F>(self.elements@, r.elements@)
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs map_vec_mut
//@ params v, f
//@ ret r
//@ forpat 0 a
//@ local res 0
//@ requires callable::<A, B, F>(v@)
//@ ensures answers::<A, B, F>(v@, r@)
//@ loop 0 for it
    invariant it.seq() == refs(v@), res@.len() == it.index@, callable::<A, B, F>(v@), forall|i: int| 0 <= i < res@.len() ==> an_answer::<A, B, F>(v@[i], #[trigger] res@[i])
//@ loopstart 0
    assert(*a == v@[it.index@]);
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDownInstruction::map_mut
//@ params f
//@ ret r
//@ requires match *self { PushDownInstruction::Replace { current_val, new_val } => callable::<A, B, F>(current_val@) && callable::<A, B, F>(new_val@) }
//@ ensures match (*self, r) { (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) => answers::<A, B, F>(c@, d@) && answers::<A, B, F>(n@, m@) }
//@@ end
