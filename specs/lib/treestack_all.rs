// ---- lib/treestack_all.rs: TreeStack::all; needs lib/treestack.rs ----
pub open spec fn everywhere<A, F: Fn(&A) -> bool>(f: F, t: TreeStack<A>) -> bool { forall|p: Seq<usize>| (#[trigger] above(t, p)) is Some ==> call_ensures(f, (&above(t, p)->0,), true) }
pub open spec fn somewhere_not<A, F: Fn(&A) -> bool>(f: F, t: TreeStack<A>) -> bool { exists|p: Seq<usize>| (#[trigger] above(t, p)) is Some && call_ensures(f, (&above(t, p)->0,), false) }
spec fn child_all<A, F: Fn(&A) -> bool>(f: F, c: Option<Rc<TreeStack<A>>>, r: bool) -> bool {
    match c { Some(c) => if r { everywhere(f, *c) } else { somewhere_not(f, *c) }, None => r }
}
// what the node and its children answer is what the whole subtree answers
proof fn all_of<A, F: Fn(&A) -> bool>(f: F, t: TreeStack<A>, r: bool)
    requires
        r ==> call_ensures(f, (&t.value,), true) && forall|i: int| 0 <= i < t.children@.len() ==> child_all(f, #[trigger] t.children@[i], true),
        !r ==> call_ensures(f, (&t.value,), false) || exists|i: int| 0 <= i < t.children@.len() && child_all(f, #[trigger] t.children@[i], false),
    ensures r ==> everywhere(f, t), !r ==> somewhere_not(f, t)
{
    if r {
        assert forall|p: Seq<usize>| (#[trigger] above(t, p)) is Some implies call_ensures(f, (&above(t, p)->0,), true) by {
            if p.len() > 0 { let c = t.children@[p[0] as int]; assert(child_all(f, c, true)); assert(above(*c->0, p.skip(1)) is Some); }
        }
    } else if call_ensures(f, (&t.value,), false) {
        assert(above(t, Seq::<usize>::empty()) == Some(t.value));
    } else {
        let i = choose|i: int| 0 <= i < t.children@.len() && child_all(f, #[trigger] t.children@[i], false);
        let c = *t.children@[i]->0;
        let q = choose|p: Seq<usize>| (#[trigger] above(c, p)) is Some && call_ensures(f, (&above(c, p)->0,), false);
        let p = seq![i as usize].add(q);
        assert(t.children.len() == t.children@.len());
        assert(p.skip(1) =~= q);
        assert(above(t, p) == above(c, q));
    }
}
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::all
//@ params predicate
//@ ret r
//@ mapmethod iter vt_iter &
//@ mapmethod all vt_all
//@ subst? vt_all (child , predicate) =>> child.all(predicate)
//@ closure 0 (maybe_child: &Option<Rc<TreeStack<A>>>) -> (r: bool)
    requires forall|a: A| call_requires(*predicate, (&a,)), exists|n: int| 0 <= n < self.children@.len() && *maybe_child == #[trigger] self.children@[n]
    ensures child_all(*predicate, *maybe_child, r)
//@ requires forall|a: A| call_requires(*predicate, (&a,))
//@ ensures r ==> everywhere(*predicate, *self), !r ==> somewhere_not(*predicate, *self)
//@ tail
    proof { all_of(*predicate, *self, result__); }
//@ decreases *self
//@@ end
