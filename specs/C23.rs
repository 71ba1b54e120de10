// C23: approximation of automata.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Ordering;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::slice::Iter;
use std::vec::IntoIter;
use std::marker::PhantomData;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/heap.rs
//@@ include lib/chain.rs
//@@ include lib/bind.rs
//@@ include lib/strategy.rs
//@@ include lib/transition.rs
//@@ include lib/transition_order.rs
//@@ include lib/clones.rs
//@@ include lib/pushdown.rs
//@@ include lib/strategies.rs
//@@ include lib/approximation.rs
//@@ include lib/treestack.rs
//@@ include lib/treestack_instr.rs
//@@ include lib/pushdown_store.rs
//@@ include lib/pushdown_mut.rs

// ---- tree stacks as pushdowns: the labels on the way from the root to the pointer ----
spec fn path<A>(t: TreeStack<A>) -> Seq<A> { Seq::new(pointer(t).len() + 1, |k: int| node(t, pointer(t).take(k))->0) }
// pd lists the labels from the pointer of t down to where u points
spec fn climbed<A>(t: TreeStack<A>, u: TreeStack<A>, pd: Seq<A>) -> bool {
    let n = pointer(t).len();
    &&& pd.len() + pointer(u).len() == n + 1 && pd.len() > 0
    &&& pointer(u) == pointer(t).take(pointer(u).len() as int)
    &&& forall|k: int| 0 <= k < pd.len() ==> #[trigger] pd[k] == path(t)[n - k]
}
//@@ type src/approximation/tts.rs TTSElement
//@ attr #[verifier::reject_recursive_types(A)]
//@@ end
//@@ fn src/approximation/tts.rs <ApproximationStrategy~for~TTSElement>::approximate_storage
//@ implhead impl<A: Clone> TTSElement<A>
//@ params ts
//@ ret r
//@ local pd 0
//@ requires wf(ts), faithful::<A>()
//@ ensures r.elements@ == path(ts)
//@ start
    broadcast use labelled;
    let ghost all = ts;
    proof { assert(pointer(ts).take(pointer(ts).len() as int) =~= pointer(ts)); }
//@ loop 0 loop
    invariant_except_break wf(ts), same_tree(all, ts), faithful::<A>(), climbed(all, ts, pd@)
    ensures pd@ == path(all).reverse()
    decreases pointer(ts).len()
//@ loopstart 0
    broadcast use labelled;
    let ghost t0 = ts;
    proof { if pointer(ts).len() == 0 { assert(pd@ =~= path(all).reverse()); } }
//@ loopend 0
    proof {
        let (p, j) = (pointer(all), pointer(ts).len() as int);
        assert(pointer(t0) =~= pointer(ts).push(pointer(t0).last()));
        assert(pointer(ts) =~= pointer(t0).drop_last());
        assert(p.take(j + 1).drop_last() =~= p.take(j));
        assert(node(ts, pointer(ts)) == Some(ts.value));
        assert(node(all, p.take(j)) == Some(ts.value));
    }
//@ after 0
    assert(path(all).reverse().reverse() =~= path(all));
//@@ end
//@@ fn src/approximation/tts.rs <ApproximationStrategy~for~TTSElement>::approximate_instruction
//@ implhead impl<A: Clone> TTSElement<A>
//@ params instr
//@ ret r
//@ requires faithful::<A>()
//@ ensures tts_image(*instr, r)
//@@ end
spec fn tts_image<A>(i: TreeStackInstruction<A>, r: PushDownInstruction<A>) -> bool {
    let PushDownInstruction::Replace { current_val, new_val } = r;
    match i {
        TreeStackInstruction::Up { current_val: c, new_val: n, .. } => current_val@ =~= seq![c] && new_val@ =~= seq![c, n],
        TreeStackInstruction::Push { current_val: c, new_val: n, .. } => current_val@ =~= seq![c] && new_val@ =~= seq![c, n],
        TreeStackInstruction::Down { current_val: c, old_val: o, new_val: n } => current_val@ =~= seq![c, o] && new_val@ =~= seq![n],
    }
}

// ---- relabelling ----
//@@ type src/approximation/relabel.rs RlbElement
//@ subst RlbElement<'a, A1, A2> =>> RlbElement<'a, A1, A2, F>
//@ subst mapping: &'a dyn Fn(&A1) -> A2 =>> mapping: &'a F, vt_types: PhantomData<(A1, A2)>
//@@ end
//@@ fn src/approximation/relabel.rs RlbElement::new
//@ implhead impl<'a, A1, A2, F: Fn(&A1) -> A2> RlbElement<'a, A1, A2, F>
//@ params mapping
//@ newparams mapping: &'a F
//@ subst RlbElement { mapping } =>> RlbElement { mapping, vt_types: PhantomData }
//@ ret r
//@ ensures r.mapping == mapping
//@@ end
//@@ fn src/approximation/relabel.rs <ApproximationStrategy~for~RlbElement>::approximate_storage
//@ implhead impl<'a, A1, A2, F: Fn(&A1) -> A2> RlbElement<'a, A1, A2, F>
//@ params pd
//@ ret r
//@ requires forall|a: A1| call_requires(*self.mapping, (&a,))
//@ ensures maps(*self.mapping, pd.elements@, r.elements@)
//@@ end
//@@ fn src/approximation/relabel.rs <ApproximationStrategy~for~RlbElement>::approximate_instruction
//@ implhead impl<'a, A1, A2, F: Fn(&A1) -> A2> RlbElement<'a, A1, A2, F>
//@ params instr
//@ mapmethod iter vt_iter &
//@ mapmethod map vt_map_by
//@ mapmethod collect vt_collect
//@ ret r
//@ requires forall|a: A1| call_requires(*self.mapping, (&a,))
//@ ensures rlb_image(*self.mapping, *instr, r)
//@@ end
spec fn rlb_image<A, B, F: Fn(&A) -> B>(f: F, i: PushDownInstruction<A>, r: PushDownInstruction<B>) -> bool {
    let (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) = (i, r);
    maps(f, c@, d@) && maps(f, n@, m@)
}

// ---- the strategies keep the promises of the trait ----
// what instructions see of a tree stack: where it points to, and the labels of its nodes
pub ghost struct Tree<A> { pub at: Seq<usize>, pub labels: spec_fn(Seq<usize>) -> Option<A> }
spec fn tree<A>(t: TreeStack<A>) -> Tree<A> { Tree { at: pointer(t), labels: |p: Seq<usize>| node(t, p) } }
spec fn tree_target<A>(i: TreeStackInstruction<A>, t: Tree<A>) -> Seq<usize> {
    match i { TreeStackInstruction::Up { n, .. } => t.at.push(n), TreeStackInstruction::Push { n, .. } => t.at.push(n), TreeStackInstruction::Down { .. } => t.at.drop_last() }
}
spec fn tree_moves<A>(i: TreeStackInstruction<A>, t: Tree<A>) -> Seq<Tree<A>> {
    let q = tree_target(i, t);
    if (t.labels)(t.at) == Some(current(i)) && (i is Down ==> t.at.len() > 0) && (t.labels)(q) == expected(i) {
        seq![Tree { at: q, labels: |p: Seq<usize>| if p == q { Some(written(i)) } else { (t.labels)(p) } }]
    } else { Seq::empty() }
}
#[verifier::external] impl<A> PartialEq for TreeStackInstruction<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A> Eq for TreeStackInstruction<A> {}
#[verifier::external] impl<A> PartialOrd for TreeStackInstruction<A> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<A> Ord for TreeStackInstruction<A> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<A> Clone for TreeStackInstruction<A> { fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external] impl<A> PartialEq for PushDownInstruction<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A> Eq for PushDownInstruction<A> {}
#[verifier::external] impl<A> PartialOrd for PushDownInstruction<A> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<A> Ord for PushDownInstruction<A> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<A> Clone for PushDownInstruction<A> { fn clone(&self) -> Self { unimplemented!() } }
impl<A: Ord + PartialEq + Clone> Instruction for TreeStackInstruction<A> {
    type Storage = TreeStack<A>;
    type Shape = Tree<A>;
    spec fn shape(s: TreeStack<A>) -> Tree<A> { tree(s) }
    spec fn sound(s: TreeStack<A>) -> bool { wf(s) && lawful::<A>() && faithful::<A>() }
    spec fn leads(&self, a: Tree<A>) -> Seq<Tree<A>> { tree_moves(*self, a) }
    spec fn room(&self) -> bool { *self matches TreeStackInstruction::Push { n, .. } ==> n < usize::MAX }
    spec fn closing(a: Tree<A>) -> bool { a.at.len() == 0 }
    fn apply(&self, s: TreeStack<A>) -> (r: Vec<TreeStack<A>>) {
        let ghost t = tree(s);
        assert(tree_target(*self, t) == target(*self, s));
        let r = self.apply(s);
        proof {
            if r@.len() == 1 {
                let (q, a) = (target(*self, s), written(*self));
                assert(tree(r@[0]).labels =~= |p: Seq<usize>| if p == q { Some(a) } else { (t.labels)(p) });
            }
        }
        r
    }
}
impl<A: Ord + PartialEq + Clone> Instruction for PushDownInstruction<A> {
    type Storage = PushDown<A>;
    type Shape = Seq<A>;
    spec fn shape(s: PushDown<A>) -> Seq<A> { s.elements@ }
    spec fn sound(s: PushDown<A>) -> bool { lawful::<A>() && faithful::<A>() }
    spec fn leads(&self, a: Seq<A>) -> Seq<Seq<A>> {
        match *self { PushDownInstruction::Replace { current_val, new_val } => if on_top(a, current_val@) { seq![replaced(a, current_val@.len() as int, new_val@)] } else { Seq::empty() } }
    }
    spec fn room(&self) -> bool { true }
    spec fn closing(a: Seq<A>) -> bool { a.len() == 1 }
    fn apply(&self, s: PushDown<A>) -> (r: Vec<PushDown<A>>) { self.apply(s) }
}
// the automata themselves are not looked into here: what they are made of is what they say
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(W)]
pub struct TreeStackAutomaton<A, T, W> { a: PhantomData<(A, T, W)> }
uninterp spec fn tsa_rules<A: Ord + PartialEq + Clone, T, W>(a: TreeStackAutomaton<A, T, W>) -> Seq<Transition<TreeStackInstruction<A>, T, W>>;
uninterp spec fn tsa_begin<A: Ord + PartialEq + Clone, T, W>(a: TreeStackAutomaton<A, T, W>) -> <TreeStackInstruction<A> as Instruction>::Storage;
uninterp spec fn tsa_made_of<A: Ord + PartialEq + Clone, T, W>(a: TreeStackAutomaton<A, T, W>, ts: Seq<Transition<TreeStackInstruction<A>, T, W>>, s: <TreeStackInstruction<A> as Instruction>::Storage) -> bool;
impl<A: Ord + PartialEq + Clone, T, W> Automaton<T, W> for TreeStackAutomaton<A, T, W> {
    type I = TreeStackInstruction<A>;
    spec fn rules(&self) -> Seq<Transition<TreeStackInstruction<A>, T, W>> { tsa_rules(*self) }
    spec fn begin(&self) -> <TreeStackInstruction<A> as Instruction>::Storage { tsa_begin(*self) }
    spec fn made_of(&self, ts: Seq<Transition<TreeStackInstruction<A>, T, W>>, s: <TreeStackInstruction<A> as Instruction>::Storage) -> bool { tsa_made_of(*self, ts, s) }
    #[verifier::external_body] fn transitions(&self) -> Vec<Transition<TreeStackInstruction<A>, T, W>> { unimplemented!() }
    #[verifier::external_body] fn initial(&self) -> <TreeStackInstruction<A> as Instruction>::Storage { unimplemented!() }
    #[verifier::external_body] fn from_transitions(transitions: Vec<Transition<TreeStackInstruction<A>, T, W>>, initial: <TreeStackInstruction<A> as Instruction>::Storage) -> Self { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(W)]
pub struct PushDownAutomaton<A, T, W> { a: PhantomData<(A, T, W)> }
uninterp spec fn pda_rules<A: Ord + PartialEq + Clone, T, W>(a: PushDownAutomaton<A, T, W>) -> Seq<Transition<PushDownInstruction<A>, T, W>>;
uninterp spec fn pda_begin<A: Ord + PartialEq + Clone, T, W>(a: PushDownAutomaton<A, T, W>) -> <PushDownInstruction<A> as Instruction>::Storage;
uninterp spec fn pda_made_of<A: Ord + PartialEq + Clone, T, W>(a: PushDownAutomaton<A, T, W>, ts: Seq<Transition<PushDownInstruction<A>, T, W>>, s: <PushDownInstruction<A> as Instruction>::Storage) -> bool;
impl<A: Ord + PartialEq + Clone, T, W> Automaton<T, W> for PushDownAutomaton<A, T, W> {
    type I = PushDownInstruction<A>;
    spec fn rules(&self) -> Seq<Transition<PushDownInstruction<A>, T, W>> { pda_rules(*self) }
    spec fn begin(&self) -> <PushDownInstruction<A> as Instruction>::Storage { pda_begin(*self) }
    spec fn made_of(&self, ts: Seq<Transition<PushDownInstruction<A>, T, W>>, s: <PushDownInstruction<A> as Instruction>::Storage) -> bool { pda_made_of(*self, ts, s) }
    #[verifier::external_body] fn transitions(&self) -> Vec<Transition<PushDownInstruction<A>, T, W>> { unimplemented!() }
    #[verifier::external_body] fn initial(&self) -> <PushDownInstruction<A> as Instruction>::Storage { unimplemented!() }
    #[verifier::external_body] fn from_transitions(transitions: Vec<Transition<PushDownInstruction<A>, T, W>>, initial: <PushDownInstruction<A> as Instruction>::Storage) -> Self { unimplemented!() }
}

// the labels on the way to where the tree points
spec fn way<A>(t: Tree<A>) -> Seq<A> { Seq::new(t.at.len() + 1, |k: int| (t.labels)(t.at.take(k))->0) }
impl<A: Ord + Clone, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> ApproximationStrategy<T, W> for TTSElement<A> {
    type I1 = TreeStackInstruction<A>;
    type I2 = PushDownInstruction<A>;
    type A1 = TreeStackAutomaton<A, T, W>;
    type A2 = PushDownAutomaton<A, T, W>;
    spec fn ready(&self) -> bool { lawful::<A>() && faithful::<A>() }
    spec fn like(&self, a: Tree<A>, b: Seq<A>) -> bool { b == way(a) }
    spec fn image(&self, i: TreeStackInstruction<A>, r: PushDownInstruction<A>) -> bool { tts_image(i, r) }
    fn approximate_storage(&self, s: TreeStack<A>) -> (r: PushDown<A>) {
        let ghost t = tree(s);
        let r = self.approximate_storage(s);
        proof { assert(r.elements@ =~= way(t)); }
        r
    }
    fn approximate_instruction(&self, i: &TreeStackInstruction<A>) -> (r: PushDownInstruction<A>) { self.approximate_instruction(i) }
    proof fn commutes(&self, i: TreeStackInstruction<A>, j: PushDownInstruction<A>, a: Tree<A>, b: Seq<A>, k: int) -> (n: int) {
        let PushDownInstruction::Replace { current_val: c, new_val: d } = j;
        let q = tree_target(i, a);
        let u = i.leads(a)[k];
        let l = a.at.len() as int;
        assert(a.at.take(l) =~= a.at);
        assert(b.last() == current(i));
        if i is Down {
            assert(a.at.take(l - 1) =~= q);
            assert(c@[1] == b[l - 1]);
            assert(on_top(b, c@));
            assert forall|m: int| 0 <= m < l implies #[trigger] q.take(m) == a.at.take(m) by { assert(q.take(m) =~= a.at.take(m)); }
            assert forall|m: int| 0 <= m < l - 1 implies q.take(m) != q by { assert(q.take(m).len() == m); }
            assert(q.take(l - 1) =~= q);
            assert(replaced(b, 2, d@) =~= way(u));
        } else {
            assert(on_top(b, c@));
            assert forall|m: int| 0 <= m <= l implies #[trigger] q.take(m) == a.at.take(m) && q.take(m) != q by { assert(q.take(m) =~= a.at.take(m)); assert(q.take(m).len() == m); }
            assert(q.take(l + 1) =~= q);
            assert(replaced(b, 1, d@) =~= way(u));
        }
        0
    }
    proof fn closes(&self, a: Tree<A>, b: Seq<A>) {}
    proof fn single(&self, j: PushDownInstruction<A>, b: Seq<A>) {}
}
// the relabelling gives one answer for each symbol
spec fn function<A, B, F: Fn(&A) -> B>(f: F) -> bool {
    (forall|a: A| call_requires(f, (&a,))) && forall|a: A, b: B, c: B| #![trigger call_ensures(f, (&a,), b), call_ensures(f, (&a,), c)] call_ensures(f, (&a,), b) && call_ensures(f, (&a,), c) ==> b == c
}
impl<'a, A1: Ord + Clone, A2: Ord + Clone, F: Fn(&A1) -> A2, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> ApproximationStrategy<T, W> for RlbElement<'a, A1, A2, F> {
    type I1 = PushDownInstruction<A1>;
    type I2 = PushDownInstruction<A2>;
    type A1 = PushDownAutomaton<A1, T, W>;
    type A2 = PushDownAutomaton<A2, T, W>;
    spec fn ready(&self) -> bool { function(*self.mapping) && lawful::<A2>() && faithful::<A2>() }
    spec fn like(&self, a: Seq<A1>, b: Seq<A2>) -> bool { maps(*self.mapping, a, b) }
    spec fn image(&self, i: PushDownInstruction<A1>, r: PushDownInstruction<A2>) -> bool { rlb_image(*self.mapping, i, r) }
    fn approximate_storage(&self, s: PushDown<A1>) -> (r: PushDown<A2>) { self.approximate_storage(s) }
    fn approximate_instruction(&self, i: &PushDownInstruction<A1>) -> (r: PushDownInstruction<A2>) { self.approximate_instruction(i) }
    proof fn commutes(&self, i: PushDownInstruction<A1>, j: PushDownInstruction<A2>, a: Seq<A1>, b: Seq<A2>, k: int) -> (n: int) {
        let (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) = (i, j);
        let f = *self.mapping;
        assert forall|i: int| 0 <= i < d@.len() implies b[b.len() - 1 - i] == #[trigger] d@[i] by { let e = a[a.len() - 1 - i]; assert(e == c@[i]); assert(call_ensures(f, (&e,), b[a.len() - 1 - i])); assert(call_ensures(f, (&e,), d@[i])); }
        let (x, y) = (replaced(a, c@.len() as int, n@), replaced(b, d@.len() as int, m@));
        let z = a.len() - c@.len();
        assert forall|i: int| 0 <= i < y.len() implies call_ensures(f, (&x[i],), #[trigger] y[i]) by { if i < z { assert(y[i] == b[i]); } else { assert(y[i] == m@[i - z]); } }
        0
    }
    proof fn closes(&self, a: Seq<A1>, b: Seq<A2>) {}
    proof fn single(&self, j: PushDownInstruction<A2>, b: Seq<A2>) {}
}
} // verus!
