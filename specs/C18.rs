// C18: the instructions of multiple Dyck automata on tree stacks.
use vstd::prelude::*;
use std::rc::Rc;
use std::collections::BTreeSet;
use vstd::std_specs::cmp::*;
verus! {
use MultipleDyckInstruction::*;
broadcast use vstd::std_specs::btree::group_btree_axioms;

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/treestack.rs
//@@ include lib/md.rs
// what has been yielded after the first n of the ways up v
spec fn so_far<T: Ord>(t: TreeStack<MDTreeElem<T>>, a: T, c: Set<T>, at: Seq<usize>, r: Seq<TreeStack<MDTreeElem<T>>>, v: Seq<TreeStack<MDTreeElem<T>>>, n: int) -> bool {
    &&& at.len() == r.len() && at.len() > 0 && at.no_duplicates()
    &&& freshly(t, at[0], a, c, r[0])
    &&& forall|j: int| 1 <= j < at.len() ==> again(t, #[trigger] at[j], a, r[j]) && exists|k: int| 0 <= k < n && came(#[trigger] v[k]) == at[j]
    &&& forall|k: int| 0 <= k < n && awaits((#[trigger] v[k]).value, a) ==> at.contains(came(v[k]))
}
proof fn met<A>(t: TreeStack<A>, u: TreeStack<A>)
    requires entered(t, u)
    ensures child_of(t, came(u)) == Some(u.value)
{ labelled(u); }
proof fn reopened<T: Ord>(t: TreeStack<MDTreeElem<T>>, u: TreeStack<MDTreeElem<T>>, a: T, r: TreeStack<MDTreeElem<T>>)
    requires entered(t, u), awaits(u.value, a), wf(r), pointer(r) == pointer(u), with(u, pointer(u), r.value, r), opened(r.value, a, expects(u.value).remove(a))
    ensures again(t, came(u), a, r)
{ met(t, u); }
pub broadcast proof fn next_same<A>(t: TreeStack<A>, u: TreeStack<A>, a: A, r: TreeStack<A>)
    requires #[trigger] same_stack(t, u), #[trigger] pushed_next(u, a, r)
    ensures pushed_next(t, a, r)
{
    let n = choose|n: usize| #[trigger] vacant(u, n as int) && pointer(r) == pointer(u).push(n) && with(u, pointer(u).push(n), a, r);
    node_same_stack(t, u);
    assert forall|i: int| #[trigger] kid(t, i) == kid(u, i) by {}
    assert(vacant(t, n as int));
}
proof fn freshly_at<T: Ord>(t: TreeStack<MDTreeElem<T>>, a: T, c: Set<T>, r: TreeStack<MDTreeElem<T>>) -> (n: usize)
    requires pushed_next(t, r.value, r), wf(r), opened(r.value, a, c.remove(a))
    ensures freshly(t, n, a, c, r)
{
    let n = choose|n: usize| #[trigger] vacant(t, n as int) && pointer(r) == pointer(t).push(n) && with(t, pointer(t).push(n), r.value, r);
    at_child(t, n);
    n
}
proof fn ways_up<T: Ord>(t: TreeStack<MDTreeElem<T>>, a: T, c: BTreeSet<T>, at: Seq<usize>, r: Seq<TreeStack<MDTreeElem<T>>>, v: Seq<TreeStack<MDTreeElem<T>>>)
    requires so_far(t, a, c@, at, r, v, v.len() as int), all_up(t, v)
    ensures all_results(MultipleDyckInstruction::Up(a, c), t, r)
{
    assert forall|n: usize| (#[trigger] child_of(t, n)) is Some && awaits(child_of(t, n)->0, a) implies at.contains(n) by {
        let j = choose|j: int| 0 <= j < v.len() && came(#[trigger] v[j]) == n;
        met(t, v[j]);
    }
    assert(child_of(t, at[0]) is None);
    assert(all_ways_up(t, a, c@, r, at));
}
proof fn so_far_more<T: Ord>(t: TreeStack<MDTreeElem<T>>, a: T, c: Set<T>, at: Seq<usize>, r: Seq<TreeStack<MDTreeElem<T>>>, v: Seq<TreeStack<MDTreeElem<T>>>, n: int, u: TreeStack<MDTreeElem<T>>)
    requires so_far(t, a, c, at, r, v, n), 0 <= n < v.len(), all_up(t, v), again(t, came(v[n]), a, u)
    ensures so_far(t, a, c, at.push(came(v[n])), r.push(u), v, n + 1)
{
    let x = at.push(came(v[n]));
    let y = r.push(u);
    assert forall|j: int| 1 <= j < x.len() implies again(t, #[trigger] x[j], a, y[j]) && exists|k: int| 0 <= k < n + 1 && came(#[trigger] v[k]) == x[j] by {
        if j < at.len() {
            let k = choose|k: int| 0 <= k < n && came(#[trigger] v[k]) == at[j];
            assert(came(v[k]) == x[j]);
        } else { assert(came(v[n]) == x[j]); }
    }
    if at.contains(came(v[n])) {
        let j = choose|j: int| 0 <= j < at.len() && at[j] == came(v[n]);
        if j == 0 { assert(child_of(t, at[0]) is None); } else {
            let k = choose|k: int| 0 <= k < n && came(#[trigger] v[k]) == at[j];
        }
    }
    assert(x.no_duplicates());
    assert forall|k: int| 0 <= k < n + 1 && awaits((#[trigger] v[k]).value, a) implies x.contains(came(v[k])) by {
        if k < n { let j = choose|j: int| 0 <= j < at.len() && at[j] == came(v[k]); assert(x[j] == came(v[k])); } else { assert(x[at.len() as int] == came(v[n])); }
    }
}
//@@ fn src/dyck/multiple/automaton/instruction.rs <Instruction~for~MultipleDyckInstruction>::apply
//@ implhead impl<T: Ord + Clone> MultipleDyckInstruction<T>
//@ params ts
//@ ret r
//@ closure 0 () -> (r: MDTreeElem<T>)
    ensures opened(r, *symbol, cell@.remove(*symbol))
//@ requires wf(ts), room(ts, *self), lawful::<T>(), faithful::<T>(), faithful::<BTreeSet<T>>(), vstd::laws_cmp::obeys_cmp::<T>()
//@ ensures all_results(*self, ts, r@)
//@ loop 0 for it
    invariant
        wf(ts), lawful::<T>(), faithful::<T>(), faithful::<BTreeSet<T>>(), vstd::laws_cmp::obeys_cmp::<T>(), faithful::<MDTreeElem<T>>(),
        all_up(ts, it.seq()), so_far(ts, *symbol, cell@, at, succ@, it.seq(), it.index@),
//@ before 0
    let ghost mut at: Seq<usize> = Seq::empty();
    proof { let n = freshly_at(ts, *symbol, cell@, succ@[0]); at = seq![n]; }
//@ loopstart 0
    let ghost before = succ@;
    proof { met(ts, ts_); }
//@ loopend 0
    proof {
        if succ@.len() > before.len() {
            assert(succ@ =~= before.push(succ@.last()));
            reopened(ts, ts_, *symbol, succ@.last());
            so_far_more(ts, *symbol, cell@, at, before, it.seq(), it.index@, succ@.last());
            at = at.push(came(ts_));
        }
    }
//@ after 0
    proof {
        let v = choose|v: Seq<TreeStack<MDTreeElem<T>>>| #[trigger] so_far(ts, *symbol, cell@, at, succ@, v, v.len() as int) && all_up(ts, v);
        ways_up(ts, *symbol, *cell, at, succ@, v);
    }
//@ start
    broadcast use {node_same_stack, labelled, push_drop, next_same};
    assert(faithful::<MDTreeElem<T>>());
//@@ end
} // verus!
