// C27, third part: the tree of rules in the storage of a tree stack automaton.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/btree.rs
//@@ include lib/gather.rs
//@@ include lib/gorn.rs
//@@ type src/automata/tree_stack_automaton/from_pmcfg.rs PosState
//@@ end
#[verifier::external_body]
fn vt_split_first<T>(v: &Vec<T>) -> (r: Option<(&T, &[T])>)
    ensures match r { Some(p) => v@.len() > 0 && *p.0 == v@[0] && p.1@ == v@.skip(1), None => v@.len() == 0 }
{ v.split_first() }
spec fn below_root(q: Seq<usize>) -> Seq<usize> { seq![0usize] + q }
spec fn under(p: Seq<usize>) -> bool { p.len() > 0 && p[0] == 0 }
// all that hangs below the root's first child is a position
spec fn positions_below<A>(m: Map<Seq<usize>, PosState<A>>) -> bool { forall|p: Seq<usize>| #[trigger] m.contains_key(p) && under(p) ==> m[p] is Position }
// t holds what the first n entries hold below the root
spec fn gathered<A>(v: Seq<(Seq<usize>, PosState<A>)>, n: int, t: Map<Seq<usize>, A>) -> bool {
    &&& forall|i: int| 0 <= i < n && under((#[trigger] v[i]).0) ==> t.contains_key(v[i].0.skip(1)) && v[i].1 is Position && t[v[i].0.skip(1)] == v[i].1->Position_0
    &&& forall|q: Seq<usize>| #[trigger] t.contains_key(q) ==> exists|i: int| 0 <= i < n && (#[trigger] v[i]).0 == below_root(q)
}
spec fn rules_of<A>(m: Map<Seq<usize>, PosState<A>>, t: Map<Seq<usize>, A>) -> bool { forall|q: Seq<usize>| (#[trigger] t.contains_key(q)) == m.contains_key(below_root(q)) && (t.contains_key(q) ==> m[below_root(q)] is Position && t[q] == m[below_root(q)]->Position_0) }
proof fn under_below(p: Seq<usize>) requires under(p) ensures below_root(p.skip(1)) == p { assert(below_root(p.skip(1)) =~= p); }
proof fn below_under(q: Seq<usize>) ensures under(below_root(q)), below_root(q).skip(1) == q { assert(below_root(q).skip(1) =~= q); }
proof fn apart(v: Seq<Seq<usize>>, i: int, j: int)
    requires in_order(v), 0 <= i < j < v.len()
    ensures v[i] != v[j]
{ assert(before(v[i], v[j])); never_twice(v[i], v[j]); }
proof fn never_twice(p: Seq<usize>, q: Seq<usize>)
    ensures !(before(p, q) && before(q, p)), !before(p, p)
    decreases p.len()
{ if p.len() > 0 { never_twice(p.skip(1), q.skip(1)); never_twice(p.skip(1), p.skip(1)); } }
proof fn one_more<A>(v: Seq<(Seq<usize>, PosState<A>)>, n: int, t: Map<Seq<usize>, A>, u: Map<Seq<usize>, A>)
    requires
        0 <= n < v.len(), in_order(v.map_values(|e: (Seq<usize>, PosState<A>)| e.0)), gathered(v, n, t),
        under(v[n].0) ==> v[n].1 is Position && u == t.insert(v[n].0.skip(1), v[n].1->Position_0), !under(v[n].0) ==> u == t,
    ensures gathered(v, n + 1, u)
{
    let a = v.map_values(|e: (Seq<usize>, PosState<A>)| e.0);
    assert forall|i: int| 0 <= i < n + 1 && under((#[trigger] v[i]).0) implies u.contains_key(v[i].0.skip(1)) && v[i].1 is Position && u[v[i].0.skip(1)] == v[i].1->Position_0 by {
        if i < n && under(v[n].0) { apart(a, i, n); assert(a[i] == v[i].0 && a[n] == v[n].0); under_below(v[i].0); under_below(v[n].0); }
    }
    assert forall|q: Seq<usize>| #[trigger] u.contains_key(q) implies exists|i: int| 0 <= i < n + 1 && (#[trigger] v[i]).0 == below_root(q) by {
        if t.contains_key(q) { let i = choose|i: int| 0 <= i < n && (#[trigger] v[i]).0 == below_root(q); assert(v[i].0 == below_root(q)); }
        else { under_below(v[n].0); assert(v[n].0 == below_root(q)); }
    }
}
proof fn all_gathered<A>(v: Seq<(Seq<usize>, PosState<A>)>, m: Map<Seq<usize>, PosState<A>>, t: Map<Seq<usize>, A>)
    requires lists(v, m), gathered(v, v.len() as int, t)
    ensures rules_of(m, t)
{
    assert forall|q: Seq<usize>| (#[trigger] t.contains_key(q)) == m.contains_key(below_root(q)) && (t.contains_key(q) ==> m[below_root(q)] is Position && t[q] == m[below_root(q)]->Position_0) by {
        below_under(q);
        if t.contains_key(q) || m.contains_key(below_root(q)) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == below_root(q); assert(v[i].0 == below_root(q)); }
    }
}
proof fn fed<A>(v: Seq<(Seq<usize>, PosState<A>)>, n: int, m: Map<Seq<usize>, PosState<A>>, e: (Seq<usize>, PosState<A>))
    ensures lists(v, m) && 0 <= n < v.len() && v[n] == e ==> m.contains_key(e.0) && m[e.0] == e.1
{}
proof fn one_more_all<A>(v: Seq<(Seq<usize>, PosState<A>)>, n: int, m: Map<Seq<usize>, PosState<A>>, e: (Seq<usize>, PosState<A>), t: Map<Seq<usize>, A>, u: Map<Seq<usize>, A>)
    ensures
        lists(v, m) && 0 <= n < v.len() && v[n] == e && gathered(v, n, t) && (under(e.0) ==> e.1 is Position && u == t.insert(e.0.skip(1), e.1->Position_0)) && (!under(e.0) ==> u == t)
            ==> gathered(v, n + 1, u) && (n + 1 == v.len() ==> rules_of(m, u))
{
    if lists(v, m) && 0 <= n < v.len() && v[n] == e && gathered(v, n, t) && (under(e.0) ==> e.1 is Position && u == t.insert(e.0.skip(1), e.1->Position_0)) && (!under(e.0) ==> u == t) {
        one_more(v, n, t, u);
        if n + 1 == v.len() { all_gathered(v, m, u); }
    }
}
// the tree of rules: what hangs below the root's first child, seen from there
//@@ fn src/automata/tree_stack_automaton/from_pmcfg.rs to_abstract_syntax_tree
//@ ret r
//@ foriter 0 GornTree::into_entries
//@ mapmethod split_first vt_split_first &
//@ requires positions_below(at(arg_0.0))
//@ ensures rules_of(at(arg_0.0), at(r))
//@ start
    let ghost m = at(arg_0.0);
//@ loop 0 for it
    invariant
        positions_below(m), lists(shown(it.seq()), m), gathered(shown(it.seq()), it.index@, at(abstract_syntax_tree)),
        it.index@ == it.seq().len() ==> rules_of(m, at(abstract_syntax_tree)),
//@ before 0
    proof {
        assert forall|v: Seq<(Seq<usize>, PosState<A>)>| #[trigger] lists(v, m) implies gathered(v, 0, at(abstract_syntax_tree)) && (v.len() == 0 ==> rules_of(m, at(abstract_syntax_tree))) by {
            if v.len() == 0 { all_gathered(v, m, at(abstract_syntax_tree)); }
        }
    }
//@ loopstart 0
    let ghost (t0, n, e) = (at(abstract_syntax_tree), it.index@, (address@, pos_state));
    proof { fed(shown(it.seq()), n, m, e); }
//@ loopend 0
    proof { one_more_all(shown(it.seq()), n, m, e, t0, at(abstract_syntax_tree)); }
//@@ end
} // verus!
