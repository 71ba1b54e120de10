// C18, second part: multiple Dyck automata and languages, over the verified recognition (C24).
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque, btree_map::Keys};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {
use MultipleDyckInstruction::*;
broadcast use vstd::std_specs::btree::group_btree_axioms;

//@@ include lib/recognition.rs
fn vt_cloned<T: Clone>(v: Vec<&T>) -> (r: Vec<T>)
    ensures faithful::<T>() ==> r@ == vals(v@)
{
    let mut r: Vec<T> = Vec::new();
    proof { assert(r@ =~= vals(v@.take(0))); }
    for x in it: v
        invariant it.seq() == v@, faithful::<T>() ==> r@ == vals(v@.take(it.index@))
    {
        proof { broadcast use seq_facts; assert(v@.take(it.index@ + 1) =~= v@.take(it.index@).push(x)); }
        r.push(x.clone());
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    r
}
//@@ include lib/partition.rs
//@@ include lib/treestack.rs
//@@ include lib/treestack_all.rs
//@@ include lib/md.rs
//@@ type src/dyck/mod.rs Bracket
//@ derives PartialEq Eq Clone
//@ public
//@@ end
// equality, order and hashing are derived
impl<A: Clone + PartialEq> Clone for Bracket<A> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<A>() ==> r == *self
    { match self { Bracket::Open(a) => Bracket::Open(a.clone()), Bracket::Close(a) => Bracket::Close(a.clone()) } }
}
#[verifier::external] impl<A: PartialEq> PartialEq for Bracket<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A: Eq> Eq for Bracket<A> {  }
#[verifier::external] impl<A: PartialOrd> PartialOrd for Bracket<A> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<A: Ord> Ord for Bracket<A> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl<T: Clone + Ord> Clone for MultipleDyckInstruction<T> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<T>() && faithful::<BTreeSet<T>>() ==> r == *self
    { match self { Up(a, c) => Up(a.clone(), c.clone()), UpAt(n, a, c) => UpAt(*n, a.clone(), c.clone()), Down(a) => Down(a.clone()) } }
}
#[verifier::external] impl<T: Ord> PartialEq for MultipleDyckInstruction<T> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<T: Ord> Eq for MultipleDyckInstruction<T> {}
#[verifier::external] impl<T: Ord> PartialOrd for MultipleDyckInstruction<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<T: Ord> Ord for MultipleDyckInstruction<T> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<A: PartialEq> PartialEq for TreeStack<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A: Eq> Eq for TreeStack<A> {  }
#[verifier::external] impl<A: PartialOrd> PartialOrd for TreeStack<A> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<A: Ord> Ord for TreeStack<A> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<T: PartialEq> PartialEq for MDTreeElem<T> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<T: Eq> Eq for MDTreeElem<T> {  }
#[verifier::external] impl<T: PartialOrd> PartialOrd for MDTreeElem<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<T: Ord> Ord for MDTreeElem<T> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl<S: Clone, T: Clone, W: Clone> Clone for Configuration<S, T, W> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<S>() && faithful::<T>() && faithful::<W>() ==> r == *self
    { proof { vec_faithful::<T>(); } Configuration { word: self.word.clone(), storage: self.storage.clone(), weight: self.weight.clone() } }
}
impl<S: Clone, I: Clone + Instruction<Storage = S>, T: Clone, W: Clone> Clone for Item<S, I, T, W> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<S>() && faithful::<I>() && faithful::<T>() && faithful::<W>() ==> r == *self
    { Item(self.0.clone(), self.1.clone()) }
}
impl One for u8 {
    open spec fn unit() -> u8 { 1 }
    fn one() -> (r: u8) { 1 }
}
impl<T: Clone + Ord> Instruction for MultipleDyckInstruction<T> {
    type Storage = TreeStack<MDTreeElem<T>>;
    open spec fn works() -> bool { true }
    uninterp spec fn outcomes(&self, s: TreeStack<MDTreeElem<T>>) -> Seq<TreeStack<MDTreeElem<T>>>;
    #[verifier::external_body]
    fn apply(&self, s: TreeStack<MDTreeElem<T>>) -> (r: Vec<TreeStack<MDTreeElem<T>>>) { unimplemented!() }
}
//@@ type src/dyck/multiple/automaton/mod.rs MultipleDyckAutomaton
//@ attr
#[verifier::reject_recursive_types(T)]
//@@ end
//@@ type src/dyck/multiple/mod.rs MultipleDyckLanguage
//@ attr
#[verifier::reject_recursive_types(T)]
//@@ end
type MdItem<T> = Item<TreeStack<MDTreeElem<T>>, MultipleDyckInstruction<T>, Bracket<T>, u8>;
type Trans<T> = Transition<MultipleDyckInstruction<T>, Bracket<T>, u8>;

// iterating: over lists, and over sets in increasing order (assumed)
trait VtEach { type Item; spec fn each(&self, v: Seq<Self::Item>) -> bool; fn vt_each(self) -> (v: Vec<Self::Item>) ensures self.each(v@); }
impl<X> VtEach for Vec<X> {
    type Item = X;
    spec fn each(&self, v: Seq<X>) -> bool { v == self@ }
    fn vt_each(self) -> (v: Vec<X>) { self }
}
impl<'a, K: Ord> VtEach for &'a BTreeSet<K> {
    type Item = &'a K;
    spec fn each(&self, v: Seq<&'a K>) -> bool { self.listed_as(v) }
    fn vt_each(self) -> (v: Vec<&'a K>) { self.vt_items() }
}
// transitions that open and close a bracket; at(a, n): the sort puts a at n (at(a, None): there is no sort)
spec fn opens<T: Ord>(t: Trans<T>, a: T, c: BTreeSet<T>, at: spec_fn(T, Option<usize>) -> bool) -> bool {
    t.word@ =~= seq![Bracket::Open(a)] && t.weight == 0
        && match t.instruction { Up(b, d) => at(a, None) && b == a && d == c, UpAt(n, b, d) => at(a, Some(n)) && b == a && d == c, Down(_) => false }
}
spec fn closes<T: Ord>(t: Trans<T>, a: T) -> bool { t.word@ =~= seq![Bracket::Close(a)] && t.weight == 0 && t.instruction == Down(a) }
#[verifier::opaque]
spec fn opens_among<T: Ord>(m: Multiset<Trans<T>>, a: T, c: BTreeSet<T>, at: spec_fn(T, Option<usize>) -> bool) -> bool { exists|t: Trans<T>| #[trigger] m.contains(t) && opens(t, a, c, at) }
#[verifier::opaque]
spec fn closes_among<T: Ord>(m: Multiset<Trans<T>>, a: T) -> bool { exists|t: Trans<T>| #[trigger] m.contains(t) && closes(t, a) }
// the transitions m are those for the symbols of the partition p
spec fn brackets<T: Ord>(m: Multiset<Trans<T>>, p: Map<T, Rc<BTreeSet<T>>>, at: spec_fn(T, Option<usize>) -> bool) -> bool {
    &&& forall|t: Trans<T>| #[trigger] m.contains(t) ==> exists|a: T| #[trigger] p.contains_key(a) && (opens(t, a, *p[a], at) || closes(t, a))
    &&& forall|a: T| #[trigger] p.contains_key(a) ==> opens_among(m, a, *p[a], at) && closes_among(m, a)
}
// a was met: it is in one of the first k cells, or in w, a part of cell k
spec fn met_in<T: Ord>(cs: Seq<&BTreeSet<T>>, k: int, w: Seq<T>, i: int, a: T) -> bool { 0 <= i < cs.len() && (i < k && cs[i]@.contains(a) || i == k && w.contains(a)) }
spec fn so_made<T: Ord>(m: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, k: int, w: Seq<T>, at: spec_fn(T, Option<usize>) -> bool) -> bool {
    &&& forall|t: Trans<T>| #[trigger] m.contains(t) ==> exists|i: int, a: T| #[trigger] met_in(cs, k, w, i, a) && (opens(t, a, *cs[i], at) || closes(t, a))
    &&& forall|i: int, a: T| #[trigger] met_in(cs, k, w, i, a) ==> opens_among(m, a, *cs[i], at) && closes_among(m, a)
}
proof fn among_more<T: Ord>(m: Multiset<Trans<T>>, n: Multiset<Trans<T>>, a: T, c: BTreeSet<T>, at: spec_fn(T, Option<usize>) -> bool)
    requires forall|t: Trans<T>| #[trigger] m.contains(t) ==> n.contains(t)
    ensures opens_among(m, a, c, at) ==> opens_among(n, a, c, at), closes_among(m, a) ==> closes_among(n, a)
{
    reveal(opens_among);
    reveal(closes_among);
}
proof fn made_more<T: Ord>(m: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, k: int, w: Seq<T>, at: spec_fn(T, Option<usize>) -> bool, a: T, t: Trans<T>, u: Trans<T>)
    requires so_made(m, cs, k, w, at), 0 <= k < cs.len(), opens(t, a, *cs[k], at), closes(u, a)
    ensures so_made(m.insert(t).insert(u), cs, k, w.push(a), at)
{
    broadcast use group_multiset_axioms;
    let n = m.insert(t).insert(u);
    let x = w.push(a);
    assert(x[w.len() as int] == a);
    assert forall|b: T| x.contains(b) <==> w.contains(b) || b == a by { if w.contains(b) { let i = choose|i: int| 0 <= i < w.len() && w[i] == b; assert(x[i] == b); } }
    assert forall|s: Trans<T>| #[trigger] n.contains(s) implies exists|i: int, a: T| #[trigger] met_in(cs, k, x, i, a) && (opens(s, a, *cs[i], at) || closes(s, a)) by {
        if m.contains(s) {
            let (i, b) = choose|i: int, b: T| #[trigger] met_in(cs, k, w, i, b) && (opens(s, b, *cs[i], at) || closes(s, b));
            assert(met_in(cs, k, x, i, b));
        } else { assert(met_in(cs, k, x, k, a)); }
    }
    assert(n.contains(t) && n.contains(u));
    assert forall|i: int, b: T| #[trigger] met_in(cs, k, x, i, b) implies opens_among(n, b, *cs[i], at) && closes_among(n, b) by {
        if met_in(cs, k, w, i, b) {
            among_more(m, n, b, *cs[i], at);
        } else {
            reveal(opens_among);
            reveal(closes_among);
            assert(i == k && b == a);
        }
    }
}
proof fn made_next<T: Ord>(m: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, k: int, w: Seq<T>, at: spec_fn(T, Option<usize>) -> bool)
    requires so_made(m, cs, k, w, at), 0 <= k < cs.len(), listing(w, cs[k]@)
    ensures so_made(m, cs, k + 1, Seq::empty(), at)
{
    assert forall|i: int, a: T| #[trigger] met_in(cs, k, w, i, a) == met_in(cs, k + 1, Seq::empty(), i, a) by {}
    assert forall|i: int, a: T| #[trigger] met_in(cs, k + 1, Seq::empty(), i, a) == met_in(cs, k, w, i, a) by {}
}
proof fn made_all<T: Ord>(m: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, p: Partition<T>, at: spec_fn(T, Option<usize>) -> bool)
    requires so_made(m, cs, cs.len() as int, Seq::empty(), at), collapsed(cs, p.0@), p.is_partition()
    ensures brackets(m, p.0@, at)
{
    assert forall|t: Trans<T>| #[trigger] m.contains(t) implies exists|a: T| #[trigger] p.0@.contains_key(a) && (opens(t, a, *p.0@[a], at) || closes(t, a)) by {
        let (i, a) = choose|i: int, a: T| #[trigger] met_in(cs, cs.len() as int, Seq::empty(), i, a) && (opens(t, a, *cs[i], at) || closes(t, a));
        assert(is_cell(*cs[i], p.0@));
        let b = choose|b: T| #[trigger] p.0@.contains_key(b) && *p.0@[b] == *cs[i];
        assert(p.0@[b]@.contains(a));
        assert(p.0@.contains_key(a) && *p.0@[a] == *p.0@[b]);
    }
    assert forall|a: T| #[trigger] p.0@.contains_key(a) implies opens_among(m, a, *p.0@[a], at) && closes_among(m, a) by {
        assert(among(*p.0@[a], cs));
        let i = choose|i: int| 0 <= i < cs.len() && *#[trigger] cs[i] == *p.0@[a];
        assert(met_in(cs, cs.len() as int, Seq::empty(), i, a));
    }
}
impl<T: Clone + Ord> MultipleDyckAutomaton<T> {
    spec fn rules(&self) -> Multiset<Trans<T>> { if (*self.transitions)@.contains_key(()) { heap_els((*self.transitions)@[()]) } else { Multiset::empty() } }
}
// no sort, and what a sort answers
spec fn unsorted<T>() -> spec_fn(T, Option<usize>) -> bool { |a: T, n: Option<usize>| n is None }
spec fn sorted_by<T, F: Fn(&T) -> usize>(f: F) -> spec_fn(T, Option<usize>) -> bool { |a: T, n: Option<usize>| n matches Some(k) && call_ensures(f, (&a,), k) }
proof fn made_none<T: Ord>(m: Multiset<Trans<T>>, p: Partition<T>, at: spec_fn(T, Option<usize>) -> bool)
    requires m.len() == 0, p.is_partition()
    ensures
        forall|cs: Seq<&BTreeSet<T>>| #[trigger] so_made(m, cs, 0, Seq::empty(), at),
        forall|cs: Seq<&BTreeSet<T>>| cs.len() == 0 && #[trigger] collapsed(cs, p.0@) ==> brackets(m, p.0@, at),
{
    broadcast use group_multiset_axioms;
    assert(m =~= Multiset::empty());
    assert forall|cs: Seq<&BTreeSet<T>>| cs.len() == 0 && #[trigger] collapsed(cs, p.0@) implies brackets(m, p.0@, at) by { assert(so_made(m, cs, 0, Seq::empty(), at)); made_all(m, cs, p, at); }
}
proof fn made_last<T: Ord>(m: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, p: Partition<T>, at: spec_fn(T, Option<usize>) -> bool, k: int)
    requires so_made(m, cs, k, Seq::empty(), at), collapsed(cs, p.0@), p.is_partition()
    ensures k == cs.len() ==> brackets(m, p.0@, at)
{ if k == cs.len() { made_all(m, cs, p, at); } }
proof fn cell_begun<T: Ord>(m: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, k: int, at: spec_fn(T, Option<usize>) -> bool)
    requires so_made(m, cs, k, Seq::empty(), at), 0 <= k < cs.len()
    ensures
        forall|w: Seq<T>| w.len() == 0 && #[trigger] listing(w, cs[k]@) ==> so_made(m, cs, k + 1, Seq::empty(), at),
        forall|w: Seq<T>| so_made(m, cs, k, #[trigger] w.take(0), at),
{
    assert forall|w: Seq<T>| so_made(m, cs, k, #[trigger] w.take(0), at) by { assert(w.take(0) =~= Seq::empty()); }
    assert forall|w: Seq<T>| w.len() == 0 && #[trigger] listing(w, cs[k]@) implies so_made(m, cs, k + 1, Seq::empty(), at) by { assert(w =~= Seq::empty()); made_next(m, cs, k, w, at); }
}
proof fn symbol_met<T: Ord>(m: Multiset<Trans<T>>, n: Multiset<Trans<T>>, cs: Seq<&BTreeSet<T>>, k: int, w: Seq<T>, j: int, at: spec_fn(T, Option<usize>) -> bool)
    requires
        so_made(m, cs, k, w.take(j), at), 0 <= k < cs.len(), 0 <= j < w.len(), listing(w, cs[k]@),
        exists|t: Trans<T>, u: Trans<T>| #[trigger] m.insert(t).insert(u) == n && opens(t, w[j], *cs[k], at) && closes(u, w[j]),
    ensures so_made(n, cs, k, w.take(j + 1), at), j + 1 == w.len() ==> so_made(n, cs, k + 1, Seq::empty(), at)
{
    let (t, u) = choose|t: Trans<T>, u: Trans<T>| #[trigger] m.insert(t).insert(u) == n && opens(t, w[j], *cs[k], at) && closes(u, w[j]);
    made_more(m, cs, k, w.take(j), at, w[j], t, u);
    assert(w.take(j + 1) =~= w.take(j).push(w[j]));
    if j + 1 == w.len() { assert(w.take(j + 1) =~= w); made_next(n, cs, k, w, at); }
}
spec fn lawful_symbols<T: Clone + Ord>() -> bool {
    &&& lawful_keys::<T>() && faithful::<T>() && faithful::<BTreeSet<T>>() && lawful_ord::<Trans<T>>()
    &&& obeys_key_model::<()>() && builds_valid_hashers::<std::hash::RandomState>()
}
//@@ fn src/dyck/multiple/automaton/mod.rs MultipleDyckAutomaton::new
//@ params partition
//@ ret r
//@ local heap 0
//@ forpat 0 cell
//@ forpat 1 symbol
//@ foriter 0 VtEach::vt_each
//@ foriter 1 VtEach::vt_each
//@ requires lawful_symbols::<T>(), partition.is_partition()
//@ ensures brackets(r.rules(), partition.0@, unsorted::<T>())
//@ before 0
    proof { made_none(heap_els(heap), partition, unsorted::<T>()); }
//@ loop 0 for it
    invariant
        lawful_symbols::<T>(), partition.is_partition(), collapsed(it.seq(), partition.0@),
        so_made(heap_els(heap), it.seq(), it.index@, Seq::empty(), unsorted::<T>()),
        it.index@ == it.seq().len() ==> brackets(heap_els(heap), partition.0@, unsorted::<T>()),
//@ loopstart 0
    let ghost cs = it.seq();
    let ghost k = it.index@;
    proof { cell_begun(heap_els(heap), cs, k, unsorted::<T>()); }
//@ loop 1 for it2
    invariant
        lawful_symbols::<T>(), 0 <= k < cs.len(), cell == cs[k], listing(vals(it2.seq()), cell@),
        so_made(heap_els(heap), cs, k, vals(it2.seq()).take(it2.index@), unsorted::<T>()),
        it2.index@ == it2.seq().len() ==> so_made(heap_els(heap), cs, k + 1, Seq::empty(), unsorted::<T>()),
//@ loopstart 1
    let ghost before = heap_els(heap);
    let ghost w = vals(it2.seq());
    let ghost j = it2.index@;
    proof { assert(w[j] == *symbol); }
//@ loopend 1
    proof { symbol_met(before, heap_els(heap), cs, k, w, j, unsorted::<T>()); }
//@ loopend 0
    proof { made_last(heap_els(heap), cs, partition, unsorted::<T>(), k + 1); }
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@@ end
//@@ fn src/dyck/multiple/automaton/mod.rs MultipleDyckAutomaton::sorted
//@ params partition sort
//@ ret r
//@ local heap 0
//@ forpat 0 cell
//@ forpat 1 symbol
//@ foriter 0 VtEach::vt_each
//@ foriter 1 VtEach::vt_each
//@ requires lawful_symbols::<T>(), partition.is_partition(), forall|a: T| call_requires(sort, (&a,))
//@ ensures brackets(r.rules(), partition.0@, sorted_by::<T, F>(sort))
//@ before 0
    proof { made_none(heap_els(heap), partition, sorted_by::<T, F>(sort)); }
//@ loop 0 for it
    invariant
        lawful_symbols::<T>(), forall|a: T| call_requires(sort, (&a,)), partition.is_partition(), collapsed(it.seq(), partition.0@),
        so_made(heap_els(heap), it.seq(), it.index@, Seq::empty(), sorted_by::<T, F>(sort)),
        it.index@ == it.seq().len() ==> brackets(heap_els(heap), partition.0@, sorted_by::<T, F>(sort)),
//@ loopstart 0
    let ghost cs = it.seq();
    let ghost k = it.index@;
    proof { cell_begun(heap_els(heap), cs, k, sorted_by::<T, F>(sort)); }
//@ loop 1 for it2
    invariant
        lawful_symbols::<T>(), forall|a: T| call_requires(sort, (&a,)), 0 <= k < cs.len(), cell == cs[k], listing(vals(it2.seq()), cell@),
        so_made(heap_els(heap), cs, k, vals(it2.seq()).take(it2.index@), sorted_by::<T, F>(sort)),
        it2.index@ == it2.seq().len() ==> so_made(heap_els(heap), cs, k + 1, Seq::empty(), sorted_by::<T, F>(sort)),
//@ loopstart 1
    let ghost before = heap_els(heap);
    let ghost w = vals(it2.seq());
    let ghost j = it2.index@;
    proof { assert(w[j] == *symbol); }
//@ loopend 1
    proof { symbol_met(before, heap_els(heap), cs, k, w, j, sorted_by::<T, F>(sort)); }
//@ loopend 0
    proof { made_last(heap_els(heap), cs, partition, sorted_by::<T, F>(sort), k + 1); }
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@@ end

// a node is done with when it is the root, or closed and nothing is expected
spec fn done_with<T>(e: MDTreeElem<T>) -> bool { e is Root || (e matches MDTreeElem::Node(None, d) && d@ == Set::<T>::empty()) }
// the whole tree is done with, and the pointer is back at the root
spec fn all_done<T>(t: TreeStack<MDTreeElem<T>>) -> bool { pointer(t).len() == 0 && forall|p: Seq<usize>| (#[trigger] above(t, p)) is Some ==> done_with(above(t, p)->0) }
// assumed: lists are their contents, and there is an empty one
#[verifier::external_body]
proof fn vec_is_contents<T>()
    ensures
        forall|a: Vec<T>, b: Vec<T>| #[trigger] a@ == #[trigger] b@ ==> a == b,
        exists|a: Vec<T>| #[trigger] a@ == Seq::<T>::empty(),
{}
spec fn bare<T>(t: TreeStack<MDTreeElem<T>>) -> bool { t.parent is None && t.value is Root && t.children@ == Seq::<Option<Rc<TreeStack<MDTreeElem<T>>>>>::empty() }
spec fn root_only<T>() -> TreeStack<MDTreeElem<T>> { choose|t: TreeStack<MDTreeElem<T>>| #[trigger] bare(t) }
proof fn only_root<T>(t: TreeStack<MDTreeElem<T>>)
    requires pointer(t) == Seq::<usize>::empty(), t.value is Root, t.children@.len() == 0
    ensures t == root_only::<T>()
{
    vec_is_contents::<Option<Rc<TreeStack<MDTreeElem<T>>>>>();
    assert(t.children@ =~= Seq::<Option<Rc<TreeStack<MDTreeElem<T>>>>>::empty());
    assert(t.parent is None) by { if t.parent is Some { assert(pointer(t).len() > 0); } }
    assert(bare(t));
    let u = root_only::<T>();
    assert(bare(u));
    assert(t.children@ == u.children@);
}
proof fn the_root<T>()
    ensures bare(root_only::<T>())
{
    vec_is_contents::<Option<Rc<TreeStack<MDTreeElem<T>>>>>();
    let v = choose|v: Vec<Option<Rc<TreeStack<MDTreeElem<T>>>>>| #[trigger] v@ == Seq::<Option<Rc<TreeStack<MDTreeElem<T>>>>>::empty();
    assert(bare(TreeStack { parent: None, value: MDTreeElem::Root, children: v }));
}
//@@ fn src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::initial
//@ implhead impl<T: Clone + Ord> MultipleDyckAutomaton<T>
//@ newret TreeStack<MDTreeElem<T>>
//@ ret r
//@ ensures r == root_only::<T>()
//@ tail
    proof { only_root(result__); }
//@@ end
fn vt_none<T>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() == 0) { v.len() == 0 }
//@@ impl src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton> from_transitions transitions initial item_map terminal_to_int extract_key is_terminal transition_map initial_int
impl<T: Clone + Ord> Automaton<Bracket<T>, u8> for MultipleDyckAutomaton<T> {
    type I = MultipleDyckInstruction<T>;
    type Key = ();
    type IInt = MultipleDyckInstruction<T>;
    type TInt = Bracket<T>;
    closed spec fn usable(&self) -> bool { lawful_symbols::<T>() }
    closed spec fn at(&self, k: ()) -> Multiset<Trans<T>> { self.rules() }
    closed spec fn start(&self) -> TreeStack<MDTreeElem<T>> { root_only::<T>() }
    closed spec fn letter(&self, t: Bracket<T>) -> Option<Bracket<T>> { Some(t) }
    closed spec fn key(c: Conf<TreeStack<MDTreeElem<T>>, Bracket<T>, u8>) { () }
    closed spec fn accepting(&self, c: Conf<TreeStack<MDTreeElem<T>>, Bracket<T>, u8>) -> bool { c.word.len() == 0 && all_done(c.storage) }
    closed spec fn showable(&self, n: NodeOf<Self, Bracket<T>, u8>) -> bool { true }
    closed spec fn shown(&self, n: MdItem<T>, r: MdItem<T>) -> bool { faithful::<TreeStack<MDTreeElem<T>>>() ==> nv(n) == nv(r) }
//@@ method src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::terminal_to_int
//@ ret r
//@@ end
//@@ method src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::item_map
//@ ret r
//@@ end
//@@ method src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::extract_key
//@ params c
//@ ret r
//@@ end
//@@ method src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::is_terminal
//@ params c
//@ ret r
//@ closure 0 (node: &MDTreeElem<T>) -> (b: bool)
    ensures b == done_with(*node)
//@@ end
//@@ method src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::transition_map
//@ ret r
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@@ end
//@@ method src/dyck/multiple/automaton/mod.rs <Automaton<Bracket<T>,u8>~for~MultipleDyckAutomaton>::initial_int
//@ ret r
//@@ end
}
//@@ fn src/dyck/multiple/mod.rs MultipleDyckLanguage::new
//@ params p
//@ ret r
//@ requires lawful_symbols::<T>(), p.is_partition()
//@ ensures brackets(r.0.rules(), p.0@, unsorted::<T>())
//@@ end
//@@ fn src/dyck/multiple/mod.rs MultipleDyckLanguage::sorted
//@ params p sort
//@ ret r
//@ requires lawful_symbols::<T>(), p.is_partition(), forall|a: T| call_requires(sort, (&a,))
//@ ensures brackets(r.0.rules(), p.0@, sorted_by::<T, F>(sort))
//@@ end
// some run of the automaton on the word accepts
spec fn accepted_by<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, w: Seq<Bracket<T>>) -> bool {
    exists|n: nat, y: NodeOf<MultipleDyckAutomaton<T>, Bracket<T>, u8>| #[trigger] runs(a, w, n).contains(y) && a.accepting(y.conf)
}
proof fn one_reported<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, w: Seq<Bracket<T>>, x: MdItem<T>)
    requires reports(a, w, seq![x], false)
    ensures accepted_by(a, w)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let pre = choose|pre: Seq<MdItem<T>>| #[trigger] chosen(a, w, pre, false) && shown_as(a, pre, seq![x]);
    let y = nv(pre[0]);
    assert(nodes(pre)[0] == y);
    assert(nodes(pre).contains(y));
    assert(nodes(pre).to_multiset().count(y) > 0);
    assert(runs(a, w, y.run.len()).contains(y));
}
proof fn none_reported<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, w: Seq<Bracket<T>>)
    requires reports(a, w, Seq::empty(), true)
    ensures !accepted_by(a, w)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let pre = choose|pre: Seq<MdItem<T>>| #[trigger] chosen(a, w, pre, true) && shown_as(a, pre, Seq::empty());
    assert(nodes(pre) =~= Seq::empty());
    assert(nodes(pre).to_multiset() =~= Multiset::empty());
    assert forall|n: nat, y: NodeOf<MultipleDyckAutomaton<T>, Bracket<T>, u8>| #[trigger] runs(a, w, n).contains(y) implies !a.accepting(y.conf) by {
        runs_length(a, w, n, y);
        assert(nodes(pre).to_multiset().count(y) == 0);
    }
}
// what recognising tells about the word, once the first run was asked for
fn vt_recognised<'a, T: Clone + Ord>(a: &'a MultipleDyckAutomaton<T>, word: Vec<Bracket<T>>) -> (r: impl Handing<Item = MdItem<T>> + 'a)
    requires lawful_automaton(*a)
    ensures
        r.ready(),
        forall|x: MdItem<T>| #[trigger] r.hands(seq![x], false) ==> accepted_by(*a, word@),
        r.hands(Seq::empty(), true) ==> !accepted_by(*a, word@),
{
    let r = recognise(a, word);
    proof {
        assert forall|x: MdItem<T>| #[trigger] r.hands(seq![x], false) implies accepted_by(*a, word@) by { one_reported(*a, word@, x); }
        if r.hands(Seq::empty(), true) { none_reported(*a, word@); }
    }
    r
}
fn vt_ask<I: Handing>(i: &mut I) -> (r: Option<I::Item>)
    requires old(i).ready()
    ensures match r { Some(x) => old(i).hands(seq![x], false), None => old(i).hands(Seq::empty(), true) }
{
    let r = i.next();
    proof { i.nothing_yet(); if let Some(x) = &r { assert(seq![*x] + Seq::<I::Item>::empty() =~= seq![*x]); assert(old(i).hands(seq![*x] + Seq::<I::Item>::empty(), false)); } }
    r
}
fn vt_owned<T: Clone>(v: &[T]) -> (r: Vec<T>) ensures faithful::<T>() ==> r@ == v@ { v.to_vec() }
//@@ fn src/dyck/multiple/mod.rs MultipleDyckLanguage::recognize
//@ params word
//@ ret r
//@ mapmethod to_owned vt_owned
//@ requires lawful_automaton(self.0)
//@ ensures r == accepted_by(self.0, word@)
//@ mappath recognise vt_recognised
//@ mapmethod next vt_ask &mut
//@@ end
// ---- what is accepted is well-bracketed ----
// assumed: `apply` is a function of its input; that its results are these is proved in the first part
#[verifier::external_body]
proof fn results_shown<T: Clone + Ord>(i: MultipleDyckInstruction<T>, s: TreeStack<MDTreeElem<T>>)
    requires wf(s), room(s, i), lawful::<T>(), faithful::<T>(), faithful::<BTreeSet<T>>(), vstd::laws_cmp::obeys_cmp::<T>()
    ensures all_results(i, s, i.outcomes(s))
{}
// the brackets that are open after w, outermost first
spec fn nest<T: PartialEq>(w: Seq<Bracket<T>>) -> Option<Seq<T>>
    decreases w.len()
{
    if w.len() == 0 { Some(Seq::empty()) } else {
        match nest(w.drop_last()) {
            None => None,
            Some(s) => match w.last() {
                Bracket::Open(a) => Some(s.push(a)),
                Bracket::Close(a) => if s.len() > 0 && s.last() == a { Some(s.drop_last()) } else { None },
            },
        }
    }
}
spec fn open_at<T>(t: TreeStack<MDTreeElem<T>>, p: Seq<usize>, a: T) -> bool { node(t, p) matches Some(MDTreeElem::Node(Some(b), _)) && b == a }
// the nodes from below the root to the pointer are open with the symbols s
spec fn open_path<T>(t: TreeStack<MDTreeElem<T>>, s: Seq<T>) -> bool { s.len() == pointer(t).len() && forall|i: int| 0 <= i < s.len() ==> open_at(t, #[trigger] pointer(t).take(i + 1), s[i]) }
// y has read the beginning v of the word
spec fn on_track<T: Ord>(w: Seq<Bracket<T>>, y: Conf<TreeStack<MDTreeElem<T>>, Bracket<T>, u8>, v: Seq<Bracket<T>>) -> bool {
    wf(y.storage) && v + y.word == w && nest(v) is Some && open_path(y.storage, nest(v)->0)
}
type MdNode<T> = Node<TreeStack<MDTreeElem<T>>, MultipleDyckInstruction<T>, Bracket<T>, u8>;
proof fn up_tracks<T: Ord>(t: TreeStack<MDTreeElem<T>>, u: TreeStack<MDTreeElem<T>>, n: usize, a: T, s: Seq<T>)
    requires open_path(t, s), wf(u), pointer(u) == pointer(t).push(n), with(t, pointer(t).push(n), u.value, u), u.value matches MDTreeElem::Node(Some(b), _) && b == a
    ensures open_path(u, s.push(a))
{
    assert forall|i: int| 0 <= i < s.push(a).len() implies open_at(u, #[trigger] pointer(u).take(i + 1), s.push(a)[i]) by {
        if i < s.len() {
            assert(pointer(u).take(i + 1) =~= pointer(t).take(i + 1));
            assert(pointer(t).take(i + 1).len() != pointer(u).len());
            assert(open_at(t, pointer(t).take(i + 1), s[i]));
        } else { assert(pointer(u).take(i + 1) =~= pointer(u)); }
    }
}
proof fn down_tracks<T: Ord>(t: TreeStack<MDTreeElem<T>>, u: TreeStack<MDTreeElem<T>>, s: Seq<T>)
    requires open_path(t, s), closed(t, u)
    ensures open_path(u, s.drop_last())
{
    assert forall|i: int| 0 <= i < s.drop_last().len() implies open_at(u, #[trigger] pointer(u).take(i + 1), s.drop_last()[i]) by {
        assert(pointer(u).take(i + 1) =~= pointer(t).take(i + 1));
        assert(pointer(t).take(i + 1).len() != pointer(t).len());
        assert(open_at(t, pointer(t).take(i + 1), s[i]));
    }
}
proof fn result_tracks<T: Clone + Ord>(i: MultipleDyckInstruction<T>, t: TreeStack<MDTreeElem<T>>, r: Seq<TreeStack<MDTreeElem<T>>>, k: int, s: Seq<T>)
    requires all_results(i, t, r), open_path(t, s), 0 <= k < r.len(), wf(t)
    ensures wf(r[k]), match i {
        Up(a, _) => open_path(r[k], s.push(a)),
        UpAt(_, a, _) => open_path(r[k], s.push(a)),
        Down(a) => s.len() > 0 && s.last() == a && open_path(r[k], s.drop_last()),
    }
{
    match i {
        Up(a, c) => {
            let at = choose|at: Seq<usize>| (#[trigger] at.len()) == r.len() && all_ways_up(t, a, c@, r, at);
            assert(freshly(t, at[k], a, c@, r[k]) || again(t, at[k], a, r[k]));
            up_tracks(t, r[k], at[k], a, s);
        }
        UpAt(n, a, c) => { up_tracks(t, r[k], n, a, s); }
        Down(a) => {
            down_tracks(t, r[k], s);
            assert(pointer(t).take(pointer(t).len() as int) =~= pointer(t));
            assert(open_at(t, pointer(t).take(s.len() - 1 + 1), s[s.len() - 1]));
            labelled(t);
        }
    }
}
proof fn step_tracks<T: Clone + Ord>(w: Seq<Bracket<T>>, x: MdNode<T>, t: Trans<T>, y: MdNode<T>, v: Seq<Bracket<T>>, a: T, c: BTreeSet<T>, at: spec_fn(T, Option<usize>) -> bool)
    requires
        on_track(w, x.conf, v), continued(x, t).contains(y), opens(t, a, c, at) || closes(t, a), room(x.conf.storage, t.instruction),
        lawful::<T>(), faithful::<T>(), faithful::<BTreeSet<T>>(), vstd::laws_cmp::obeys_cmp::<T>(),
    ensures exists|u: Seq<Bracket<T>>| #[trigger] on_track(w, y.conf, u)
{
    let i = t.instruction;
    let r = i.outcomes(x.conf.storage);
    results_shown(i, x.conf.storage);
    let k = choose|k: int| 0 <= k < continued(x, t).len() && continued(x, t)[k] == y;
    assert(y.conf == moves(t, x.conf)[k]);
    assert(y.conf.storage == r[k]);
    let b = t.word@[0];
    assert(t.word@.len() == 1);
    assert(x.conf.word.take(1)[0] == b);
    let u = v.push(b);
    assert(u + y.conf.word =~= v + x.conf.word);
    assert(u.drop_last() =~= v);
    result_tracks(i, x.conf.storage, r, k, nest(v)->0);
    assert(on_track(w, y.conf, u));
}
spec fn roomy<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, w: Seq<Bracket<T>>) -> bool {
    forall|n: nat, y: MdNode<T>, t: Trans<T>| #[trigger] runs(a, w, n).contains(y) && #[trigger] a.rules().contains(t) ==> room(y.conf.storage, t.instruction)
}
spec fn cell_of<T: Ord>(p: Map<T, Rc<BTreeSet<T>>>, a: T) -> BTreeSet<T> { *p[a] }
proof fn runs_track<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, p: Map<T, Rc<BTreeSet<T>>>, at: spec_fn(T, Option<usize>) -> bool, w: Seq<Bracket<T>>, n: nat, y: MdNode<T>)
    requires brackets(a.rules(), p, at), runs(a, w, n).contains(y), roomy(a, w), lawful::<T>(), faithful::<T>(), faithful::<BTreeSet<T>>(), vstd::laws_cmp::obeys_cmp::<T>()
    ensures exists|v: Seq<Bracket<T>>| #[trigger] on_track(w, y.conf, v)
    decreases n
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if n == 0 {
        let l = somes(letters(a, w));
        all_somes(letters(a, w), w);
        let v = Seq::<Bracket<T>>::empty();
        assert(v + l =~= w);
        the_root::<T>();
        assert(on_track(w, y.conf, v));
    } else {
        bind_has(runs(a, w, (n - 1) as nat), follow(a), y);
        let x = choose|x: MdNode<T>| #[trigger] runs(a, w, (n - 1) as nat).contains(x) && follow(a)(x).contains(y);
        let f = |t: Trans<T>| continued(x, t).to_multiset();
        bind_has(a.at(()), f, y);
        let t = choose|t: Trans<T>| #[trigger] a.at(()).contains(t) && f(t).contains(y);
        assert(continued(x, t).contains(y));
        runs_track(a, p, at, w, (n - 1) as nat, x);
        let v = choose|v: Seq<Bracket<T>>| #[trigger] on_track(w, x.conf, v);
        assert(a.rules().contains(t));
        let b = choose|b: T| #[trigger] p.contains_key(b) && (opens(t, b, *p[b], at) || closes(t, b));
        step_tracks(w, x, t, y, v, b, cell_of(p, b), at);
    }
}
proof fn all_somes<X>(o: Seq<Option<X>>, w: Seq<X>)
    requires o.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] o[i] == Some(w[i])
    ensures somes(o) == w
    decreases w.len()
{
    if w.len() > 0 { all_somes(o.drop_last(), w.drop_last()); assert(w =~= w.drop_last().push(w.last())); } else { assert(somes(o) =~= w); }
}
// accepted words are well-bracketed
proof fn accepted_are_nested<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, p: Map<T, Rc<BTreeSet<T>>>, at: spec_fn(T, Option<usize>) -> bool, w: Seq<Bracket<T>>)
    requires brackets(a.rules(), p, at), roomy(a, w), lawful::<T>(), faithful::<T>(), faithful::<BTreeSet<T>>(), vstd::laws_cmp::obeys_cmp::<T>(), accepted_by(a, w)
    ensures nest(w) == Some(Seq::<T>::empty())
{
    let (n, y) = choose|n: nat, y: MdNode<T>| #[trigger] runs(a, w, n).contains(y) && a.accepting(y.conf);
    runs_track(a, p, at, w, n, y);
    let v = choose|v: Seq<Bracket<T>>| #[trigger] on_track(w, y.conf, v);
    assert(v =~= w);
    assert((nest(v)->0) =~= Seq::empty());
}
// the weights cause no trouble
proof fn brackets_weigh<T: Clone + Ord>(a: MultipleDyckAutomaton<T>, p: Map<T, Rc<BTreeSet<T>>>, at: spec_fn(T, Option<usize>) -> bool)
    requires brackets(a.rules(), p, at)
    ensures weighs::<Bracket<T>, u8, MultipleDyckAutomaton<T>>(a)
{
    assert forall|k: (), t: Trans<T>, w: u8| #![trigger a.at(k).contains(t), MulSpec::mul_req(w, t.weight)] a.at(k).contains(t) implies MulSpec::mul_req(w, t.weight) by {
        assert(a.rules().contains(t));
        assert(t.weight == 0);
        assert(w * 0 == 0);
    }
}
} // verus!
