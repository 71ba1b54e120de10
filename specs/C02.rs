// C02: the unique priority queue.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::multiset::*;
use std::collections::{BinaryHeap, HashSet, hash_map::RandomState};
use std::hash::{BuildHasher, Hash};
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/ord.rs
//@@ include lib/heap.rs

//@@ type unique-heap/src/lib.rs UniqueHeap
//@ attr
#[verifier::reject_recursive_types(Wt)] #[verifier::reject_recursive_types(It)] #[verifier::reject_recursive_types(Bh)]
//@@ end

pub assume_specification<T, S>[HashSet::<T, S>::with_capacity_and_hasher](n: usize, h: S) -> (r: HashSet<T, S>)
    ensures r@ == Set::<T>::empty();

// lawful equality and hashing; clones that equal their originals
spec fn keyed<W: Ord, I: Ord, B>() -> bool { obeys_key_model::<I>() && builds_valid_hashers::<B>() && lawful_ord::<(W, I)>() }
spec fn lawful<W: Ord, I: Ord + Clone, B>() -> bool { keyed::<W, I, B>() && forall|a: I, b: I| #[trigger] call_ensures(I::clone, (&a,), b) ==> a == b }

// the entries held: no item twice
spec fn unique<W, I>(h: Multiset<(W, I)>) -> bool {
    &&& forall|p: (W, I)| #[trigger] h.count(p) <= 1
    &&& forall|p: (W, I), q: (W, I)| #[trigger] h.contains(p) && #[trigger] h.contains(q) && p.1 == q.1 ==> p == q
}
spec fn holds<W, I>(h: Multiset<(W, I)>, i: I) -> bool { exists|w: W| #[trigger] h.contains((w, i)) }

spec fn els<I: Ord + Hash, W: Ord, B: BuildHasher>(u: UniqueHeap<I, W, B>) -> Multiset<(W, I)> { heap_els(u.heap) }
// what peek shows and pop takes
spec fn first<I: Ord + Hash, W: Ord, B: BuildHasher>(u: UniqueHeap<I, W, B>) -> Option<(W, I)> { heap_first(u.heap) }
spec fn wf<I: Ord + Hash, W: Ord, B: BuildHasher>(u: UniqueHeap<I, W, B>) -> bool {
    &&& unique(els(u))
    &&& forall|i: I| #[trigger] u.current_items@.contains(i) <==> holds(els(u), i)
}
// is x the greatest entry
spec fn greatest<T: Ord>(h: Multiset<T>, x: T) -> bool { h.contains(x) && forall|y: T| #[trigger] h.contains(y) ==> ord_le(y, x) }

// what is held after offering entries in this order: the first of each item
spec fn firsts<W, I>(s: Seq<(I, W)>) -> Multiset<(W, I)>
    decreases s.len()
{
    if s.len() == 0 { Multiset::empty() } else {
        let f = firsts(s.drop_last());
        if holds(f, s.last().0) { f } else { f.insert((s.last().1, s.last().0)) }
    }
}

broadcast proof fn ins<T>(h: Multiset<T>, x: T, y: T)
    ensures #![trigger h.insert(x).contains(y)] #![trigger h.insert(x), h.contains(y)] h.insert(x).contains(y) <==> h.contains(y) || x == y
{ broadcast use group_multiset_axioms; }

proof fn insert_unique<W, I>(h: Multiset<(W, I)>, w: W, i: I)
    requires unique(h), !holds(h, i)
    ensures unique(h.insert((w, i))), forall|j: I| #[trigger] holds(h.insert((w, i)), j) <==> holds(h, j) || j == i
{
    broadcast use group_multiset_axioms;
    let g = h.insert((w, i));
    assert forall|j: I| #[trigger] holds(g, j) <==> holds(h, j) || j == i by {
        if holds(h, j) { let v = choose|v: W| #[trigger] h.contains((v, j)); assert(g.contains((v, j))); }
        if j == i { assert(g.contains((w, j))); }
        if holds(g, j) { let v = choose|v: W| #[trigger] g.contains((v, j)); if (v, j) != (w, i) { assert(h.contains((v, j))); } }
    }
    assert(!h.contains((w, i)));
    assert forall|p: (W, I)| #[trigger] g.count(p) <= 1 by { if p != (w, i) { assert(g.count(p) == h.count(p)); } else { assert(h.count(p) == 0); } }
    assert forall|p: (W, I), q: (W, I)| #[trigger] g.contains(p) && #[trigger] g.contains(q) && p.1 == q.1 implies p == q by {
        if p != (w, i) { assert(h.contains(p)); if q == (w, i) { assert(h.contains((p.0, i))); } }
        if q != (w, i) { assert(h.contains(q)); if p == (w, i) { assert(h.contains((q.0, i))); } }
    }
}
proof fn remove_unique<W, I>(h: Multiset<(W, I)>, x: (W, I))
    requires unique(h), h.contains(x)
    ensures unique(h.remove(x)), forall|j: I| #[trigger] holds(h.remove(x), j) <==> holds(h, j) && j != x.1
{
    broadcast use group_multiset_axioms;
    let g = h.remove(x);
    assert(h.count(x) == 1);
    assert forall|p: (W, I)| #[trigger] g.contains(p) <==> h.contains(p) && p != x by { }
    assert forall|j: I| #[trigger] holds(g, j) <==> holds(h, j) && j != x.1 by {
        if holds(h, j) && j != x.1 { let v = choose|v: W| #[trigger] h.contains((v, j)); assert(g.contains((v, j))); }
        if holds(g, j) { let v = choose|v: W| #[trigger] g.contains((v, j)); assert(h.contains((v, j))); }
    }
}

//@@ fn unique-heap/src/lib.rs UniqueHeap::push
//@ params item weight
//@ ret r
//@ requires lawful::<Wt, It, Bh>(), wf(*old(self))
//@ ensures
    wf(*final(self)),
    r <==> !holds(els(*old(self)), item),
    r ==> els(*final(self)) == els(*old(self)).insert((weight, item)),
    !r ==> els(*final(self)) == els(*old(self)),
//@ start
    proof { if !holds(els(*self), item) { insert_unique(els(*self), weight, item); } }
//@@ end

//@@ fn unique-heap/src/lib.rs UniqueHeap::pop
//@ ret r
//@ requires keyed::<Wt, It, Bh>(), wf(*old(self))
//@ ensures
    wf(*final(self)),
    match r {
        None => els(*old(self)).len() == 0 && els(*final(self)) == els(*old(self)),
        Some((i, w)) => first(*old(self)) == Some((w, i)) && greatest(els(*old(self)), (w, i)) && els(*final(self)) == els(*old(self)).remove((w, i)),
    },
//@ start
    proof {
        assert forall|x: (Wt, It)| #[trigger] els(*self).contains(x) implies unique(els(*self).remove(x)) && forall|j: It| #[trigger] holds(els(*self).remove(x), j) <==> holds(els(*self), j) && j != x.1 by {
            remove_unique(els(*self), x);
        }
    }
//@@ end

//@@ fn unique-heap/src/lib.rs UniqueHeap::is_empty
//@ ret r
//@ ensures r <==> els(*self).len() == 0
//@@ end
//@@ fn unique-heap/src/lib.rs UniqueHeap::len
//@ ret r
//@ ensures r == els(*self).len()
//@@ end
//@@ fn unique-heap/src/lib.rs UniqueHeap::peek
//@ ret r
//@ requires lawful_ord::<(Wt, It)>()
//@ ensures match r { None => els(*self).len() == 0 && first(*self) is None, Some(x) => greatest(els(*self), *x) && first(*self) == Some(*x) }
//@ start
    broadcast use heap_first_greatest;
//@@ end
//@@ fn unique-heap/src/lib.rs UniqueHeap::into_sorted_vec
//@ ret r
//@ requires lawful_ord::<(Wt, It)>()
//@ ensures
    r@.to_multiset() == els(self),
    forall|i: int, j: int| 0 <= i <= j < r@.len() ==> ord_le(#[trigger] r@[i], #[trigger] r@[j]),
//@@ end

//@@ fn unique-heap/src/lib.rs <Default~for~UniqueHeap>::default as default_
//@ ret r
//@ requires keyed::<W, I, B>()
//@ ensures wf(r), els(r) == Multiset::<(W, I)>::empty()
//@ start
    broadcast use group_multiset_axioms;
//@@ end

fn vt_size_hint<T>(v: &Vec<T>) -> (usize, Option<usize>) { (v.len(), Some(v.len())) }

//@@ fn unique-heap/src/lib.rs <FromIterator<(I,W)>~for~UniqueHeap>::from_iter
//@ newparams iter: Vec<(I, W)>
//@ dropbound IntoIterator
//@ dropgeneric T
//@ mapmethod into_iter vt_collect
//@ mapmethod size_hint vt_size_hint &
//@ ret r
//@ requires lawful::<W, I, B>()
//@ ensures wf(r), els(r) == firsts(iter@)
//@ start
    broadcast use group_multiset_axioms;
    let ghost s = iter@;
    proof { assert(s.take(0) =~= Seq::empty()); }
//@ local heap 2
//@ local current_items 3
//@ loop 0 for it
    invariant
        lawful::<W, I, B>(),
        it.seq() == s,
        heap_els(heap) == firsts(s.take(it.index@)),
        unique(heap_els(heap)),
        forall|i: I| #[trigger] current_items@.contains(i) <==> holds(heap_els(heap), i),
//@ loopstart 0
    broadcast use seq_facts;
    proof {
        let x = s[it.index@];
        assert(s.take(it.index@ + 1).drop_last() == s.take(it.index@));
        if !holds(heap_els(heap), x.0) { insert_unique(heap_els(heap), x.1, x.0); }
    }
//@ after 0
    proof { assert(s.take(s.len() as int) =~= s); }
//@@ end

//@@ fn unique-heap/src/lib.rs <From<Vec<(W,I)>>~for~UniqueHeap>::from as from_
//@ params vec
//@ mapmethod into_iter vt_collect
//@ mapmethod map vt_map
//@ mapmethod collect UniqueHeap::<I, W, B>::from_iter
//@ ret r
//@ requires lawful::<W, I, B>()
//@ ensures
    wf(r),
    els(r) == firsts(vec@.map_values(|p: (W, I)| (p.1, p.0))),
//@ closure 0 (p: (W, I)) -> (q: (I, W))
    ensures q == (p.1, p.0)
//@ start
    let ghost v = vec@;
    proof { assert forall|s: Seq<(I, W)>| #![trigger firsts(s)] s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] s[i] == (v[i].1, v[i].0)) implies s == v.map_values(|p: (W, I)| (p.1, p.0)) by { assert(s =~= v.map_values(|p: (W, I)| (p.1, p.0))); } }
//@@ end

//@@ fn unique-heap/src/lib.rs <IntoIterator~for~UniqueHeap>::into_iter as into_iter_
//@ ret r
//@ ensures into_iter_els(r) == els(self)
//@@ end

//@@ fn unique-heap/src/lib.rs <IntoIterator~for~&UniqueHeap>::into_iter as iter_
//@ ret r
//@ ensures iter_els(r) == els(*self)
//@@ end

} // verus!
