// C03: agendas.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::collections::{BinaryHeap, VecDeque};
use std::cmp::Ordering;
use std::ops::Mul;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/ord.rs
//@@ include lib/heap.rs
//@@ include lib/agenda.rs

//@@ include lib/agenda_std.rs
//@@ include lib/agenda_weighted.rs
// ---- beams ----
// what the comparison with the beam's threshold relies on
pub open spec fn lawful_beam<W: Ord + Clone + Mul<Output = W>>() -> bool {
    &&& lawful_ord::<W>() && faithful::<W>()
    &&& W::obeys_partial_cmp_spec() && forall|a: W, b: W| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& W::obeys_mul_spec() && forall|a: W, b: W| #[trigger] a.mul_req(b)
}
pub mod beam_heap {
    use super::*;
//@@ type search/src/agenda/beam_heap.rs self::BeamHeap
//@ keeppaths
//@ attr
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(W)] pub
//@@ end
    impl<I, W: Ord> BeamHeap<I, W> {
        pub closed spec fn entries(&self) -> Multiset<WeightedItem<I, W>> { heap_els(self.heap) }
        pub closed spec fn top(&self) -> Option<WeightedItem<I, W>> { heap_first(self.heap) }
        pub closed spec fn factor(&self) -> W { self.beta }
        pub proof fn top_law(&self)
            requires lawful_ord::<W>()
            ensures match self.top() { None => self.entries().len() == 0, Some(x) => greatest(self.entries(), x) }
        {
            item_order::<I, W>();
            broadcast use {heap_first_greatest, heap_first_held};
        }
    }
    // the beam keeps an element of this priority
    pub open spec fn keeps<I, W: Ord + Mul<Output = W>>(b: BeamHeap<I, W>, priority: W) -> bool {
        b.entries().len() == 0 || (b.top() is Some && ord_le((b.top()->0).1.mul_spec(b.factor()), priority))
    }
//@@ fn search/src/agenda/beam_heap.rs self::BeamHeap::new
//@ keeppaths
//@ ret r
//@ params beta
//@ ensures r.entries() == Multiset::<WeightedItem<I, W>>::empty(), r.factor() == beta
//@@ end
//@@ fn search/src/agenda/beam_heap.rs self::BeamHeap::push
//@ keeppaths
//@ params element priority
//@ ret r
//@ requires lawful_beam::<W>()
//@ ensures
    final(self).factor() == old(self).factor(),
    r <==> keeps(*old(self), priority),
    r ==> final(self).entries() == old(self).entries().insert(WeightedItem(element, priority)),
    !r ==> *final(self) == *old(self),
//@ start
    proof { item_order::<I, W>(); }
    broadcast use group_multiset_axioms;
    broadcast use heap_first_held;
//@@ end
//@@ fn search/src/agenda/beam_heap.rs self::BeamHeap::peek
//@ keeppaths
//@ ret r
//@ ensures
    match r {
        None => self.entries().len() == 0 && self.top() is None,
        Some(x) => self.top() is Some && (self.top()->0).0 == *x && self.entries().contains(self.top()->0),
    },
//@ closure 0 (wi: &WeightedItem<I, W>) -> (x: &I)
    ensures *x == wi.0
//@@ end
//@@ fn search/src/agenda/beam_heap.rs self::BeamHeap::pop
//@ keeppaths
//@ ret r
//@ requires lawful_ord::<W>()
//@ ensures
    final(self).factor() == old(self).factor(),
    match r {
        None => old(self).entries().len() == 0 && old(self).top() is None && final(self).entries() == old(self).entries(),
        Some(x) => old(self).top() is Some && (old(self).top()->0).0 == x && greatest(old(self).entries(), old(self).top()->0)
            && final(self).entries() == old(self).entries().remove(old(self).top()->0),
    },
//@ closure 0 (wi: WeightedItem<I, W>) -> (x: I)
    ensures x == wi.0
//@ start
    proof { item_order::<I, W>(); }
    broadcast use group_multiset_axioms;
//@@ end
//@@ fn search/src/agenda/beam_heap.rs self::BeamHeap::len
//@ keeppaths
//@ ret r
//@ ensures r == self.entries().len()
//@@ end
//@@ fn search/src/agenda/beam_heap.rs self::BeamHeap::clear
//@ keeppaths
//@ ensures final(self).factor() == old(self).factor(), final(self).entries() == Multiset::<WeightedItem<I, W>>::empty()
//@@ end

    pub mod weighted {
        use super::*;
//@@ type search/src/agenda/beam_heap.rs weighted::BeamHeap
//@ keeppaths
//@ attr
#[verifier::reject_recursive_types(I)] pub
//@@ end
        impl<I: Weighted> BeamHeap<I> where I::Weight: Ord {
            pub closed spec fn entries(&self) -> Multiset<WeightedItem<I, I::Weight>> { self.0.entries() }
            pub closed spec fn top(&self) -> Option<WeightedItem<I, I::Weight>> { self.0.top() }
            pub closed spec fn factor(&self) -> I::Weight { self.0.factor() }
            pub closed spec fn inner(&self) -> super::BeamHeap<I, I::Weight> { self.0 }
            pub open spec fn wf(&self) -> bool { lawful_ord::<I::Weight>() && I::weighable() && weighed(self.entries()) }
            pub proof fn top_law(&self)
                requires lawful_ord::<I::Weight>()
                ensures match self.top() { None => self.entries().len() == 0, Some(x) => greatest(self.entries(), x) }
            { self.0.top_law(); }
//@@ method search/src/agenda/beam_heap.rs weighted::BeamHeap::new
//@ keeppaths
//@ params beta
//@ ret r
//@ ensures r.entries() == Multiset::<WeightedItem<I, I::Weight>>::empty(), r.factor() == beta
//@@ end
//@@ method search/src/agenda/beam_heap.rs weighted::BeamHeap::len
//@ keeppaths
//@ ret r
//@ ensures r == self.entries().len()
//@@ end
//@@ method search/src/agenda/beam_heap.rs weighted::BeamHeap::clear
//@ keeppaths
//@ ensures final(self).factor() == old(self).factor(), final(self).entries() == Multiset::<WeightedItem<I, I::Weight>>::empty()
//@@ end
//@@ method search/src/agenda/beam_heap.rs weighted::BeamHeap::push
//@ keeppaths
//@ params element
//@ ret r
//@ requires old(self).wf(), lawful_beam::<I::Weight>()
//@ ensures
    final(self).wf(),
    final(self).factor() == old(self).factor(),
    r <==> wkeeps(*old(self), element),
    final(self).entries() == if r { old(self).entries().insert(entry(element)) } else { old(self).entries() },
//@ start
    proof { weighed_laws(old(self).entries()); }
//@@ end
//@@ method search/src/agenda/beam_heap.rs weighted::BeamHeap::pop
//@ keeppaths
//@ ret r
//@ requires old(self).wf()
//@ ensures
    final(self).wf(),
    final(self).factor() == old(self).factor(),
    match r {
        None => old(self).entries().len() == 0 && old(self).top() is None && final(self).entries() == old(self).entries(),
        Some(x) => old(self).top() == Some(entry(x)) && greatest(old(self).entries(), entry(x)) && final(self).entries() == old(self).entries().remove(entry(x)),
    },
//@ start
    proof { weighed_laws(old(self).entries()); }
//@@ end
//@@ method search/src/agenda/beam_heap.rs weighted::BeamHeap::peek
//@ keeppaths
//@ ret r
//@ ensures
    match r {
        None => self.entries().len() == 0 && self.top() is None,
        Some(x) => self.top() is Some && (self.top()->0).0 == *x && self.entries().contains(self.top()->0),
    },
//@@ end
        }
        pub open spec fn wkeeps<I: Weighted>(b: BeamHeap<I>, x: I) -> bool where I::Weight: Ord + Mul<Output = I::Weight> {
            b.entries().len() == 0 || (b.top() is Some && ord_le((b.top()->0).1.mul_spec(b.factor()), x.weight()))
        }
    }
}
//@@ impl search/src/agenda/mod.rs <Agenda~for~BeamHeap> push pop peek len
impl<I: Weighted> Agenda for beam_heap::weighted::BeamHeap<I> where I::Weight: Ord + Mul<Output = I::Weight> + Clone {
    type Item = I;
    open spec fn ok(&self) -> bool { self.wf() && lawful_beam::<I::Weight>() }
    open spec fn held(&self) -> Multiset<I> { items(self.entries()) }
    open spec fn first(&self) -> Option<I> { match self.top() { None => None, Some(x) => Some(x.0) } }
    open spec fn pushed(&self, x: I, post: &Self) -> bool { post.entries() == if beam_heap::weighted::wkeeps(*self, x) { self.entries().insert(entry(x)) } else { self.entries() } }
    open spec fn popped(&self, post: &Self) -> bool {
        match self.first() {
            None => self.entries().len() == 0 && post.entries() == self.entries(),
            Some(x) => greatest(self.entries(), entry(x)) && post.entries() == self.entries().remove(entry(x)),
        }
    }
    open spec fn lossless() -> bool { false }
    proof fn push_law(&self, x: I, post: &Self) { broadcast use group_multiset_axioms; items_insert(self.entries(), entry(x)); }
    proof fn pop_law(&self, post: &Self) {
        broadcast use group_multiset_axioms;
        match self.first() { None => {}, Some(x) => {
            items_remove(self.entries(), entry(x));
            assert(items(self.entries()).remove(x) =~= items(post.entries()));
        } }
    }
    proof fn first_law(&self) { broadcast use group_multiset_axioms; items_len(self.entries()); self.top_law(); }
//@@ method search/src/agenda/mod.rs <Agenda~for~BeamHeap>::push
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~BeamHeap>::pop
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~BeamHeap>::peek
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~BeamHeap>::len
//@ ret r
//@ start
    proof { items_len(self.entries()); }
//@@ end
}

//@@ include lib/agenda_limited.rs

} // verus!
