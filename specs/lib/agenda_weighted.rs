// ---- lib/agenda_weighted.rs: priority queues are agendas; needs lib/agenda.rs, lib/ord.rs, lib/heap.rs ----
// ---- items with a priority: compared by priority alone ----
pub open spec fn faithful<W: Clone>() -> bool { forall|a: W, b: W| #[trigger] call_ensures(W::clone, (&a,), b) ==> a == b }

//@@ type search/src/agenda/weighted.rs WeightedItem
//@ public
//@@ end
impl<I, W: PartialEq> PartialEqSpecImpl for WeightedItem<I, W> {
    open spec fn obeys_eq_spec() -> bool { W::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.1.eq_spec(&other.1) }
}
impl<I, W: PartialOrd> PartialOrdSpecImpl for WeightedItem<I, W> {
    open spec fn obeys_partial_cmp_spec() -> bool { W::obeys_partial_cmp_spec() }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { self.1.partial_cmp_spec(&other.1) }
}
impl<I, W: Ord> OrdSpecImpl for WeightedItem<I, W> {
    open spec fn obeys_cmp_spec() -> bool { W::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { self.1.cmp_spec(&other.1) }
}
//@@ impl search/src/agenda/weighted.rs <PartialEq~for~WeightedItem> eq
//@@ fn search/src/agenda/weighted.rs <PartialEq~for~WeightedItem>::eq
//@ implhead impl<I, W: PartialEq> PartialEq for WeightedItem<I, W>
//@@ end
impl<I, W: Eq> Eq for WeightedItem<I, W> {}
//@@ impl search/src/agenda/weighted.rs <PartialOrd~for~WeightedItem> partial_cmp
//@@ fn search/src/agenda/weighted.rs <PartialOrd~for~WeightedItem>::partial_cmp
//@ implhead impl<I, W: PartialOrd> PartialOrd for WeightedItem<I, W>
//@@ end
//@@ impl search/src/agenda/weighted.rs <Ord~for~WeightedItem> cmp
//@@ fn search/src/agenda/weighted.rs <Ord~for~WeightedItem>::cmp
//@ implhead impl<I, W: Ord> Ord for WeightedItem<I, W>
//@@ end
impl<I, W: Clone> Weighted for WeightedItem<I, W> {
    type Weight = W;
    open spec fn weighable() -> bool { faithful::<W>() }
    open spec fn weight(&self) -> W { self.1 }
//@@ method search/src/agenda/weighted.rs <Weighted~for~WeightedItem>::get_weight
//@ ret r
//@@ end
}
impl Weighted for usize {
    type Weight = usize;
    open spec fn weighable() -> bool { true }
    open spec fn weight(&self) -> usize { *self }
//@@ method search/src/agenda/weighted.rs <Weighted~for~usize>::get_weight
//@ ret r
//@@ end
}
proof fn item_order<I, W: Ord>()
    requires lawful_ord::<W>()
    ensures lawful_ord::<WeightedItem<I, W>>(), forall|a: WeightedItem<I, W>, b: WeightedItem<I, W>| ord_le(a, b) <==> ord_le(a.1, b.1)
{
    assert forall|a: WeightedItem<I, W>, b: WeightedItem<I, W>, c: WeightedItem<I, W>| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) implies ord_le(a, c) by { assert(ord_le(a.1, b.1) && ord_le(b.1, c.1)); }
}

// ---- collections of items with priorities ----
// the items of the entries
pub open spec fn items<I, W>(m: Multiset<WeightedItem<I, W>>) -> Multiset<I>
    decreases m.len()
{
    if m.len() == 0 { Multiset::empty() } else { let x = m.choose(); if m.contains(x) { items(m.remove(x)).insert(x.0) } else { Multiset::empty() } }
}
pub proof fn items_remove<I, W>(m: Multiset<WeightedItem<I, W>>, x: WeightedItem<I, W>)
    requires m.contains(x)
    ensures items(m) == items(m.remove(x)).insert(x.0)
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    let y = m.choose();
    assert(m.len() > 0);
    assert(m.contains(y));
    if x != y {
        let n = m.remove(y);
        assert(n.contains(x));
        items_remove(n, x);
        let k = m.remove(x);
        assert(k.contains(y));
        items_remove(k, y);
        assert(n.remove(x) =~= k.remove(y));
        assert(items(n.remove(x)).insert(x.0).insert(y.0) =~= items(k.remove(y)).insert(y.0).insert(x.0));
    }
}
pub proof fn items_insert<I, W>(m: Multiset<WeightedItem<I, W>>, x: WeightedItem<I, W>)
    ensures items(m.insert(x)) == items(m).insert(x.0)
{
    broadcast use group_multiset_axioms;
    assert(m.insert(x).contains(x));
    items_remove(m.insert(x), x);
    assert(m.insert(x).remove(x) =~= m);
}
pub proof fn items_len<I, W>(m: Multiset<WeightedItem<I, W>>)
    ensures items(m).len() == m.len()
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    if m.len() > 0 { let x = m.choose(); assert(m.contains(x)); items_len(m.remove(x)); }
}
// no entry has a greater priority than x
pub open spec fn greatest<I, W: Ord>(m: Multiset<WeightedItem<I, W>>, x: WeightedItem<I, W>) -> bool {
    m.contains(x) && forall|y: WeightedItem<I, W>| #[trigger] m.contains(y) ==> ord_le(y.1, x.1)
}
pub open spec fn least<I, W: Ord>(m: Multiset<WeightedItem<I, W>>, x: WeightedItem<I, W>) -> bool {
    m.contains(x) && forall|y: WeightedItem<I, W>| #[trigger] m.contains(y) ==> ord_le(x.1, y.1)
}
// every entry carries its item's priority
pub open spec fn weighed<I: Weighted>(m: Multiset<WeightedItem<I, I::Weight>>) -> bool { forall|x: WeightedItem<I, I::Weight>| #[trigger] m.contains(x) ==> x.1 == x.0.weight() }
pub open spec fn entry<I: Weighted>(x: I) -> WeightedItem<I, I::Weight> { WeightedItem(x, x.weight()) }

pub proof fn weighed_laws<I: Weighted>(m: Multiset<WeightedItem<I, I::Weight>>)
    requires weighed(m)
    ensures forall|e: WeightedItem<I, I::Weight>| e.1 == e.0.weight() ==> weighed(#[trigger] m.insert(e)), forall|e: WeightedItem<I, I::Weight>| weighed(#[trigger] m.remove(e))
{
    broadcast use group_multiset_axioms;
    assert forall|e: WeightedItem<I, I::Weight>| e.1 == e.0.weight() implies weighed(#[trigger] m.insert(e)) by {
        assert forall|y: WeightedItem<I, I::Weight>| #[trigger] m.insert(e).contains(y) implies y.1 == y.0.weight() by { if y != e { assert(m.contains(y)); } }
    }
    assert forall|e: WeightedItem<I, I::Weight>| weighed(#[trigger] m.remove(e)) by {
        assert forall|y: WeightedItem<I, I::Weight>| #[trigger] m.remove(e).contains(y) implies y.1 == y.0.weight() by { assert(m.contains(y)); }
    }
}

pub proof fn entries_of<I: Weighted>(s: Seq<I>)
    ensures weighed(s.map_values(|x: I| entry(x)).to_multiset()), items(s.map_values(|x: I| entry(x)).to_multiset()) == s.to_multiset()
    decreases s.len()
{
    broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    let f = |x: I| entry(x);
    if s.len() == 0 {
        assert(s.map_values(f) =~= Seq::empty());
        assert(s.map_values(f).to_multiset() =~= Multiset::empty());
        assert(s.to_multiset() =~= Multiset::empty());
    } else {
        let t = s.drop_last();
        entries_of(t);
        let m = t.map_values(f).to_multiset();
        assert(s =~= t.push(s.last()));
        assert(s.map_values(f) =~= t.map_values(f).push(entry(s.last())));
        assert(s.map_values(f).to_multiset() =~= m.insert(entry(s.last())));
        assert(s.to_multiset() =~= t.to_multiset().insert(s.last()));
        items_insert(m, entry(s.last()));
        weighed_laws(m);
    }
}

pub mod binary_heap {
    use super::*;
    pub mod weighted {
        use super::*;
//@@ type search/src/agenda/binary_heap.rs weighted::BinaryHeap
//@ keeppaths
//@ attr
#[verifier::reject_recursive_types(I)] pub
//@@ end
        impl<I: Weighted> BinaryHeap<I> where I::Weight: Ord {
            pub closed spec fn entries(&self) -> Multiset<WeightedItem<I, I::Weight>> { heap_els(self.0) }
            pub closed spec fn top(&self) -> Option<WeightedItem<I, I::Weight>> { heap_first(self.0) }
            pub open spec fn wf(&self) -> bool { lawful_ord::<I::Weight>() && I::weighable() && weighed(self.entries()) }
            pub proof fn top_law(&self)
                requires self.wf()
                ensures match self.top() { None => self.entries().len() == 0, Some(x) => greatest(self.entries(), x) }
            {
                item_order::<I, I::Weight>();
                broadcast use {heap_first_greatest, heap_first_held};
            }
//@@ method search/src/agenda/binary_heap.rs weighted::BinaryHeap::new
//@ keeppaths
//@ ret r
//@ ensures r.entries() == Multiset::<WeightedItem<I, I::Weight>>::empty()
//@@ end
//@@ method search/src/agenda/binary_heap.rs <FromIterator~for~weighted::BinaryHeap>::from_iter
//@ params iter
//@ newparams iter: Vec<I>
//@ dropgeneric T
//@ mapmethod into_iter vt_collect
//@ mapmethod map vt_map
//@ mapmethod collect vt_heap
//@ ret r
//@ requires lawful_ord::<I::Weight>(), I::weighable()
//@ ensures r.wf(), items(r.entries()) == iter@.to_multiset()
//@ closure 0 (item: I) -> (e: WeightedItem<I, I::Weight>)
    requires I::weighable()
    ensures e == entry(item)
//@ start
    proof {
        item_order::<I, I::Weight>();
        entries_of(iter@);
        assert forall|s: Seq<WeightedItem<I, I::Weight>>| s.len() == iter@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == entry(iter@[i])) implies #[trigger] s.to_multiset() == iter@.map_values(|x: I| entry(x)).to_multiset() by {
            assert(s =~= iter@.map_values(|x: I| entry(x)));
        }
    }
//@@ end
//@@ method search/src/agenda/binary_heap.rs weighted::BinaryHeap::len
//@ keeppaths
//@ ret r
//@ ensures r == self.entries().len()
//@@ end
//@@ method search/src/agenda/binary_heap.rs weighted::BinaryHeap::clear
//@ keeppaths
//@ ensures final(self).entries() == Multiset::<WeightedItem<I, I::Weight>>::empty()
//@@ end
//@@ method search/src/agenda/binary_heap.rs weighted::BinaryHeap::push
//@ keeppaths
//@ params element
//@ requires old(self).wf()
//@ ensures final(self).wf(), final(self).entries() == old(self).entries().insert(entry(element))
//@ start
    proof { item_order::<I, I::Weight>(); weighed_laws(old(self).entries()); }
    broadcast use group_multiset_axioms;
//@@ end
//@@ method search/src/agenda/binary_heap.rs weighted::BinaryHeap::pop
//@ keeppaths
//@ ret r
//@ requires old(self).wf()
//@ ensures
    final(self).wf(),
    match r {
        None => old(self).entries().len() == 0 && old(self).top() is None && final(self).entries() == old(self).entries(),
        Some(x) => old(self).top() == Some(entry(x)) && greatest(old(self).entries(), entry(x)) && final(self).entries() == old(self).entries().remove(entry(x)),
    },
//@ closure 0 (wi: WeightedItem<I, I::Weight>) -> (x: I)
    ensures x == wi.0
//@ start
    proof { item_order::<I, I::Weight>(); weighed_laws(old(self).entries()); }
    broadcast use group_multiset_axioms;
//@@ end
//@@ method search/src/agenda/binary_heap.rs weighted::BinaryHeap::peek
//@ keeppaths
//@ ret r
//@ ensures
    match r {
        None => self.entries().len() == 0 && self.top() is None,
        Some(x) => self.top() is Some && (self.top()->0).0 == *x && self.entries().contains(self.top()->0),
    },
//@ closure 0 (wi: &WeightedItem<I, I::Weight>) -> (x: &I)
    ensures *x == wi.0
//@@ end
        }
// `collect` is `from_iter`
pub fn vt_weighted<I: Weighted>(v: Vec<I>) -> (r: BinaryHeap<I>) where I::Weight: Ord
    requires lawful_ord::<I::Weight>(), I::weighable()
    ensures r.wf(), items(r.entries()) == v@.to_multiset()
{ BinaryHeap::from_iter(v) }
    }
}
//@@ impl search/src/agenda/mod.rs <Agenda~for~BinaryHeap> push pop peek len
impl<I: Weighted> Agenda for binary_heap::weighted::BinaryHeap<I> where I::Weight: Ord {
    type Item = I;
    open spec fn ok(&self) -> bool { self.wf() }
    open spec fn held(&self) -> Multiset<I> { items(self.entries()) }
    // an item of greatest priority
    open spec fn first(&self) -> Option<I> { match self.top() { None => None, Some(x) => Some(x.0) } }
    open spec fn pushed(&self, x: I, post: &Self) -> bool { post.entries() == self.entries().insert(entry(x)) }
    open spec fn popped(&self, post: &Self) -> bool {
        match self.first() {
            None => self.entries().len() == 0 && post.entries() == self.entries(),
            Some(x) => greatest(self.entries(), entry(x)) && post.entries() == self.entries().remove(entry(x)),
        }
    }
    open spec fn lossless() -> bool { true }
    proof fn push_law(&self, x: I, post: &Self) { items_insert(self.entries(), entry(x)); }
    proof fn pop_law(&self, post: &Self) {
        broadcast use group_multiset_axioms;
        match self.first() { None => {}, Some(x) => {
            items_remove(self.entries(), entry(x));
            assert(items(self.entries()).remove(x) =~= items(post.entries()));
        } }
    }
    proof fn first_law(&self) { broadcast use group_multiset_axioms; items_len(self.entries()); self.top_law(); }
//@@ method search/src/agenda/mod.rs <Agenda~for~BinaryHeap>::push
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~BinaryHeap>::pop
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~BinaryHeap>::peek
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~BinaryHeap>::len
//@ ret r
//@ start
    proof { items_len(self.entries()); }
//@@ end
}

