// ---- lib/agenda_limited.rs: agendas of limited size; needs lib/agenda_weighted.rs ----
// ---- limited heaps ----
// the crate min-max-heap (assumed contracts)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MinMaxHeap<T>(std::marker::PhantomData<T>);
pub uninterp spec fn mm_els<T>(h: MinMaxHeap<T>) -> Multiset<T>;
// the entry `peek_max` shows and the next `pop_max` takes
pub uninterp spec fn mm_max<T>(h: MinMaxHeap<T>) -> Option<T>;
pub broadcast axiom fn mm_max_held<T>(h: MinMaxHeap<T>)
    ensures match #[trigger] mm_max(h) { None => mm_els(h).len() == 0, Some(x) => mm_els(h).contains(x) };
pub broadcast axiom fn mm_max_greatest<T: Ord>(h: MinMaxHeap<T>)
    requires lawful_ord::<T>()
    ensures match #[trigger] mm_max(h) { None => true, Some(x) => forall|y: T| #[trigger] mm_els(h).contains(y) ==> ord_le(y, x) };
impl<T: Ord> MinMaxHeap<T> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures mm_els(r) == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == mm_els(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> mm_els(*self).len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures mm_els(*final(self)) == Multiset::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) requires lawful_ord::<T>() ensures mm_els(*final(self)) == mm_els(*old(self)).insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_pop_min(&mut self, x: T) -> (r: T)
        requires lawful_ord::<T>()
        ensures ({ let all = mm_els(*old(self)).insert(x); all.contains(r) && mm_els(*final(self)) == all.remove(r) && forall|y: T| #[trigger] all.contains(y) ==> ord_le(r, y) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_pop_max(&mut self, x: T) -> (r: T)
        requires lawful_ord::<T>()
        ensures ({ let all = mm_els(*old(self)).insert(x); all.contains(r) && mm_els(*final(self)) == all.remove(r) && forall|y: T| #[trigger] all.contains(y) ==> ord_le(y, r) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_max(&mut self) -> (r: Option<T>)
        requires lawful_ord::<T>()
        ensures r == mm_max(*old(self)), match r { None => mm_els(*final(self)) == mm_els(*old(self)), Some(x) => mm_els(*final(self)) == mm_els(*old(self)).remove(x) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_min(&mut self) -> (r: Option<T>)
        requires lawful_ord::<T>()
        ensures match r {
            None => mm_els(*old(self)).len() == 0 && mm_els(*final(self)) == mm_els(*old(self)),
            Some(x) => mm_els(*old(self)).contains(x) && mm_els(*final(self)) == mm_els(*old(self)).remove(x) && forall|y: T| #[trigger] mm_els(*old(self)).contains(y) ==> ord_le(x, y),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_max(&self) -> (r: Option<&T>)
        ensures match r { None => mm_max(*self) is None, Some(x) => mm_max(*self) == Some(*x) }
    { unimplemented!() }
}
pub mod limited_heap {
    use super::*;
//@@ type search/src/agenda/limited_heap.rs self::LimitedHeap
//@ keeppaths
//@ attr
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(W)] pub
//@@ end
    impl<I, W: Ord> LimitedHeap<I, W> {
        pub closed spec fn entries(&self) -> Multiset<WeightedItem<I, W>> { mm_els(self.heap) }
        pub closed spec fn top(&self) -> Option<WeightedItem<I, W>> { mm_max(self.heap) }
        pub closed spec fn limit(&self) -> int { self.capacity as int }
        pub proof fn top_law(&self)
            requires lawful_ord::<W>()
            ensures match self.top() { None => self.entries().len() == 0, Some(x) => greatest(self.entries(), x) }
        {
            item_order::<I, W>();
            broadcast use {mm_max_greatest, mm_max_held};
        }
    }
//@@ fn search/src/agenda/limited_heap.rs self::LimitedHeap::with_capacity
//@ keeppaths
//@ params capacity
//@ ret r
//@ ensures r.entries() == Multiset::<WeightedItem<I, W>>::empty(), r.limit() == capacity
//@@ end
//@@ fn search/src/agenda/limited_heap.rs self::LimitedHeap::push
//@ keeppaths
//@ params element priority
//@ ret r
//@ requires lawful_ord::<W>(), old(self).entries().len() <= old(self).limit()
//@ ensures
    final(self).limit() == old(self).limit(),
    final(self).entries().len() <= old(self).limit(),
    r is None <==> old(self).entries().len() < old(self).limit(),
    ({
        let all = old(self).entries().insert(WeightedItem(element, priority));
        match r {
            None => final(self).entries() == all,
            Some(x) => exists|w: W| #[trigger] least(all, WeightedItem(x, w)) && final(self).entries() == all.remove(WeightedItem(x, w)),
        }
    }),
//@ start
    proof { item_order::<I, W>(); }
    broadcast use group_multiset_axioms;
    proof {
        let all = old(self).entries().insert(WeightedItem(element, priority));
        assert forall|x: WeightedItem<I, W>| #[trigger] all.contains(x) && (forall|y: WeightedItem<I, W>| #[trigger] all.contains(y) ==> ord_le(x, y)) implies least(all, WeightedItem(x.0, x.1)) && x == WeightedItem(x.0, x.1) by {
            assert forall|y: WeightedItem<I, W>| #[trigger] all.contains(y) implies ord_le(x.1, y.1) by { assert(ord_le(x, y)); }
        }
    }
//@ tail
    proof {
        let all = old(self).entries().insert(WeightedItem(element, priority));
        if result__ is None { assert(self.entries() == all); } else {
            let x = result__->0;
            assert(exists|e: WeightedItem<I, W>| e.0 == x && #[trigger] all.contains(e) && self.entries() == all.remove(e));
            assert(exists|w: W| #[trigger] least(all, WeightedItem(x, w)));
            assert(exists|w: W| #[trigger] least(all, WeightedItem(x, w)) && self.entries() == all.remove(WeightedItem(x, w)));
        }
    }
//@@ end
//@@ fn search/src/agenda/limited_heap.rs self::LimitedHeap::peek
//@ keeppaths
//@ ret r
//@ ensures
    match r {
        None => self.entries().len() == 0 && self.top() is None,
        Some(x) => self.top() is Some && (self.top()->0).0 == *x && self.entries().contains(self.top()->0),
    },
//@ closure 0 (wi: &WeightedItem<I, W>) -> (x: &I)
    ensures *x == wi.0
//@ start
    broadcast use mm_max_held;
//@@ end
//@@ fn search/src/agenda/limited_heap.rs self::LimitedHeap::pop
//@ keeppaths
//@ ret r
//@ requires lawful_ord::<W>()
//@ ensures
    final(self).limit() == old(self).limit(),
    match r {
        None => old(self).entries().len() == 0 && old(self).top() is None && final(self).entries() == old(self).entries(),
        Some(x) => old(self).top() is Some && (old(self).top()->0).0 == x && greatest(old(self).entries(), old(self).top()->0)
            && final(self).entries() == old(self).entries().remove(old(self).top()->0),
    },
//@ closure 0 (wi: WeightedItem<I, W>) -> (x: I)
    ensures x == wi.0
//@ start
    proof { item_order::<I, W>(); }
    broadcast use group_multiset_axioms;
    broadcast use {mm_max_greatest, mm_max_held};
//@@ end
//@@ fn search/src/agenda/limited_heap.rs self::LimitedHeap::len
//@ keeppaths
//@ ret r
//@ ensures r == self.entries().len()
//@@ end
//@@ fn search/src/agenda/limited_heap.rs self::LimitedHeap::clear
//@ keeppaths
//@ ensures final(self).limit() == old(self).limit(), final(self).entries() == Multiset::<WeightedItem<I, W>>::empty()
//@@ end

    pub mod weighted {
        use super::*;
//@@ type search/src/agenda/limited_heap.rs weighted::LimitedHeap
//@ keeppaths
//@ attr
#[verifier::reject_recursive_types(I)] pub
//@@ end
        impl<I: Weighted> LimitedHeap<I> where I::Weight: Ord {
            pub closed spec fn entries(&self) -> Multiset<WeightedItem<I, I::Weight>> { self.0.entries() }
            pub closed spec fn top(&self) -> Option<WeightedItem<I, I::Weight>> { self.0.top() }
            pub closed spec fn limit(&self) -> int { self.0.limit() }
            pub open spec fn wf(&self) -> bool { lawful_ord::<I::Weight>() && I::weighable() && weighed(self.entries()) && self.entries().len() <= self.limit() }
            pub proof fn top_law(&self)
                requires lawful_ord::<I::Weight>()
                ensures match self.top() { None => self.entries().len() == 0, Some(x) => greatest(self.entries(), x) }
            { self.0.top_law(); }
//@@ method search/src/agenda/limited_heap.rs weighted::LimitedHeap::with_capacity
//@ keeppaths
//@ params capacity
//@ ret r
//@ ensures r.entries() == Multiset::<WeightedItem<I, I::Weight>>::empty(), r.limit() == capacity
//@@ end
//@@ method search/src/agenda/limited_heap.rs weighted::LimitedHeap::len
//@ keeppaths
//@ ret r
//@ ensures r == self.entries().len()
//@@ end
//@@ method search/src/agenda/limited_heap.rs weighted::LimitedHeap::clear
//@ keeppaths
//@ ensures final(self).limit() == old(self).limit(), final(self).entries() == Multiset::<WeightedItem<I, I::Weight>>::empty()
//@@ end
//@@ method search/src/agenda/limited_heap.rs weighted::LimitedHeap::push
//@ keeppaths
//@ params element
//@ ret r
//@ requires old(self).wf()
//@ ensures
    final(self).wf(),
    final(self).limit() == old(self).limit(),
    r is None <==> old(self).entries().len() < old(self).limit(),
    ({
        let all = old(self).entries().insert(entry(element));
        match r {
            None => final(self).entries() == all,
            Some(x) => least(all, entry(x)) && final(self).entries() == all.remove(entry(x)),
        }
    }),
//@ start
    broadcast use group_multiset_axioms;
    proof {
        weighed_laws(old(self).entries());
        weighed_laws(old(self).entries().insert(entry(element)));
        let all = old(self).entries().insert(entry(element));
        assert(weighed(all));
        assert forall|x: I, w: I::Weight| #[trigger] least(all, WeightedItem(x, w)) implies WeightedItem(x, w) == entry(x) by { assert(all.contains(WeightedItem(x, w))); }
    }
//@@ end
//@@ method search/src/agenda/limited_heap.rs weighted::LimitedHeap::pop
//@ keeppaths
//@ ret r
//@ requires old(self).wf()
//@ ensures
    final(self).wf(),
    final(self).limit() == old(self).limit(),
    match r {
        None => old(self).entries().len() == 0 && old(self).top() is None && final(self).entries() == old(self).entries(),
        Some(x) => old(self).top() == Some(entry(x)) && greatest(old(self).entries(), entry(x)) && final(self).entries() == old(self).entries().remove(entry(x)),
    },
//@ start
    broadcast use group_multiset_axioms;
    proof { weighed_laws(old(self).entries()); }
//@@ end
//@@ method search/src/agenda/limited_heap.rs weighted::LimitedHeap::peek
//@ keeppaths
//@ ret r
//@ ensures
    match r {
        None => self.entries().len() == 0 && self.top() is None,
        Some(x) => self.top() is Some && (self.top()->0).0 == *x && self.entries().contains(self.top()->0),
    },
//@@ end
        }
    }
}
//@@ impl search/src/agenda/mod.rs <Agenda~for~LimitedHeap> push pop peek len
impl<I: Weighted> Agenda for limited_heap::weighted::LimitedHeap<I> where I::Weight: Ord {
    type Item = I;
    open spec fn ok(&self) -> bool { self.wf() }
    open spec fn held(&self) -> Multiset<I> { items(self.entries()) }
    open spec fn first(&self) -> Option<I> { match self.top() { None => None, Some(x) => Some(x.0) } }
    open spec fn pushed(&self, x: I, post: &Self) -> bool {
        let all = self.entries().insert(entry(x));
        post.entries() == all || exists|y: I| #[trigger] least(all, entry(y)) && post.entries() == all.remove(entry(y))
    }
    open spec fn popped(&self, post: &Self) -> bool {
        match self.first() {
            None => self.entries().len() == 0 && post.entries() == self.entries(),
            Some(x) => greatest(self.entries(), entry(x)) && post.entries() == self.entries().remove(entry(x)),
        }
    }
    open spec fn lossless() -> bool { false }
    proof fn push_law(&self, x: I, post: &Self) {
        broadcast use group_multiset_axioms;
        items_insert(self.entries(), entry(x));
        let all = self.entries().insert(entry(x));
        if post.entries() != all {
            let y = choose|y: I| #[trigger] least(all, entry(y)) && post.entries() == all.remove(entry(y));
            items_remove(all, entry(y));
        }
    }
    proof fn pop_law(&self, post: &Self) {
        broadcast use group_multiset_axioms;
        match self.first() { None => {}, Some(x) => {
            items_remove(self.entries(), entry(x));
            assert(items(self.entries()).remove(x) =~= items(post.entries()));
        } }
    }
    proof fn first_law(&self) { broadcast use group_multiset_axioms; items_len(self.entries()); self.top_law(); }
//@@ method search/src/agenda/mod.rs <Agenda~for~LimitedHeap>::push
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~LimitedHeap>::pop
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~LimitedHeap>::peek
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~LimitedHeap>::len
//@ ret r
//@ start
    proof { items_len(self.entries()); }
//@@ end
}
