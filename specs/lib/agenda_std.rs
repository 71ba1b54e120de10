// ---- lib/agenda_std.rs: stacks and queues are agendas; needs lib/agenda.rs ----
// ---- stacks ----
//@@ impl search/src/agenda/mod.rs <Agenda~for~Vec> push pop peek len
impl<I> Agenda for Vec<I> {
    type Item = I;
    open spec fn ok(&self) -> bool { true }
    open spec fn held(&self) -> Multiset<I> { self@.to_multiset() }
    // the most recently pushed
    open spec fn first(&self) -> Option<I> { if self@.len() == 0 { None } else { Some(self@.last()) } }
    open spec fn pushed(&self, x: I, post: &Self) -> bool { post@ == self@.push(x) }
    open spec fn popped(&self, post: &Self) -> bool { if self@.len() == 0 { post@ == self@ } else { post@ == self@.drop_last() } }
    open spec fn lossless() -> bool { true }
    proof fn push_law(&self, x: I, post: &Self) { broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; }
    proof fn pop_law(&self, post: &Self) {
        broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
        if self@.len() > 0 {
            assert(self@ =~= self@.drop_last().push(self@.last()));
            assert(self@.to_multiset() =~= post@.to_multiset().insert(self@.last()));
            assert(self@.to_multiset().remove(self@.last()) =~= post@.to_multiset());
        }
    }
    proof fn first_law(&self) { broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; }
//@@ method search/src/agenda/mod.rs <Agenda~for~Vec>::push
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~Vec>::pop
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~Vec>::peek
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~Vec>::len
//@ ret r
//@ start
    broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
//@@ end
}

// ---- queues ----
pub assume_specification<T, A: std::alloc::Allocator>[VecDeque::<T, A>::back](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { None => v@.len() == 0, Some(x) => v@.len() > 0 && *x == v@.last() };
//@@ impl search/src/agenda/mod.rs <Agenda~for~VecDeque> push pop peek len
impl<I> Agenda for VecDeque<I> {
    type Item = I;
    open spec fn ok(&self) -> bool { true }
    open spec fn held(&self) -> Multiset<I> { self@.to_multiset() }
    // the least recently pushed is at the back
    open spec fn first(&self) -> Option<I> { if self@.len() == 0 { None } else { Some(self@.last()) } }
    open spec fn pushed(&self, x: I, post: &Self) -> bool { post@ == seq![x] + self@ }
    open spec fn popped(&self, post: &Self) -> bool { if self@.len() == 0 { post@ == self@ } else { post@ == self@.drop_last() } }
    open spec fn lossless() -> bool { true }
    proof fn push_law(&self, x: I, post: &Self) {
        broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
        vstd::seq_lib::lemma_multiset_commutative(seq![x], self@);
        assert(seq![x] =~= Seq::empty().push(x));
        assert(seq![x].to_multiset() =~= Multiset::empty().insert(x));
        assert(post@.to_multiset() =~= self@.to_multiset().insert(x));
    }
    proof fn pop_law(&self, post: &Self) {
        broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
        if self@.len() > 0 {
            assert(self@ =~= self@.drop_last().push(self@.last()));
            assert(self@.to_multiset() =~= post@.to_multiset().insert(self@.last()));
            assert(self@.to_multiset().remove(self@.last()) =~= post@.to_multiset());
        }
    }
    proof fn first_law(&self) { broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures; }
//@@ method search/src/agenda/mod.rs <Agenda~for~VecDeque>::push
//@ tail
    proof { assert(self@ =~= seq![element] + old(self)@); }
//@ params element
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~VecDeque>::pop
//@ ret r
//@ tail
    proof { if old(self)@.len() > 0 { assert(self@ =~= old(self)@.drop_last()); } }
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~VecDeque>::peek
//@ ret r
//@@ end
//@@ method search/src/agenda/mod.rs <Agenda~for~VecDeque>::len
//@ ret r
//@ start
    broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
//@@ end
}

// `collect` into a queue
fn vt_deque<T>(v: Vec<T>) -> (r: VecDeque<T>)
    ensures r@ == v@
{
    let mut r: VecDeque<T> = VecDeque::new();
    for x in it: v
        invariant it.seq() == v@, r@ == v@.take(it.index@)
    {
        proof { assert(v@.take(it.index@ + 1) =~= v@.take(it.index@).push(x)); }
        r.push_back(x);
    }
    assert(v@.take(v@.len() as int) =~= v@);
    r
}
