// ---- lib/transition_order.rs: equality and order of transitions; needs lib/std.rs, lib/ord.rs, lib/transition.rs ----
// comparing position by position, a proper beginning is less (std's order of lists)
pub open spec fn cmp_lists<T: Ord>(a: Seq<T>, b: Seq<T>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { match OrdSpec::cmp_spec(&a[0], &b[0]) { Ordering::Equal => cmp_lists(a.skip(1), b.skip(1)), x => x } }
}
pub assume_specification<T: Ord, A: std::alloc::Allocator>[<Vec<T, A> as Ord>::cmp](a: &Vec<T, A>, b: &Vec<T, A>) -> (r: Ordering)
    ensures T::obeys_cmp_spec() ==> r == cmp_lists(a@, b@);
// the order decides equality
pub open spec fn decides<T: Ord>() -> bool { lawful_ord::<T>() && forall|a: T, b: T| #[trigger] OrdSpec::cmp_spec(&a, &b) == Ordering::Equal ==> a == b }

// equality and the partial order are not used here
impl<I: PartialEq, T: PartialEq, W> PartialEqSpecImpl for Transition<I, T, W> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
impl<I: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrdSpecImpl for Transition<I, T, W> {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { None }
}
impl<I: Ord, T: Ord, W: Ord> OrdSpecImpl for Transition<I, T, W> {
    open spec fn obeys_cmp_spec() -> bool { I::obeys_cmp_spec() && T::obeys_cmp_spec() && W::obeys_cmp_spec() }
    // by weight, then by word, then by instruction
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        match OrdSpec::cmp_spec(&self.weight, &other.weight) {
            Ordering::Equal => match cmp_lists(self.word@, other.word@) { Ordering::Equal => OrdSpec::cmp_spec(&self.instruction, &other.instruction), x => x },
            x => x,
        }
    }
}
impl<I: PartialEq, T: PartialEq, W> PartialEq for Transition<I, T, W> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<I: Eq, T: Eq, W> Eq for Transition<I, T, W> {}
impl<I: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrd for Transition<I, T, W> {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
//@@ impl src/recognisable/transition.rs <Ord~for~Transition> cmp
//@@ fn src/recognisable/transition.rs <Ord~for~Transition>::cmp
//@ implhead impl<I: Ord, T: Ord, W: Ord> Ord for Transition<I, T, W>
//@@ end

proof fn lists_ordered<T: Ord>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires decides::<T>()
    ensures
        cmp_lists(a, a) == Ordering::Equal, cmp_lists(a, b) == flip(cmp_lists(b, a)), cmp_lists(a, b) == Ordering::Equal ==> a == b,
        cmp_lists(a, b) != Ordering::Greater && cmp_lists(b, c) != Ordering::Greater ==> cmp_lists(a, c) != Ordering::Greater,
    decreases a.len() + b.len() + c.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lists_ordered(a.skip(1), b.skip(1), c.skip(1)); compared(a[0], b[0], c[0]); }
    if a.len() > 0 { lists_ordered(a.skip(1), Seq::empty(), Seq::empty()); }
    if a.len() > 0 && b.len() > 0 { lists_ordered(a.skip(1), b.skip(1), Seq::empty()); compared(a[0], b[0], a[0]); if cmp_lists(a, b) == Ordering::Equal { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn compared<T: Ord>(a: T, b: T, c: T)
    requires decides::<T>()
    ensures
        OrdSpec::cmp_spec(&a, &a) == Ordering::Equal, OrdSpec::cmp_spec(&a, &b) == flip(OrdSpec::cmp_spec(&b, &a)), OrdSpec::cmp_spec(&a, &b) == Ordering::Equal ==> a == b,
        ord_le(a, b) && ord_le(b, c) ==> ord_le(a, c),
{}
// transitions are alike when nothing but the representation of their words differs
pub open spec fn alike<I, T, W>(a: Transition<I, T, W>, b: Transition<I, T, W>) -> bool { a.word@ == b.word@ && a.weight == b.weight && a.instruction == b.instruction }
proof fn transitions_ordered<I: Ord, T: Ord, W: Ord>()
    requires decides::<I>(), decides::<T>(), decides::<W>()
    ensures
        lawful_ord::<Transition<I, T, W>>(),
        forall|a: Transition<I, T, W>, b: Transition<I, T, W>| #[trigger] OrdSpec::cmp_spec(&a, &b) == Ordering::Equal <==> alike(a, b),
{
    assert forall|a: Transition<I, T, W>| #[trigger] OrdSpec::cmp_spec(&a, &a) == Ordering::Equal by { lists_ordered(a.word@, a.word@, a.word@); }
    assert forall|a: Transition<I, T, W>, b: Transition<I, T, W>| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == flip(OrdSpec::cmp_spec(&b, &a)) by {
        lists_ordered(a.word@, b.word@, a.word@); compared(a.weight, b.weight, a.weight); compared(a.instruction, b.instruction, a.instruction);
    }
    assert forall|a: Transition<I, T, W>, b: Transition<I, T, W>| #[trigger] OrdSpec::cmp_spec(&a, &b) == Ordering::Equal <==> alike(a, b) by {
        lists_ordered(a.word@, b.word@, a.word@); compared(a.weight, b.weight, a.weight); compared(a.instruction, b.instruction, a.instruction);
    }
    assert forall|a: Transition<I, T, W>, b: Transition<I, T, W>, c: Transition<I, T, W>| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) implies ord_le(a, c) by {
        lists_ordered(a.word@, b.word@, c.word@); lists_ordered(b.word@, c.word@, a.word@);
        compared(a.weight, b.weight, c.weight); compared(b.weight, c.weight, a.weight); compared(c.weight, a.weight, b.weight);
        compared(a.instruction, b.instruction, c.instruction);
        lists_ordered(c.word@, a.word@, b.word@); lists_ordered(a.word@, c.word@, b.word@);
    }
}
