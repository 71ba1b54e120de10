// ---- lib/item_order.rs: the order of configurations, runs and items; needs lib/transition_order.rs, lib/pushdown.rs ----
// what deriving the order of pushdowns gives: the empty one first, then from the top down
pub open spec fn cmp_pushdowns<A: Ord>(a: Pushdown<A>, b: Pushdown<A>) -> Ordering
    decreases a
{
    match (a, b) {
        (Pushdown::Empty, Pushdown::Empty) => Ordering::Equal,
        (Pushdown::Empty, _) => Ordering::Less,
        (_, Pushdown::Empty) => Ordering::Greater,
        (Pushdown::Cons { value: v, below: p }, Pushdown::Cons { value: w, below: q }) => match OrdSpec::cmp_spec(&v, &w) { Ordering::Equal => cmp_pushdowns(*p, *q), x => x },
    }
}
impl<A: PartialEq> PartialEqSpecImpl for Pushdown<A> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
impl<A: PartialOrd> PartialOrdSpecImpl for Pushdown<A> {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { None }
}
impl<A: Ord> OrdSpecImpl for Pushdown<A> {
    open spec fn obeys_cmp_spec() -> bool { A::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { cmp_pushdowns(*self, *other) }
}
impl<A: PartialEq> PartialEq for Pushdown<A> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<A: Eq> Eq for Pushdown<A> {}
impl<A: PartialOrd> PartialOrd for Pushdown<A> {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
impl<A: Ord> Ord for Pushdown<A> {
    fn cmp(&self, other: &Self) -> (r: Ordering)
        decreases *self
    {
        match (self, other) {
            (Pushdown::Empty, Pushdown::Empty) => Ordering::Equal,
            (Pushdown::Empty, _) => Ordering::Less,
            (_, Pushdown::Empty) => Ordering::Greater,
            (Pushdown::Cons { value: v, below: p }, Pushdown::Cons { value: w, below: q }) => match v.cmp(w) { Ordering::Equal => (**p).cmp(&**q), x => x },
        }
    }
}
proof fn ranked<T: Ord>(a: T, b: T, c: T)
    requires lawful_ord::<T>()
    ensures
        OrdSpec::cmp_spec(&a, &a) == Ordering::Equal, OrdSpec::cmp_spec(&a, &b) == flip(OrdSpec::cmp_spec(&b, &a)), OrdSpec::cmp_spec(&b, &c) == flip(OrdSpec::cmp_spec(&c, &b)),
        OrdSpec::cmp_spec(&a, &c) == flip(OrdSpec::cmp_spec(&c, &a)),
        ord_le(a, b) && ord_le(b, c) ==> ord_le(a, c), ord_le(b, c) && ord_le(c, a) ==> ord_le(b, a), ord_le(c, a) && ord_le(a, b) ==> ord_le(c, b),
{}
proof fn pushdowns_ranked<A: Ord>(a: Pushdown<A>, b: Pushdown<A>, c: Pushdown<A>)
    requires lawful_ord::<A>()
    ensures
        cmp_pushdowns(a, a) == Ordering::Equal, cmp_pushdowns(a, b) == flip(cmp_pushdowns(b, a)),
        cmp_pushdowns(a, b) != Ordering::Greater && cmp_pushdowns(b, c) != Ordering::Greater ==> cmp_pushdowns(a, c) != Ordering::Greater,
    decreases a, b, c
{
    if a is Cons {
        pushdowns_ranked(rest(a), rest(a), rest(a));
        ranked(a->value, a->value, a->value);
        if b is Cons {
            pushdowns_ranked(rest(a), rest(b), rest(a));
            ranked(a->value, b->value, a->value);
            if c is Cons { pushdowns_ranked(rest(a), rest(b), rest(c)); ranked(a->value, b->value, c->value); }
        }
    }
}
spec fn rest<A>(a: Pushdown<A>) -> Pushdown<A> { match a { Pushdown::Cons { below, .. } => *below, x => x } }
proof fn pushdowns_lawful<A: Ord>() requires lawful_ord::<A>() ensures lawful_ord::<Pushdown<A>>()
{
    assert forall|a: Pushdown<A>| #[trigger] OrdSpec::cmp_spec(&a, &a) == Ordering::Equal by { pushdowns_ranked(a, a, a); }
    assert forall|a: Pushdown<A>, b: Pushdown<A>| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == flip(OrdSpec::cmp_spec(&b, &a)) by { pushdowns_ranked(a, b, a); }
    assert forall|a: Pushdown<A>, b: Pushdown<A>, c: Pushdown<A>| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) implies ord_le(a, c) by { pushdowns_ranked(a, b, c); }
}

// ---- configurations ----
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, x => x } }
pub open spec fn cmp_numbers(a: nat, b: nat) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl<S: PartialEq, T: PartialEq, W> PartialEqSpecImpl for Configuration<S, T, W> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
impl<S: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrdSpecImpl for Configuration<S, T, W> {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { None }
}
impl<S: Ord, T: Ord, W: Ord> OrdSpecImpl for Configuration<S, T, W> {
    open spec fn obeys_cmp_spec() -> bool { S::obeys_cmp_spec() && T::obeys_cmp_spec() && W::obeys_cmp_spec() }
    // by weight, then less to be read first, then by word, then by storage
    open spec fn cmp_spec(&self, other: &Self) -> Ordering {
        then(OrdSpec::cmp_spec(&self.weight, &other.weight),
            then(cmp_numbers(other.word@.len(), self.word@.len()),
                then(cmp_lists(self.word@, other.word@), OrdSpec::cmp_spec(&self.storage, &other.storage))))
    }
}
impl<S: PartialEq, T: PartialEq, W> PartialEq for Configuration<S, T, W> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<S: Eq, T: Eq, W> Eq for Configuration<S, T, W> {}
impl<S: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrd for Configuration<S, T, W> {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
//@@ impl src/recognisable/configuration.rs <Ord~for~Configuration> cmp
//@@ fn src/recognisable/configuration.rs <Ord~for~Configuration>::cmp
//@ implhead impl<S: Ord, T: Ord, W: Ord> Ord for Configuration<S, T, W>
//@@ end
proof fn configurations_lawful<S: Ord, T: Ord, W: Ord>()
    requires lawful_ord::<S>(), decides::<T>(), lawful_ord::<W>()
    ensures lawful_ord::<Configuration<S, T, W>>()
{
    assert forall|a: Configuration<S, T, W>| #[trigger] OrdSpec::cmp_spec(&a, &a) == Ordering::Equal by { lists_ordered(a.word@, a.word@, a.word@); ranked(a.weight, a.weight, a.weight); ranked(a.storage, a.storage, a.storage); }
    assert forall|a: Configuration<S, T, W>, b: Configuration<S, T, W>| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == flip(OrdSpec::cmp_spec(&b, &a)) by { lists_ordered(a.word@, b.word@, a.word@); ranked(a.weight, b.weight, a.weight); ranked(a.storage, b.storage, a.storage); }
    assert forall|a: Configuration<S, T, W>, b: Configuration<S, T, W>, c: Configuration<S, T, W>| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) implies ord_le(a, c) by {
        lists_ordered(a.word@, b.word@, c.word@); lists_ordered(b.word@, c.word@, a.word@); lists_ordered(c.word@, a.word@, b.word@); lists_ordered(a.word@, c.word@, b.word@);
        ranked(a.weight, b.weight, c.weight); ranked(a.storage, b.storage, c.storage);
    }
}

// ---- items ----
//@@ type src/recognisable/mod.rs Item
//@ derives PartialEq Eq PartialOrd Ord
//@ public
//@@ end
impl<S: PartialEq, I: PartialEq, T: PartialEq, W: PartialEq> PartialEqSpecImpl for Item<S, I, T, W> {
    open spec fn obeys_eq_spec() -> bool { false }
    open spec fn eq_spec(&self, other: &Self) -> bool { true }
}
impl<S: PartialOrd, I: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrdSpecImpl for Item<S, I, T, W> {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { None }
}
impl<S: Ord, I: Ord, T: Ord, W: Ord> OrdSpecImpl for Item<S, I, T, W> {
    open spec fn obeys_cmp_spec() -> bool { S::obeys_cmp_spec() && I::obeys_cmp_spec() && T::obeys_cmp_spec() && W::obeys_cmp_spec() }
    // by configuration, then by run
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { then(OrdSpec::cmp_spec(&self.0, &other.0), OrdSpec::cmp_spec(&self.1, &other.1)) }
}
impl<S: PartialEq, I: PartialEq, T: PartialEq, W: PartialEq> PartialEq for Item<S, I, T, W> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl<S: Eq, I: Eq, T: Eq, W: Eq> Eq for Item<S, I, T, W> {}
impl<S: PartialOrd, I: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrd for Item<S, I, T, W> {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
impl<S: Ord, I: Ord, T: Ord, W: Ord> Ord for Item<S, I, T, W> {
    fn cmp(&self, other: &Self) -> (r: Ordering) { match self.0.cmp(&other.0) { Ordering::Equal => self.1.cmp(&other.1), x => x } }
}
proof fn items_lawful<S: Ord, I: Ord, T: Ord, W: Ord>()
    requires lawful_ord::<S>(), decides::<I>(), decides::<T>(), decides::<W>()
    ensures
        lawful_ord::<Item<S, I, T, W>>(),
        forall|a: Item<S, I, T, W>, b: Item<S, I, T, W>| #[trigger] ord_le(a, b) ==> ord_le(a.0.weight, b.0.weight),
{
    transitions_ordered::<I, T, W>();
    pushdowns_lawful::<Transition<I, T, W>>();
    configurations_lawful::<S, T, W>();
    assert forall|a: Item<S, I, T, W>| #[trigger] OrdSpec::cmp_spec(&a, &a) == Ordering::Equal by { ranked(a.0, a.0, a.0); ranked(a.1, a.1, a.1); }
    assert forall|a: Item<S, I, T, W>, b: Item<S, I, T, W>| (#[trigger] OrdSpec::cmp_spec(&a, &b)) == flip(OrdSpec::cmp_spec(&b, &a)) by { ranked(a.0, b.0, a.0); ranked(a.1, b.1, a.1); }
    assert forall|a: Item<S, I, T, W>, b: Item<S, I, T, W>, c: Item<S, I, T, W>| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) implies ord_le(a, c) by { ranked(a.0, b.0, c.0); ranked(a.1, b.1, c.1); }
}
