// ---- lib/numbering.rs: the closure with which OWNER numbers values ----
// the closure that numbers values
#[verifier::reject_recursive_types(A)]
struct Numbering<'a, A> { integeriser: &'a mut HashIntegeriser<A> }
impl<'a, A: Clone + Eq + Hash> Namer<A, usize> for Numbering<'a, A> {
    type V = A;
    spec fn known(&self) -> Seq<A> { self.integeriser.known() }
    spec fn able() -> bool { HashIntegeriser::<A>::countable() }
    spec fn askable(k: Seq<A>, a: A) -> bool { true }
    spec fn named(k: Seq<A>, a: A, b: usize) -> bool { numbers(k, a, b) }
    #[verifier::prophetic]
    spec fn tied(&self, post: &Self) -> bool { *final(self.integeriser) == *final(post.integeriser) }
    proof fn laws(k: Seq<A>, l: Seq<A>, a: A, b: usize) {}
    proof fn tied_on_itself(&self) {}
    proof fn tied_on(&self, m: &Self, n: &Self) {}
//@@ lifted SOURCE <Integerisable1~for~OWNER>::integerise 0 integeriser=0
//@ newparams &mut self, vt_arg: &A
//@ newret usize
//@ ret r
//@@ end
}
