// ---- lib/naming.rs: the closure with which OWNER names numbers ----
// the closure that names numbers
#[verifier::reject_recursive_types(A)]
struct Naming<'a, A> { integeriser: &'a HashIntegeriser<A> }
impl<'a, A: Clone + Eq + Hash> Namer<usize, A> for Naming<'a, A> {
    type V = A;
    spec fn known(&self) -> Seq<A> { self.integeriser.known() }
    spec fn able() -> bool { HashIntegeriser::<A>::countable() }
    spec fn askable(k: Seq<A>, a: usize) -> bool { a < k.len() }
    spec fn named(k: Seq<A>, a: usize, b: A) -> bool { numbers(k, b, a) }
    #[verifier::prophetic]
    spec fn tied(&self, post: &Self) -> bool { self.integeriser == post.integeriser }
    proof fn laws(k: Seq<A>, l: Seq<A>, a: usize, b: A) {}
    proof fn tied_on_itself(&self) {}
    proof fn tied_on(&self, m: &Self, n: &Self) {}
//@@ lifted SOURCE <Integerisable1~for~OWNER>::un_integerise 0 integeriser=1
//@ newparams &mut self, vt_arg: &usize
//@ newret A
//@ ret r
//@@ end
}
