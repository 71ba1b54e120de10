// ---- lib/namer.rs: closures that number values, or name numbers, with what they capture as fields (`lifted`) ----
trait Namer<A, B>: Sized {
    type V;
    // what has been numbered so far
    spec fn known(&self) -> Seq<Self::V>;
    spec fn able() -> bool;
    spec fn askable(k: Seq<Self::V>, a: A) -> bool;
    spec fn named(k: Seq<Self::V>, a: A, b: B) -> bool;
    // both borrow the same
    #[verifier::prophetic]
    spec fn tied(&self, post: &Self) -> bool;
    proof fn laws(k: Seq<Self::V>, l: Seq<Self::V>, a: A, b: B)
        requires begun(k, l)
        ensures Self::named(k, a, b) ==> Self::named(l, a, b), Self::askable(k, a) ==> Self::askable(l, a);
    proof fn tied_on_itself(&self)
        ensures self.tied(self);
    proof fn tied_on(&self, m: &Self, n: &Self)
        requires self.tied(m), m.tied(n)
        ensures self.tied(n);
    fn vt_call(&mut self, vt_arg: &A) -> (r: B)
        requires Self::able(), Self::askable(old(self).known(), *vt_arg)
        ensures
            Self::named(final(self).known(), *vt_arg, r), begun(old(self).known(), final(self).known()), distinct(old(self).known()) ==> distinct(final(self).known()),
            old(self).tied(final(self));
}
fn vt_call<A, B, F: Namer<A, B>>(f: &mut F, a: &A) -> (r: B)
    requires F::able(), F::askable(old(f).known(), *a)
    ensures
        F::named(final(f).known(), *a, r), begun(old(f).known(), final(f).known()), distinct(old(f).known()) ==> distinct(final(f).known()), old(f).tied(final(f)),
{ f.vt_call(a) }
// what a function made of f has done to it
#[verifier::prophetic]
spec fn moved_on<A, B, F: Namer<A, B>>(f: F, g: F) -> bool { begun(f.known(), g.known()) && (distinct(f.known()) ==> distinct(g.known())) && f.tied(&g) }
proof fn moves_on<A, B, F: Namer<A, B>>(f: F, g: F, h: F)
    requires moved_on(f, g), moved_on(g, h)
    ensures moved_on(f, h)
{ f.tied_on(&g, &h); }
spec fn named_in<A, B, F: Namer<A, B>>(k: Seq<F::V>) -> spec_fn(A, B) -> bool { |a: A, b: B| F::named(k, a, b) }
spec fn can_ask<A, B, F: Namer<A, B>>(k: Seq<F::V>) -> spec_fn(A) -> bool { |a: A| F::askable(k, a) }
proof fn still_named<A, B, F: Namer<A, B>>(k: Seq<F::V>, l: Seq<F::V>)
    requires begun(k, l)
    ensures within(named_in::<A, B, F>(k), named_in::<A, B, F>(l))
{ assert forall|a: A, b: B| #[trigger] named_in::<A, B, F>(k)(a, b) implies named_in::<A, B, F>(l)(a, b) by { F::laws(k, l, a, b); } }
