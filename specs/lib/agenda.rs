// ---- lib/agenda.rs: the interface of agendas, with its contract ----
// needs lib/seq.rs, lib/iter.rs
//@@ trait search/src/agenda/weighted.rs Weighted get_weight
pub trait Weighted: Sized {
    type Weight;
    // what the implementation relies on (clones equal to their originals)
    spec fn weighable() -> bool;
    spec fn weight(&self) -> Self::Weight;
    fn get_weight(&self) -> (r: Self::Weight)
        requires Self::weighable()
        ensures r == self.weight();
}

//@@ trait search/src/agenda/mod.rs Agenda push pop peek len is_empty extend
pub trait Agenda: Sized {
    type Item;
    // the order and clones of priorities are lawful; holds of every agenda in use
    spec fn ok(&self) -> bool;
    spec fn held(&self) -> Multiset<Self::Item>;
    // the element peek shows and pop takes
    spec fn first(&self) -> Option<Self::Item>;
    // the effect of a push and of a pop that answers `first`
    spec fn pushed(&self, x: Self::Item, post: &Self) -> bool;
    spec fn popped(&self, post: &Self) -> bool;
    spec fn lossless() -> bool;

    proof fn push_law(&self, x: Self::Item, post: &Self)
        requires self.ok(), self.pushed(x, post)
        ensures
            forall|y: Self::Item| #[trigger] post.held().count(y) <= self.held().insert(x).count(y),
            Self::lossless() ==> post.held() == self.held().insert(x);
    proof fn pop_law(&self, post: &Self)
        requires self.ok(), self.popped(post)
        ensures match self.first() { None => post.held() == self.held(), Some(x) => self.held().contains(x) && post.held() == self.held().remove(x) };
    proof fn first_law(&self)
        requires self.ok()
        ensures self.first() is None <==> self.held().len() == 0;

    fn push(&mut self, element: Self::Item)
        requires old(self).ok()
        ensures final(self).ok(), old(self).pushed(element, final(self));
    fn pop(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok()
        ensures final(self).ok(), r == old(self).first(), old(self).popped(final(self));
    fn peek(&self) -> (r: Option<&Self::Item>)
        requires self.ok()
        ensures match r { None => self.first() is None, Some(x) => self.first() == Some(*x) };
    fn len(&self) -> (r: usize)
        requires self.ok()
        ensures r == self.held().len();

//@@ method search/src/agenda/mod.rs Agenda::is_empty
//@ ret r
//@ requires self.ok()
//@ ensures r <==> self.held().len() == 0
//@@ end
}

// pushing the elements of s one after the other
pub open spec fn chain<A: Agenda>(t: Seq<A>, s: Seq<A::Item>) -> bool {
    &&& t.len() == s.len() + 1
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).ok()
    &&& forall|i: int| 0 <= i < s.len() ==> t[i].pushed(#[trigger] s[i], &t[i + 1])
}
pub open spec fn extended<A: Agenda>(a: A, s: Seq<A::Item>, b: A) -> bool { exists|t: Seq<A>| #[trigger] chain(t, s) && t[0] == a && t.last() == b }
proof fn chain_law<A: Agenda>(t: Seq<A>, s: Seq<A::Item>)
    requires chain(t, s)
    ensures
        forall|y: A::Item| #[trigger] t.last().held().count(y) <= t[0].held().add(s.to_multiset()).count(y),
        A::lossless() ==> t.last().held() == t[0].held().add(s.to_multiset()),
    decreases s.len()
{
    broadcast use group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 {
        assert(s.to_multiset() =~= Multiset::empty());
        assert(t.last().held() =~= t[0].held().add(s.to_multiset()));
    } else {
        let (a, b) = (t[0], t.last());
        let (m, x) = (t[t.len() - 2], s.last());
        assert(t.drop_last().last() == m && t.drop_last()[0] == a);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies t.drop_last()[i].pushed(#[trigger] s.drop_last()[i], &t.drop_last()[i + 1]) by { assert(s.drop_last()[i] == s[i]); }
        chain_law(t.drop_last(), s.drop_last());
        assert(m.pushed(s[s.len() - 1], &t[s.len() - 1 + 1]));
        m.push_law(x, &b);
        assert(s =~= s.drop_last().push(x));
        assert(s.to_multiset() =~= s.drop_last().to_multiset().insert(x));
        assert forall|y: A::Item| #[trigger] b.held().count(y) <= a.held().add(s.to_multiset()).count(y) by {
            assert(m.held().count(y) <= a.held().add(s.drop_last().to_multiset()).count(y));
            assert(b.held().count(y) <= m.held().insert(x).count(y));
        }
        if A::lossless() { assert(b.held() =~= a.held().add(s.to_multiset())); }
    }
}
proof fn extend_law<A: Agenda>(a: A, s: Seq<A::Item>, b: A)
    requires extended(a, s, b)
    ensures
        forall|y: A::Item| #[trigger] b.held().count(y) <= a.held().add(s.to_multiset()).count(y),
        A::lossless() ==> b.held() == a.held().add(s.to_multiset()),
{ chain_law(choose|t: Seq<A>| #[trigger] chain(t, s) && t[0] == a && t.last() == b, s); }

//@@ fn search/src/agenda/mod.rs Agenda::extend as vt_extend
//@ params elements
//@ forpat 0 element
//@ newparams self_: &mut A, elements: Vec<A::Item>
//@ addgeneric A: Agenda
//@ subst self =>> self_
//@ dropgeneric I
//@ requires old(self_).ok()
//@ ensures final(self_).ok(), extended(*old(self_), elements@, *final(self_))
//@ loop 0 for it
    invariant it.seq() == elements@, self_.ok(), chain(t, elements@.take(it.index@)), t[0] == *old(self_), t.last() == *self_
//@ loopstart 0
    broadcast use seq_facts;
    let ghost w = elements@.take(it.index@);
    proof { assert(element == elements@[it.index@]); assert(elements@.take(it.index@ + 1) =~= w.push(element)); }
//@ loopend 0
    proof {
        let u = t.push(*self_);
        assert forall|i: int| 0 <= i < w.push(element).len() implies u[i].pushed(#[trigger] w.push(element)[i], &u[i + 1]) by { if i < w.len() { assert(t[i].pushed(w[i], &t[i + 1])); } }
        assert(chain(u, w.push(element)));
        t = u;
    }
//@ before 0
    broadcast use seq_facts;
    let ghost mut t: Seq<A> = seq![*self_];
//@ after 0
    proof { assert(elements@.take(elements@.len() as int) =~= elements@); }
//@@ end
