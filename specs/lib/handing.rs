// ---- lib/handing.rs: the adapters of std on lazy iterators; needs lib/handed.rs and lib/search.rs ----
// the states of a search's agenda while it hands out `out`
spec fn searched<A: Agenda, S: Fn(&A::Item) -> Vec<A::Item>>(t: Seq<A>, f: S, out: Seq<A::Item>, ended: bool) -> bool {
    &&& t.len() == out.len() + 1
    &&& forall|i: int| 0 <= i < out.len() ==> #[trigger] answered(t, f, out, i)
    &&& ended ==> t.last().held().len() == 0
}
spec fn answered<A: Agenda, S: Fn(&A::Item) -> Vec<A::Item>>(t: Seq<A>, f: S, out: Seq<A::Item>, i: int) -> bool {
    t[i + 1].ok() && exists|succ: Vec<A::Item>| #[trigger] call_ensures(f, (&out[i],), succ) && step(t[i], out[i], succ@, t[i + 1])
}
impl<A: Agenda, S: Fn(&A::Item) -> Vec<A::Item>> Handing for Search<A, S> {
    type Item = A::Item;
    spec fn ready(&self) -> bool { self.agenda.ok() && forall|x: A::Item| call_requires(self.successors, (&x,)) }
    spec fn hands(&self, out: Seq<A::Item>, ended: bool) -> bool { exists|t: Seq<A>| #[trigger] searched(t, self.successors, out, ended) && t[0] == self.agenda }
    spec fn fused() -> bool { true }
    proof fn nothing_yet(&self) { let t = seq![self.agenda]; assert(searched(t, self.successors, Seq::empty(), false)); }
    fn next(&mut self) -> (r: Option<A::Item>) {
        let r = Search::next(self);
        proof {
            match &r {
                None => {
                    let t = seq![old(self).agenda];
                    assert(searched(t, old(self).successors, Seq::empty(), true));
                    assert forall|out: Seq<A::Item>, ended: bool| #[trigger] self.hands(out, ended) implies out.len() == 0 by {
                        let u = choose|t: Seq<A>| #[trigger] searched(t, self.successors, out, ended) && t[0] == self.agenda;
                        if out.len() > 0 { assert(answered(u, self.successors, out, 0)); self.agenda.first_law(); }
                    }
                }
                Some(y) => {
                    let x = *y;
                    assert forall|out: Seq<A::Item>, ended: bool| self.hands(out, ended) implies #[trigger] old(self).hands(seq![x] + out, ended) by {
                        let u = choose|t: Seq<A>| #[trigger] searched(t, self.successors, out, ended) && t[0] == self.agenda;
                        let t = seq![old(self).agenda] + u;
                        let o = seq![x] + out;
                        assert forall|i: int| 0 <= i < o.len() implies #[trigger] answered(t, self.successors, o, i) by {
                            if i > 0 { assert(answered(u, self.successors, out, i - 1)); assert(t[i] == u[i - 1] && t[i + 1] == u[i] && o[i] == out[i - 1]); } else { assert(t[1] == self.agenda && o[0] == x); }
                        }
                        assert(t.last() == u.last());
                        assert(searched(t, self.successors, o, ended));
                    }
                }
            }
        }
        r
    }
}
#[verifier::reject_recursive_types(F)]
pub struct Filtered<I, F> { inner: I, keep: F }
impl<I: Handing, F: Fn(&I::Item) -> bool> Handing for Filtered<I, F> {
    type Item = I::Item;
    spec fn ready(&self) -> bool { self.inner.ready() && forall|x: I::Item| call_requires(self.keep, (&x,)) }
    spec fn hands(&self, out: Seq<I::Item>, ended: bool) -> bool { exists|raw: Seq<I::Item>| #[trigger] self.inner.hands(raw, ended) && kept(self.keep, raw, out) }
    spec fn fused() -> bool { I::fused() }
    proof fn nothing_yet(&self) { self.inner.nothing_yet(); }
    #[verifier::exec_allows_no_decreases_clause]
    fn next(&mut self) -> (r: Option<I::Item>) {
        let ghost mut dropped: Seq<I::Item> = Seq::empty();
        proof { assert forall|out: Seq<I::Item>| dropped + out == out by { assert(dropped + out =~= out); } }
        loop
            invariant
                self.ready(), self.keep == old(self).keep, kept(self.keep, dropped, Seq::empty()),
                forall|out: Seq<I::Item>, ended: bool| self.inner.hands(out, ended) ==> #[trigger] old(self).inner.hands(dropped + out, ended),
        {
            let ghost here = self.inner;
            match self.inner.next() {
                None => {
                    proof { assert(dropped + Seq::empty() =~= dropped); assert(here.hands(Seq::empty(), true)); assert(old(self).inner.hands(dropped + Seq::empty(), true)); }
                    return None;
                }
                Some(x) => {
                    let ghost more = dropped.push(x);
                    proof {
                        assert(more.drop_last() =~= dropped && more.last() == x);
                        assert forall|out: Seq<I::Item>, ended: bool| self.inner.hands(out, ended) implies #[trigger] old(self).inner.hands(more + out, ended) by {
                            assert(here.hands(seq![x] + out, ended));
                            assert(dropped + (seq![x] + out) =~= more + out);
                            assert(old(self).inner.hands(dropped + (seq![x] + out), ended));
                        }
                    }
                    if (self.keep)(&x) {
                        proof {
                            assert forall|out: Seq<I::Item>, ended: bool| self.hands(out, ended) implies #[trigger] old(self).hands(seq![x] + out, ended) by {
                                let raw = choose|raw: Seq<I::Item>| #[trigger] self.inner.hands(raw, ended) && kept(self.keep, raw, out);
                                assert(old(self).inner.hands(more + raw, ended));
                                kept_after(self.keep, dropped, x, raw, out);
                            }
                        }
                        return Some(x);
                    }
                    proof { dropped = more; }
                }
            }
        }
    }
}
// x is the first element kept
proof fn kept_after<T, F: Fn(&T) -> bool>(f: F, d: Seq<T>, x: T, raw: Seq<T>, out: Seq<T>)
    requires kept(f, d, Seq::empty()), call_ensures(f, (&x,), true), kept(f, raw, out)
    ensures kept(f, d.push(x) + raw, seq![x] + out)
    decreases raw.len()
{
    let v = d.push(x) + raw;
    if raw.len() == 0 {
        assert(v =~= d.push(x));
        assert(v.drop_last() =~= d);
        assert(out =~= Seq::empty());
        assert((seq![x] + out).drop_last() =~= Seq::empty());
        assert((seq![x] + out).last() == x);
    } else {
        assert(v.drop_last() =~= d.push(x) + raw.drop_last());
        assert(v.last() == raw.last());
        if call_ensures(f, (&raw.last(),), true) && out.len() > 0 && out.last() == raw.last() && kept(f, raw.drop_last(), out.drop_last()) {
            kept_after(f, d, x, raw.drop_last(), out.drop_last());
            assert((seq![x] + out).drop_last() =~= seq![x] + out.drop_last());
            assert((seq![x] + out).last() == out.last());
        } else { kept_after(f, d, x, raw.drop_last(), out); }
    }
}
fn vt_filtered<I: Handing, F: Fn(&I::Item) -> bool>(inner: I, keep: F) -> (r: Filtered<I, F>) ensures r.inner == inner, r.keep == keep { Filtered { inner, keep } }
#[verifier::reject_recursive_types(F)]
pub struct Mapped<I, F> { inner: I, show: F }
spec fn all_shown<T, U, F: Fn(T) -> U>(f: F, raw: Seq<T>, out: Seq<U>) -> bool { raw.len() == out.len() && forall|i: int| #![trigger raw[i]] #![trigger out[i]] 0 <= i < out.len() ==> call_ensures(f, (raw[i],), out[i]) }
// whatever is handed out can be shown
spec fn can_show<U, I: Handing, F: Fn(I::Item) -> U>(inner: I, show: F) -> bool {
    I::fused() && forall|out: Seq<I::Item>, ended: bool, i: int| #![trigger inner.hands(out, ended), out[i]] inner.hands(out, ended) && 0 <= i < out.len() ==> call_requires(show, (out[i],))
}
proof fn next_can_show<U, I: Handing, F: Fn(I::Item) -> U>(inner: I, show: F, x: I::Item, next: I)
    requires can_show(inner, show), next.ready(), forall|out: Seq<I::Item>, ended: bool| next.hands(out, ended) ==> #[trigger] inner.hands(seq![x] + out, ended)
    ensures can_show(next, show), call_requires(show, (x,))
{
    next.nothing_yet();
    let none = Seq::<I::Item>::empty();
    assert(inner.hands(seq![x] + none, false));
    assert((seq![x] + none)[0] == x);
    assert forall|out: Seq<I::Item>, ended: bool, i: int| #![trigger next.hands(out, ended), out[i]] next.hands(out, ended) && 0 <= i < out.len() implies call_requires(show, (out[i],)) by {
        assert(inner.hands(seq![x] + out, ended));
        assert((seq![x] + out)[i + 1] == out[i]);
    }
}
impl<U, I: Handing, F: Fn(I::Item) -> U> Handing for Mapped<I, F> {
    type Item = U;
    spec fn ready(&self) -> bool { self.inner.ready() && can_show(self.inner, self.show) }
    spec fn hands(&self, out: Seq<U>, ended: bool) -> bool { exists|raw: Seq<I::Item>| #[trigger] self.inner.hands(raw, ended) && all_shown(self.show, raw, out) }
    spec fn fused() -> bool { true }
    proof fn nothing_yet(&self) { self.inner.nothing_yet(); assert(all_shown(self.show, Seq::<I::Item>::empty(), Seq::<U>::empty())); }
    fn next(&mut self) -> (r: Option<U>) {
        let ghost here = self.inner;
        match self.inner.next() {
            None => {
                proof {
                    assert(all_shown(self.show, Seq::<I::Item>::empty(), Seq::<U>::empty()));
                }
                None
            }
            Some(x) => {
                proof { next_can_show(here, self.show, x, self.inner); }
                let y = (self.show)(x);
                proof {
                    assert forall|out: Seq<U>, ended: bool| self.hands(out, ended) implies #[trigger] old(self).hands(seq![y] + out, ended) by {
                        let raw = choose|raw: Seq<I::Item>| #[trigger] self.inner.hands(raw, ended) && all_shown(self.show, raw, out);
                        assert(old(self).inner.hands(seq![x] + raw, ended));
                        assert forall|i: int| 0 <= i < out.len() + 1 implies call_ensures(self.show, (#[trigger] (seq![x] + raw)[i],), (seq![y] + out)[i]) by { if i > 0 { assert(call_ensures(self.show, (raw[i - 1],), out[i - 1])); } }
                        assert(all_shown(self.show, seq![x] + raw, seq![y] + out));
                    }
                }
                Some(y)
            }
        }
    }
}
// `map` on whatever it is called on
trait VtMap<F>: Sized {
    type Out;
    spec fn mappable(&self, f: F) -> bool;
    spec fn mapped(&self, f: F, r: Self::Out) -> bool;
    fn vt_map_by(self, f: F) -> (r: Self::Out)
        requires self.mappable(f)
        ensures self.mapped(f, r);
}
impl<T, U, F: Fn(T) -> U> VtMap<F> for Option<T> {
    type Out = Option<U>;
    spec fn mappable(&self, f: F) -> bool { match *self { Some(x) => call_requires(f, (x,)), None => true } }
    spec fn mapped(&self, f: F, r: Option<U>) -> bool { match *self { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None } }
    fn vt_map_by(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}
impl<T, U, F: Fn(T) -> U> VtMap<F> for Vec<T> {
    type Out = Vec<U>;
    spec fn mappable(&self, f: F) -> bool { forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)) }
    spec fn mapped(&self, f: F, r: Vec<U>) -> bool { all_shown(f, self@, r@) }
    fn vt_map_by(self, f: F) -> (r: Vec<U>) { vt_map(self, f) }
}
impl<T, J: Handing<Item = T>, K, U, F: Fn(T) -> U> VtMap<F> for Filtered<J, K> where K: Fn(&T) -> bool {
    type Out = Mapped<Filtered<J, K>, F>;
    spec fn mappable(&self, f: F) -> bool { true }
    spec fn mapped(&self, f: F, r: Mapped<Filtered<J, K>, F>) -> bool { r.inner == *self && r.show == f }
    fn vt_map_by(self, f: F) -> (r: Mapped<Filtered<J, K>, F>) { Mapped { inner: self, show: f } }
}
