// C26: coarse-to-fine recognition.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Ordering;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::slice::Iter;
use std::vec::IntoIter;
use std::marker::PhantomData;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/heap.rs
//@@ include lib/chain.rs
//@@ include lib/bind.rs
//@@ include lib/single.rs
//@@ include lib/handed.rs
//@@ include lib/strategy.rs
//@@ include lib/transition.rs
//@@ include lib/transition_order.rs
//@@ include lib/clones.rs
//@@ include lib/pushdown.rs
//@@ include lib/item_order.rs
//@@ include lib/strategies.rs
//@@ include lib/approximation.rs

//@@ trait search/src/agenda/weighted.rs Weighted get_weight
pub trait Weighted: Sized {
    type Weight;
    // what the implementation relies on (clones equal to their originals)
    spec fn weighable() -> bool;
    spec fn weight(&self) -> Self::Weight;
    fn get_weight(&self) -> (r: Self::Weight)
        requires Self::weighable()
        ensures r == self.weight();
}
//@@ impl src/recognisable/mod.rs <Weighted~for~Item> get_weight
impl<S, I: Instruction<Storage = S>, T, W: Clone> Weighted for Item<S, I, T, W> {
    type Weight = W;
    open spec fn weighable() -> bool { faithful::<W>() }
    open spec fn weight(&self) -> W { self.0.weight }
//@@ method src/recognisable/mod.rs <Weighted~for~Item>::get_weight
//@ ret r
//@@ end
}

// ---- what a run comes to ----
// where the transitions ts lead, each of the alternatives
spec fn reach<I: Instruction, T, W>(ts: Seq<Transition<I, T, W>>, a: I::Shape) -> Seq<I::Shape>
    decreases ts.len()
{ if ts.len() == 0 { seq![a] } else { concat(reach(ts.drop_last(), a).map_values(|b: I::Shape| ts.last().instruction.leads(b))) } }
spec fn product<I, T, W: MulAssign + One>(ts: Seq<Transition<I, T, W>>) -> W
    decreases ts.len()
{ if ts.len() == 0 { W::unit() } else { *product(ts.drop_last()).mul_assign_spec(ts.last().weight) } }
spec fn multiplies<W: MulAssign>() -> bool { W::obeys_mul_assign_spec() && forall|a: W, b: W| #[trigger] a.mul_assign_req(b) }
pub ghost struct Made<A, I, T, W> { pub run: Seq<Transition<I, T, W>>, pub shape: A, pub weight: W, pub word: Seq<T> }
spec fn made<I: Instruction, T, W>(x: Item<I::Storage, I, T, W>) -> Made<I::Shape, I, T, W> { Made { run: held(x.1), shape: I::shape(x.0.storage), weight: x.0.weight, word: x.0.word@ } }
spec fn results<I: Instruction, T, W: MulAssign + One>(ts: Seq<Transition<I, T, W>>, a: I::Shape) -> Seq<Made<I::Shape, I, T, W>> {
    reach(ts, a).map_values(|b: I::Shape| Made { run: ts, shape: b, weight: product(ts), word: Seq::empty() })
}
spec fn roomy<I: Instruction, T, W>(ts: Seq<Transition<I, T, W>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).instruction.room() }
// storages in which instructions see what a says
spec fn seen_as<I: Instruction>(v: Seq<I::Storage>, a: Seq<I::Shape>) -> bool { v.len() == a.len() && forall|k: int| 0 <= k < v.len() ==> I::sound(#[trigger] v[k]) && I::shape(v[k]) == a[k] }
fn vt_held<A: Clone>(p: &Pushdown<A>) -> (r: Vec<A>) requires faithful::<A>() ensures r@ == held(*p) { p.to_vec() }
//@@ fn src/recognisable/automaton.rs Automaton::check_run
//@ implhead trait Checking<T: Clone, W: Clone + MulAssign + One>: Automaton<T, W> where Self::I: Clone
//@ params run
//@ ret r
//@ mapmethod iter vt_held &
//@ mapmethod into_iter vt_collect
//@ mapmethod map vt_map
//@ mapmethod collect vt_collect
//@ local result 0
//@ local weight 1
//@ forpat 0 t
//@ forpat 1 s
//@ local new_storages 2
//@ requires faithful::<Transition<Self::I, T, W>>(), faithful::<W>(), multiplies::<W>(), Self::I::sound(self.begin()), roomy(held(run))
//@ ensures r@.map_values(|x: Item<<Self::I as Instruction>::Storage, Self::I, T, W>| made::<Self::I, T, W>(x)) == results(held(run), Self::I::shape(self.begin()))
//@ tail
    proof {
        let (x, y) = (result__@.map_values(|x: Item<<Self::I as Instruction>::Storage, Self::I, T, W>| made::<Self::I, T, W>(x)), results(held(run), a));
        assert(x.len() == y.len());
        assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { }
        assert(x =~= y);
    }
//@ closure 0 (s: <Self::I as Instruction>::Storage) -> (x: Item<<Self::I as Instruction>::Storage, Self::I, T, W>)
    requires faithful::<Transition<Self::I, T, W>>(), faithful::<W>()
    ensures carries(x, s, &weight, &run)
//@ start
    let ghost a = Self::I::shape(self.begin());
    proof { assert(held(run).take(0) =~= Seq::empty()); assert(held(run).take(held(run).len() as int) =~= held(run)); }
//@ loop 0 for it
    invariant
        it.seq() == held(run), a == Self::I::shape(self.begin()), roomy(held(run)), faithful::<W>(), multiplies::<W>(),
        weight == product(held(run).take(it.index@)), seen_as::<Self::I>(result@, reach(held(run).take(it.index@), a)),
//@ loopstart 0
    let ghost (w0, before) = (weight, result@);
    let ghost (ts, n) = (held(run), it.index@);
    let ghost bs = reach(ts.take(n), a);
    proof { assert(t == ts[n]); assert(ts.take(n + 1).drop_last() =~= ts.take(n)); assert(ts.take(n + 1).last() == t); }
//@ loopend 0
    proof { assert(bs.take(bs.len() as int) =~= bs); }
//@ loop 1 for it1
    invariant
        it1.seq() == before, t.instruction.room(), seen_as::<Self::I>(before, bs),
        seen_as::<Self::I>(new_storages@, concat(bs.take(it1.index@).map_values(|b: <Self::I as Instruction>::Shape| t.instruction.leads(b)))),
//@ loopstart 1
    let ghost new0 = new_storages@;
    let ghost m = it1.index@;
    let ghost g = |b: <Self::I as Instruction>::Shape| t.instruction.leads(b);
    proof {
        assert(s == before[m]);
        let (v, w) = (bs.take(m + 1).map_values(g), bs.take(m).map_values(g));
        assert(v.drop_last() =~= w);
        assert(v.last() == g(bs[m]));
    }
//@@ end
impl<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>> Checking<T, W> for A where A::I: Clone {}
spec fn carries<S, I, T, W>(x: Item<S, I, T, W>, s: S, w: &W, run: &Pushdown<Transition<I, T, W>>) -> bool { x.0.storage == s && x.0.weight == *w && x.0.word@ == Seq::<T>::empty() && x.1 == *run }

// ---- the parses that are refined ----
type Coarse<S, T, W> = Item<<<S as ApproximationStrategy<T, W>>::I2 as Instruction>::Storage, <S as ApproximationStrategy<T, W>>::I2, T, W>;
type Fine<S, T, W> = Item<<<S as ApproximationStrategy<T, W>>::I1 as Instruction>::Storage, <S as ApproximationStrategy<T, W>>::I1, T, W>;
type FineMade<S, T, W> = Made<<<S as ApproximationStrategy<T, W>>::I1 as Instruction>::Shape, <S as ApproximationStrategy<T, W>>::I1, T, W>;
//@@ type src/recognisable/coarse_to_fine.rs CoarseToFineParseForest
//@ subst CoarseToFineParseForest<'a, Rec, Strategy, T, W> =>> CoarseToFineParseForest<J, Rec, Strategy, T, W>
//@ subst Box<dyn Iterator<Item = Item<<Strategy::I2 as Instruction>::Storage, Strategy::I2, T, W>> + 'a> =>> J
//@ subst 'a + =>>
//@ attr #[verifier::reject_recursive_types(J)]
//@ attr #[verifier::reject_recursive_types(T)]
//@ attr #[verifier::reject_recursive_types(W)]
//@@ end
impl<J: Handing<Item = Coarse<S, T, W>>, Rec: Automaton<T, W>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineParseForest<J, Rec, S, T, W> {
    // the parses that are still to be refined
    spec fn inputs(&self, raw: Seq<Coarse<S, T, W>>, ended: bool) -> bool {
        match self.input_buffer {
            None => self.sublevel_parses.hands(raw, ended),
            Some(None) => raw.len() == 0,
            Some(Some(x)) => if raw.len() == 0 { !ended } else { raw[0] == x && self.sublevel_parses.hands(raw.skip(1), ended) },
        }
    }
    spec fn fed_from(&self, o: &Self, before: Seq<Coarse<S, T, W>>) -> bool {
        &&& self.sublevel_parses.ready()
        &&& self.recogniser == o.recogniser && self.approximation_instance == o.approximation_instance
        &&& forall|raw: Seq<Coarse<S, T, W>>, ended: bool| self.inputs(raw, ended) ==> #[trigger] o.inputs(before + raw, ended)
        &&& self.input_buffer == Some(None::<Coarse<S, T, W>>) ==> o.inputs(before, true)
    }
}
//@@ fn src/recognisable/coarse_to_fine.rs CoarseToFineParseForest::peek_input
//@ implhead impl<J: Handing<Item = Coarse<Strategy, T, W>>, Rec: Automaton<T, W>, Strategy: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineParseForest<J, Rec, Strategy, T, W>
//@ ret r
//@ requires old(self).sublevel_parses.ready()
//@ ensures
    final(self).fed_from(old(self), Seq::empty()), final(self).output_buffer == old(self).output_buffer,
    match r { Some(x) => final(self).input_buffer == Some(Some(*x)), None => final(self).input_buffer == Some(None::<Coarse<Strategy, T, W>>) },
//@ start
    broadcast use {none_before, one_before, one_taken};
    proof { self.sublevel_parses.nothing_yet(); }
//@@ end
//@@ fn src/recognisable/coarse_to_fine.rs CoarseToFineParseForest::next_input
//@ implhead impl<J: Handing<Item = Coarse<Strategy, T, W>>, Rec: Automaton<T, W>, Strategy: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineParseForest<J, Rec, Strategy, T, W>
//@ ret r
//@ requires old(self).sublevel_parses.ready()
//@ ensures
    final(self).output_buffer == old(self).output_buffer,
    match r { Some(x) => final(self).fed_from(old(self), seq![x]), None => final(self).fed_from(old(self), Seq::empty()) && final(self).input_buffer == Some(None::<Coarse<Strategy, T, W>>) },
    old(self).input_buffer matches Some(x) ==> r == x,
//@ start
    broadcast use {none_before, one_before, one_taken};
    proof { self.sublevel_parses.nothing_yet(); }
//@@ end
broadcast proof fn none_before<T>(b: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + b) == b { assert(Seq::empty() + b =~= b); }
broadcast proof fn one_before<T>(a: Seq<T>, b: Seq<T>) ensures a.len() == 1 ==> (#[trigger] (a + b)).skip(1) == b { if a.len() == 1 { assert((a + b).skip(1) =~= b); } }
broadcast proof fn one_taken<T>(a: Seq<T>) ensures a.len() > 0 ==> seq![a[0]] + (#[trigger] a.skip(1)) == a { if a.len() > 0 { assert(seq![a[0]] + a.skip(1) =~= a); } }

spec fn same_order<W: Ord>() -> bool { W::obeys_partial_cmp_spec() && forall|a: W, b: W| #![trigger a.partial_cmp_spec(&b)] a.partial_cmp_spec(&b) == Some(OrdSpec::cmp_spec(&a, &b)) }
spec fn refinable<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>) -> bool where <S::I1 as Instruction>::Storage: Ord {
    &&& lawful_instance::<S, T, W>() && well_kept(inst) && decides::<S::I1>() && lawful_ord::<<S::I1 as Instruction>::Storage>()
    &&& multiplies::<W>() && same_order::<W>() && <S::I1 as Instruction>::sound(rec.begin())
    &&& forall|t2: Image<S, T, W>| roomy(#[trigger] originals(inst, t2))
}
// what a run of the approximation becomes
spec fn expand<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>) -> spec_fn(Coarse<S, T, W>) -> Multiset<FineMade<S, T, W>> {
    |x: Coarse<S, T, W>| bind(choices(inst, held(x.1)), checked(rec))
}
spec fn checked<Rec: Automaton<T, W>, T, W: MulAssign + One>(rec: Rec) -> spec_fn(Seq<Transition<Rec::I, T, W>>) -> Multiset<Made<<Rec::I as Instruction>::Shape, Rec::I, T, W>> {
    |r: Seq<Transition<Rec::I, T, W>>| results(r, Rec::I::shape(rec.begin())).to_multiset()
}
spec fn pool<I: Instruction, T, W>(h: BinaryHeap<Item<I::Storage, I, T, W>>) -> Multiset<Made<I::Shape, I, T, W>> { image(heap_els(h), |x: Item<I::Storage, I, T, W>| made::<I, T, W>(x)) }
proof fn choices_roomy<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(a: ApproximationInstance<S, T, W>, v: Seq<Image<S, T, W>>, r: Seq<Original<S, T, W>>)
    requires forall|t2: Image<S, T, W>| roomy(#[trigger] originals(a, t2)), choices(a, v).contains(r)
    ensures roomy(r)
    decreases v.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if v.len() == 0 { assert(r.len() == 0); } else {
        let os = originals(a, v.last());
        let f = prolonged(os);
        bind_has(choices(a, v.drop_last()), f, r);
        let q = choose|q: Seq<Original<S, T, W>>| #[trigger] choices(a, v.drop_last()).contains(q) && f(q).contains(r);
        choices_roomy(a, v.drop_last(), q);
        let g = |t: Original<S, T, W>| q.push(t);
        assert(os.map_values(g).contains(r));
        let j = choose|j: int| 0 <= j < os.len() && os.map_values(g)[j] == r;
        assert(r == q.push(os[j]));
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).instruction.room() by { if i < q.len() { assert(q[i] == r[i]); } else { assert(os[j] == r[i]); } }
    }
}
spec fn orderly_items<I: Instruction + Ord, T: Ord, W: Ord>() -> bool where I::Storage: Ord {
    lawful_ord::<Item<I::Storage, I, T, W>>() && forall|a: Item<I::Storage, I, T, W>, b: Item<I::Storage, I, T, W>| #[trigger] ord_le(a, b) ==> ord_le(a.0.weight, b.0.weight)
}
// the results of the first n of the runs v were added
spec fn gathered<Rec: Automaton<T, W>, T: Clone, W: Clone + MulAssign + One>(v: Seq<Pushdown<Transition<Rec::I, T, W>>>, n: int, h: Multiset<Pushdown<Transition<Rec::I, T, W>>>, rec: Rec, p0: Multiset<Made<<Rec::I as Instruction>::Shape, Rec::I, T, W>>, p: Multiset<Made<<Rec::I as Instruction>::Shape, Rec::I, T, W>>) -> bool {
    v.to_multiset() == h && p == p0.add(bind(all_held(v.take(n)).to_multiset(), checked(rec)))
}
proof fn gathered_none<Rec: Automaton<T, W>, T: Clone, W: Clone + MulAssign + One>(h: Multiset<Pushdown<Transition<Rec::I, T, W>>>, rec: Rec, p0: Multiset<Made<<Rec::I as Instruction>::Shape, Rec::I, T, W>>)
    ensures forall|v: Seq<Pushdown<Transition<Rec::I, T, W>>>| v.to_multiset() == h ==> #[trigger] gathered(v, 0, h, rec, p0, p0)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    bind_none(checked(rec));
    assert forall|v: Seq<Pushdown<Transition<Rec::I, T, W>>>| v.to_multiset() == h implies #[trigger] gathered(v, 0, h, rec, p0, p0) by {
        assert(all_held(v.take(0)).to_multiset() =~= Multiset::empty());
        assert(p0 =~= p0.add(Multiset::empty()));
    }
}
proof fn gathered_more<Rec: Automaton<T, W>, T: Clone, W: Clone + MulAssign + One>(v: Seq<Pushdown<Transition<Rec::I, T, W>>>, n: int, h: Multiset<Pushdown<Transition<Rec::I, T, W>>>, rec: Rec, p0: Multiset<Made<<Rec::I as Instruction>::Shape, Rec::I, T, W>>, p1: Multiset<Made<<Rec::I as Instruction>::Shape, Rec::I, T, W>>)
    requires 0 <= n < v.len(), gathered(v, n, h, rec, p0, p1)
    ensures gathered(v, n + 1, h, rec, p0, p1.add(results(held(v[n]), Rec::I::shape(rec.begin())).to_multiset()))
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let f = checked(rec);
    let (a, b) = (all_held(v.take(n)), all_held(v.take(n + 1)));
    assert(b =~= a.push(held(v[n])));
    assert(b.to_multiset() =~= a.to_multiset().insert(held(v[n])));
    bind_insert(a.to_multiset(), f, held(v[n]));
    assert(p0.add(bind(a.to_multiset(), f)).add(f(held(v[n]))) =~= p0.add(bind(a.to_multiset(), f).add(f(held(v[n])))));
}
proof fn gathered_from<Rec: Automaton<T, W>, T: Clone, W: Clone + MulAssign + One>(v: Seq<Pushdown<Transition<Rec::I, T, W>>>, n: int, h: Multiset<Pushdown<Transition<Rec::I, T, W>>>)
    requires 0 <= n < v.len(), v.to_multiset() == h
    ensures contents(h).contains(held(v[n]))
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let f = |p: Pushdown<Transition<Rec::I, T, W>>| held(p);
    bind_has(h, |p: Pushdown<Transition<Rec::I, T, W>>| Multiset::singleton(f(p)), held(v[n]));
    assert(v.contains(v[n]));
    assert(h.contains(v[n]));
}
proof fn added_none<A>(p: Multiset<A>, v: Seq<A>) ensures p == p.add(v.take(0).to_multiset())
{ broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures}; assert(v.take(0).to_multiset() =~= Multiset::empty()); assert(p =~= p.add(Multiset::empty())); }
proof fn added_one<A>(p: Multiset<A>, v: Seq<A>, n: int)
    requires 0 <= n < v.len()
    ensures p.add(v.take(n + 1).to_multiset()) == p.add(v.take(n).to_multiset()).insert(v[n])
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    assert(v.take(n + 1) =~= v.take(n).push(v[n]));
    assert(v.take(n + 1).to_multiset() =~= v.take(n).to_multiset().insert(v[n]));
    assert(p.add(v.take(n).to_multiset().insert(v[n])) =~= p.add(v.take(n).to_multiset()).insert(v[n]));
}
spec fn above<I: Instruction, T, W: Ord>(h: BinaryHeap<Item<I::Storage, I, T, W>>, w: W) -> bool { forall|y: Item<I::Storage, I, T, W>| #[trigger] heap_els(h).contains(y) ==> ord_le(y.0.weight, w) }
impl<J: Handing<Item = Coarse<S, T, W>>, Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineParseForest<J, Rec, S, T, W> where <S::I1 as Instruction>::Storage: Ord {
    spec fn rec(&self) -> Rec { *self.recogniser }
    spec fn inst(&self) -> ApproximationInstance<S, T, W> { *self.approximation_instance }
    // refining `before` adds to what is kept
    spec fn refined(&self, o: &Self, before: Seq<Coarse<S, T, W>>) -> bool {
        self.fed_from(o, before) && pool::<S::I1, T, W>(self.output_buffer) == pool::<S::I1, T, W>(o.output_buffer).add(bind(before.to_multiset(), expand(o.rec(), o.inst())))
    }
    // x was taken out of what is kept, and nothing that is kept or to be refined weighs more
    spec fn next_is(&self, o: &Self, before: Seq<Coarse<S, T, W>>, x: Fine<S, T, W>) -> bool {
        &&& self.fed_from(o, before)
        &&& pool::<S::I1, T, W>(self.output_buffer).insert(made::<S::I1, T, W>(x)) == pool::<S::I1, T, W>(o.output_buffer).add(bind(before.to_multiset(), expand(o.rec(), o.inst())))
        &&& above::<S::I1, T, W>(self.output_buffer, x.0.weight)
        &&& match self.input_buffer { None => false, Some(Some(z)) => ord_le(z.0.weight, x.0.weight), Some(None) => true }
    }
    proof fn nothing_refined(&self) requires self.sublevel_parses.ready() ensures self.refined(self, Seq::empty())
    {
        broadcast use {none_before, group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let f = expand(self.rec(), self.inst());
        let none = Seq::<Coarse<S, T, W>>::empty();
        assert(none.to_multiset() =~= Multiset::empty());
        bind_none(f);
        assert(pool::<S::I1, T, W>(self.output_buffer) =~= pool::<S::I1, T, W>(self.output_buffer).add(bind(none.to_multiset(), f)));
    }
    proof fn refined_more(a: &Self, b: &Self, c: &Self, x: Seq<Coarse<S, T, W>>, y: Coarse<S, T, W>)
        requires b.refined(c, x), a.fed_from(b, seq![y]), pool::<S::I1, T, W>(a.output_buffer) == pool::<S::I1, T, W>(b.output_buffer).add(expand(c.rec(), c.inst())(y))
        ensures a.refined(c, x.push(y))
    {
        broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let f = expand(c.rec(), c.inst());
        assert forall|raw: Seq<Coarse<S, T, W>>, ended: bool| a.inputs(raw, ended) implies #[trigger] c.inputs(x.push(y) + raw, ended) by { assert(x.push(y) + raw =~= x + (seq![y] + raw)); assert(b.inputs(seq![y] + raw, ended)); }
        if a.input_buffer == Some(None::<Coarse<S, T, W>>) { assert(b.inputs(seq![y], true)); assert(x + seq![y] =~= x.push(y)); assert(c.inputs(x + seq![y], true)); }
        assert(x.push(y).to_multiset() =~= x.to_multiset().insert(y));
        bind_insert(x.to_multiset(), f, y);
        assert(pool::<S::I1, T, W>(a.output_buffer) =~= pool::<S::I1, T, W>(c.output_buffer).add(bind(x.push(y).to_multiset(), f)));
    }
    broadcast proof fn fed_on(a: &Self, b: &Self, c: &Self, x: Seq<Coarse<S, T, W>>)
        requires #[trigger] b.refined(c, x), #[trigger] a.fed_from(b, Seq::empty()), a.output_buffer == b.output_buffer
        ensures a.refined(c, x)
    {
        assert forall|raw: Seq<Coarse<S, T, W>>, ended: bool| a.inputs(raw, ended) implies #[trigger] c.inputs(x + raw, ended) by { assert(Seq::empty() + raw =~= raw); assert(b.inputs(Seq::empty() + raw, ended)); }
        assert(x + Seq::empty() =~= x);
        if a.input_buffer == Some(None::<Coarse<S, T, W>>) { assert(b.inputs(Seq::empty(), true)); assert(c.inputs(x + Seq::empty(), true)); }
    }
}
//@@ fn src/recognisable/coarse_to_fine.rs <Iterator~for~CoarseToFineParseForest>::next
//@ implhead impl<J: Handing<Item = Coarse<Strategy, T, W>>, Rec: Automaton<T, W, I = Strategy::I1>, Strategy: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineParseForest<J, Rec, Strategy, T, W> where <Strategy::I1 as Instruction>::Storage: Ord
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ newret Option<Fine<Strategy, T, W>>
//@ foriter 1 vt_taken
//@ forpat 1 r1
//@ forpat 2 i1
//@ local r1s 0
//@ ret r
//@ requires old(self).sublevel_parses.ready(), refinable(*old(self).recogniser, *old(self).approximation_instance)
//@ ensures
    final(self).sublevel_parses.ready(), final(self).recogniser == old(self).recogniser, final(self).approximation_instance == old(self).approximation_instance,
    match r {
        Some(x) => exists|before: Seq<Coarse<Strategy, T, W>>| #[trigger] final(self).next_is(old(self), before, x),
        None => heap_els(final(self).output_buffer).len() == 0 && final(self).input_buffer == Some(None::<Coarse<Strategy, T, W>>) && exists|before: Seq<Coarse<Strategy, T, W>>| #[trigger] final(self).refined(old(self), before),
    },
//@ start
    let ghost mut before = Seq::<Coarse<Strategy, T, W>>::empty();
    let ghost s = *self;
    let ghost mut h0 = heap_els(self.output_buffer);
    let ghost (rec, inst) = (self.rec(), self.inst());
    proof { s.nothing_refined(); items_lawful::<<Strategy::I1 as Instruction>::Storage, Strategy::I1, T, W>(); transition_faithful::<Strategy::I1, T, W>(); }
//@ loop 0 while
    invariant
        s == *old(self), rec == s.rec(), inst == s.inst(), refinable(rec, inst), orderly_items::<Strategy::I1, T, W>(), faithful::<Transition<Strategy::I1, T, W>>(),
        self.refined(&s, before),
//@ loopstart 0
    broadcast use CoarseToFineParseForest::fed_on;
    let ghost s0 = *self;
//@ afterlet 0
    let ghost s1 = *self;
    let ghost x = choose|x: Coarse<Strategy, T, W>| #[trigger] s1.fed_from(&s0, seq![x]) && x.1 == r2;
    let ghost h = heap_els(r1s);
    let ghost p0 = pool::<Strategy::I1, T, W>(s1.output_buffer);
    proof { gathered_none::<Rec, T, W>(h, rec, p0); }
//@ after 0
    broadcast use {CoarseToFineParseForest::fed_on, heap_first_held, heap_first_greatest, group_multiset_axioms};
    let ghost s3 = *self;
    proof {
        h0 = heap_els(s3.output_buffer);
        let x = heap_first(s3.output_buffer)->0;
        assert(s3.refined(&s, before));
        image_remove(heap_els(s3.output_buffer), |x: Fine<Strategy, T, W>| made::<Strategy::I1, T, W>(x), x);
        assert(match s3.input_buffer { None => false, Some(Some(z)) => ord_le(z.0.weight, x.0.weight), Some(None) => true });
    }
//@ tail
    proof {
        if let Some(x) = &result__ {
            let x = *x;
            assert forall|y: Fine<Strategy, T, W>| #[trigger] heap_els(self.output_buffer).contains(y) implies ord_le(y.0.weight, x.0.weight) by { broadcast use group_multiset_axioms; assert(h0.contains(y)); assert(ord_le(y, x)); }
            assert(self.next_is(&s, before, x));
        }
    }
//@ loop 1 for it
    invariant
        refinable(rec, inst), orderly_items::<Strategy::I1, T, W>(), faithful::<Transition<Strategy::I1, T, W>>(), contents(h) == choices(inst, held(x.1)),
        *self == (CoarseToFineParseForest { output_buffer: self.output_buffer, ..s1 }),
        rec == s1.rec(), inst == s1.inst(),
        gathered::<Rec, T, W>(it.seq(), it.index@, h, rec, p0, pool::<Strategy::I1, T, W>(self.output_buffer)),
//@ loopstart 1
    let ghost v = it.seq();
    let ghost n = it.index@;
    let ghost p1 = pool::<Strategy::I1, T, W>(self.output_buffer);
    let ghost all = results(held(r1), Strategy::I1::shape(rec.begin()));
    proof {
        assert(r1 == v[n]);
        gathered_from::<Rec, T, W>(v, n, h);
        choices_roomy(inst, held(x.1), held(r1));
        added_none(p1, all);
    }
//@ loopend 1
    proof { gathered_more::<Rec, T, W>(v, n, h, rec, p0, p1); }
//@ after 1
    proof {
        assert forall|v: Seq<Pushdown<Original<Strategy, T, W>>>, p: Multiset<FineMade<Strategy, T, W>>| #[trigger] gathered::<Rec, T, W>(v, v.len() as int, h, rec, p0, p) implies p == p0.add(expand(rec, inst)(x)) by {
            assert(v.take(v.len() as int) =~= v);
            image_seq(v, |p: Pushdown<Original<Strategy, T, W>>| held(p));
        }
        CoarseToFineParseForest::refined_more(&*self, &s0, &s, before, x);
        before = before.push(x);
    }
//@ loop 2 for it1
    invariant
        orderly_items::<Strategy::I1, T, W>(), all == results(held(r1), Strategy::I1::shape(rec.begin())),
        *self == (CoarseToFineParseForest { output_buffer: self.output_buffer, ..s1 }),
        it1.seq().map_values(|x: Fine<Strategy, T, W>| made::<Strategy::I1, T, W>(x)) == all,
        pool::<Strategy::I1, T, W>(self.output_buffer) == p1.add(all.take(it1.index@).to_multiset()),
//@ loopstart 2
    proof {
        let w = it1.seq().map_values(|x: Fine<Strategy, T, W>| made::<Strategy::I1, T, W>(x));
        assert(i1 == it1.seq()[it1.index@]);
        assert(w[it1.index@] == made::<Strategy::I1, T, W>(i1));
        image_insert(heap_els(self.output_buffer), |x: Fine<Strategy, T, W>| made::<Strategy::I1, T, W>(x), i1);
        added_one(p1, all, it1.index@);
    }
//@ after 2
    proof { assert(all.take(all.len() as int) =~= all); }
//@@ end

// ---- what a client sees ----
spec fn all_made<I: Instruction, T, W>(s: Seq<Item<I::Storage, I, T, W>>) -> Seq<Made<I::Shape, I, T, W>> { s.map_values(|x: Item<I::Storage, I, T, W>| made::<I, T, W>(x)) }
spec fn falling<S, I, T, W: Ord>(s: Seq<Item<S, I, T, W>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ord_le((#[trigger] s[j]).0.weight, (#[trigger] s[i]).0.weight) }
// the weights of raw do not increase, and none of them becomes a greater one
spec fn fading<S, I, A, I1, T, W: Ord>(f: spec_fn(Item<S, I, T, W>) -> Multiset<Made<A, I1, T, W>>, raw: Seq<Item<S, I, T, W>>) -> bool {
    &&& falling(raw)
    &&& forall|i: int, m: Made<A, I1, T, W>| #![trigger f(raw[i]).contains(m)] 0 <= i < raw.len() && f(raw[i]).contains(m) ==> ord_le(m.weight, raw[i].0.weight)
}
// out is, besides what is in p, what the parses raw become: nothing else, and all of it at the end
spec fn becomes<S, I, I1: Instruction, T, W: Ord>(f: spec_fn(Item<S, I, T, W>) -> Multiset<Made<I1::Shape, I1, T, W>>, p: Multiset<Made<I1::Shape, I1, T, W>>, raw: Seq<Item<S, I, T, W>>, out: Seq<Item<I1::Storage, I1, T, W>>, ended: bool) -> bool {
    &&& all_made::<I1, T, W>(out).to_multiset().subset_of(p.add(bind(raw.to_multiset(), f)))
    &&& ended ==> all_made::<I1, T, W>(out).to_multiset() == p.add(bind(raw.to_multiset(), f))
    &&& fading(f, raw) ==> falling(out)
}
impl<J: Handing<Item = Coarse<S, T, W>>, Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineParseForest<J, Rec, S, T, W> where <S::I1 as Instruction>::Storage: Ord {
    proof fn goes_on(a: &Self, o: &Self, before: Seq<Coarse<S, T, W>>, x: Fine<S, T, W>, raw: Seq<Coarse<S, T, W>>, out: Seq<Fine<S, T, W>>, ended: bool)
        requires a.next_is(o, before, x), a.inputs(raw, ended), becomes(expand(o.rec(), o.inst()), pool::<S::I1, T, W>(a.output_buffer), raw, out, ended), lawful_ord::<W>()
        ensures becomes(expand(o.rec(), o.inst()), pool::<S::I1, T, W>(o.output_buffer), before + raw, seq![x] + out, ended)
    {
        broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let f = expand(o.rec(), o.inst());
        let (p, q) = (pool::<S::I1, T, W>(a.output_buffer), pool::<S::I1, T, W>(o.output_buffer));
        let all = seq![x] + out;
        vstd::seq_lib::lemma_multiset_commutative(before, raw);
        bind_add(before.to_multiset(), raw.to_multiset(), f);
        vstd::seq_lib::lemma_multiset_commutative(seq![made::<S::I1, T, W>(x)], all_made::<S::I1, T, W>(out));
        assert(all_made::<S::I1, T, W>(all) =~= seq![made::<S::I1, T, W>(x)] + all_made::<S::I1, T, W>(out));
        let (got, can) = (all_made::<S::I1, T, W>(out).to_multiset(), p.add(bind(raw.to_multiset(), f)));
        assert(seq![made::<S::I1, T, W>(x)] =~= Seq::empty().push(made::<S::I1, T, W>(x)));
        assert(seq![made::<S::I1, T, W>(x)].to_multiset() =~= Multiset::singleton(made::<S::I1, T, W>(x)));
        assert(all_made::<S::I1, T, W>(all).to_multiset() =~= got.insert(made::<S::I1, T, W>(x)));
        let (b, c) = (bind(before.to_multiset(), f), bind(raw.to_multiset(), f));
        assert(bind((before + raw).to_multiset(), f) == b.add(c));
        assert(q.add(b.add(c)) =~= q.add(b).add(c));
        assert(q.add(b) == p.insert(made::<S::I1, T, W>(x)));
        assert(p.insert(made::<S::I1, T, W>(x)).add(c) =~= can.insert(made::<S::I1, T, W>(x)));
        assert(q.add(bind((before + raw).to_multiset(), f)) =~= can.insert(made::<S::I1, T, W>(x)));
        if fading(f, before + raw) {
            assert(falling(raw)) by { assert forall|i: int, j: int| 0 <= i < j < raw.len() implies ord_le((#[trigger] raw[j]).0.weight, (#[trigger] raw[i]).0.weight) by { assert((before + raw)[before.len() + i] == raw[i] && (before + raw)[before.len() + j] == raw[j]); } }
            assert forall|i: int, m: FineMade<S, T, W>| #![trigger f(raw[i]).contains(m)] 0 <= i < raw.len() && f(raw[i]).contains(m) implies ord_le(m.weight, raw[i].0.weight) by { assert((before + raw)[before.len() + i] == raw[i]); assert(f((before + raw)[before.len() + i]).contains(m)); }
            assert(fading(f, raw));
            assert forall|i: int| 0 <= i < out.len() implies ord_le((#[trigger] out[i]).0.weight, x.0.weight) by {
                let m = made::<S::I1, T, W>(out[i]);
                assert(all_made::<S::I1, T, W>(out)[i] == m);
                assert(all_made::<S::I1, T, W>(out).contains(m));
                assert(got.contains(m));
                assert(can.contains(m));
                if p.contains(m) {
                    let g = |x: Fine<S, T, W>| made::<S::I1, T, W>(x);
                    bind_has(heap_els(a.output_buffer), |x: Fine<S, T, W>| Multiset::singleton(g(x)), m);
                    let y = choose|y: Fine<S, T, W>| #[trigger] heap_els(a.output_buffer).contains(y) && Multiset::singleton(g(y)).contains(m);
                    assert(made::<S::I1, T, W>(y) == m);
                } else {
                    bind_has(raw.to_multiset(), f, m);
                    let c = choose|c: Coarse<S, T, W>| #[trigger] raw.to_multiset().contains(c) && f(c).contains(m);
                    assert(raw.contains(c));
                    let k = choose|k: int| 0 <= k < raw.len() && raw[k] == c;
                    assert(f(raw[k]).contains(m));
                    assert(ord_le(raw[k].0.weight, raw[0].0.weight)) by { ranked(raw[0].0.weight, raw[0].0.weight, raw[0].0.weight); }
                    ranked(m.weight, raw[k].0.weight, raw[0].0.weight);
                    ranked(m.weight, raw[0].0.weight, x.0.weight);
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < all.len() implies ord_le((#[trigger] all[j]).0.weight, (#[trigger] all[i]).0.weight) by { assert(all[j] == out[j - 1]); if i > 0 { assert(all[i] == out[i - 1]); } }
        }
    }
}
impl<J: Handing<Item = Coarse<S, T, W>>, Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> Handing for CoarseToFineParseForest<J, Rec, S, T, W> where <S::I1 as Instruction>::Storage: Ord {
    type Item = Fine<S, T, W>;
    spec fn ready(&self) -> bool { self.sublevel_parses.ready() && refinable(self.rec(), self.inst()) }
    spec fn hands(&self, out: Seq<Fine<S, T, W>>, ended: bool) -> bool {
        exists|raw: Seq<Coarse<S, T, W>>| #[trigger] self.inputs(raw, ended) && becomes(expand(self.rec(), self.inst()), pool::<S::I1, T, W>(self.output_buffer), raw, out, ended)
    }
    spec fn fused() -> bool { false }
    proof fn nothing_yet(&self) {
        broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let (raw, out) = (Seq::<Coarse<S, T, W>>::empty(), Seq::<Fine<S, T, W>>::empty());
        self.sublevel_parses.nothing_yet();
        assert(self.inputs(raw, false));
        assert(all_made::<S::I1, T, W>(out).to_multiset() =~= Multiset::empty());
    }
    fn next(&mut self) -> (r: Option<Fine<S, T, W>>) {
        let ghost o = *self;
        let r = CoarseToFineParseForest::next(self);
        proof {
            broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
            match &r {
                Some(x) => {
                    let x = *x;
                    let before = choose|before: Seq<Coarse<S, T, W>>| #[trigger] self.next_is(&o, before, x);
                    assert forall|out: Seq<Fine<S, T, W>>, ended: bool| self.hands(out, ended) implies #[trigger] o.hands(seq![x] + out, ended) by {
                        let raw = choose|raw: Seq<Coarse<S, T, W>>| #[trigger] self.inputs(raw, ended) && becomes(expand(self.rec(), self.inst()), pool::<S::I1, T, W>(self.output_buffer), raw, out, ended);
                        Self::goes_on(&*self, &o, before, x, raw, out, ended);
                        assert(o.inputs(before + raw, ended));
                    }
                }
                None => {
                    let before = choose|before: Seq<Coarse<S, T, W>>| #[trigger] self.refined(&o, before);
                    let out = Seq::<Fine<S, T, W>>::empty();
                    bind_none(|x: Fine<S, T, W>| Multiset::singleton(made::<S::I1, T, W>(x)));
                    assert(heap_els(self.output_buffer) =~= Multiset::empty());
                    assert(all_made::<S::I1, T, W>(out).to_multiset() =~= Multiset::empty());
                    assert(o.inputs(before, true));
                }
            }
        }
        r
    }
}

// ---- recognisers ----
//@@ trait src/recognisable/mod.rs Recognisable recognise recognise_beam_search
trait Recognisable<T, W>: Sized {
    type Parse;
    // the iterator that `recognise` boxes
    type Parses: Handing<Item = Self::Parse>;
    spec fn able(&self) -> bool;
    spec fn answers(&self, word: Seq<T>, out: Seq<Self::Parse>, ended: bool) -> bool;
    fn recognise(&self, word: Vec<T>) -> (r: Self::Parses)
        requires self.able()
        ensures r.ready(), forall|out: Seq<Self::Parse>, ended: bool| r.hands(out, ended) ==> #[trigger] self.answers(word@, out, ended);
}
//@@ type src/recognisable/coarse_to_fine.rs CoarseToFineRecogniser
//@ attr #[verifier::reject_recursive_types(T)]
//@ attr #[verifier::reject_recursive_types(W)]
//@@ end
fn vt_unboxed<A>(a: A) -> (r: A) ensures r == a { a }
//@@ fn src/recognisable/coarse_to_fine.rs <Recognisable~for~CoarseToFineRecogniser>::recognise
//@ implhead impl<Rec: Automaton<T, W, I = Strategy::I1>, SubRec: Recognisable<T, W, Parse = Coarse<Strategy, T, W>>, Strategy: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineRecogniser<Rec, SubRec, Strategy, T, W> where <Strategy::I1 as Instruction>::Storage: Ord
//@ params word
//@ newret CoarseToFineParseForest<SubRec::Parses, Rec, Strategy, T, W>
//@ mappath Box::new vt_unboxed
//@ ret r
//@ requires self.sublevel.able(), refinable(self.rec(), self.inst())
//@ ensures r.ready(), forall|out: Seq<Fine<Strategy, T, W>>, ended: bool| r.hands(out, ended) ==> #[trigger] self.found(word@, out, ended)
//@ start
    let ghost w = word@;
//@ tail
    proof {
        assert(pool::<Strategy::I1, T, W>(result__.output_buffer) =~= Multiset::empty()) by {
            bind_none(|x: Fine<Strategy, T, W>| Multiset::singleton(made::<Strategy::I1, T, W>(x)));
        }
        assert forall|out: Seq<Fine<Strategy, T, W>>, ended: bool| result__.hands(out, ended) implies #[trigger] self.found(w, out, ended) by {
            let raw = choose|raw: Seq<Coarse<Strategy, T, W>>| #[trigger] result__.inputs(raw, ended) && becomes(expand(result__.rec(), result__.inst()), pool::<Strategy::I1, T, W>(result__.output_buffer), raw, out, ended);
            assert(self.sublevel.answers(w, raw, ended));
        }
    }
//@@ end
impl<Rec: Automaton<T, W, I = S::I1>, SubRec: Recognisable<T, W, Parse = Coarse<S, T, W>>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> CoarseToFineRecogniser<Rec, SubRec, S, T, W> where <S::I1 as Instruction>::Storage: Ord {
    spec fn rec(&self) -> Rec { *self.recogniser }
    spec fn inst(&self) -> ApproximationInstance<S, T, W> { *self.approximation_instance }
    // out is what answers of the level below become
    spec fn found(&self, w: Seq<T>, out: Seq<Fine<S, T, W>>, ended: bool) -> bool {
        exists|raw: Seq<Coarse<S, T, W>>| #[trigger] self.sublevel.answers(w, raw, ended) && becomes(expand(self.rec(), self.inst()), Multiset::empty(), raw, out, ended)
    }
}
impl<Rec: Automaton<T, W, I = S::I1>, SubRec: Recognisable<T, W, Parse = Coarse<S, T, W>>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord> Recognisable<T, W> for CoarseToFineRecogniser<Rec, SubRec, S, T, W> where <S::I1 as Instruction>::Storage: Ord {
    type Parse = Fine<S, T, W>;
    type Parses = CoarseToFineParseForest<SubRec::Parses, Rec, S, T, W>;
    spec fn able(&self) -> bool { self.sublevel.able() && refinable(self.rec(), self.inst()) }
    spec fn answers(&self, w: Seq<T>, out: Seq<Fine<S, T, W>>, ended: bool) -> bool { self.found(w, out, ended) }
    fn recognise(&self, word: Vec<T>) -> (r: CoarseToFineParseForest<SubRec::Parses, Rec, S, T, W>) { CoarseToFineRecogniser::recognise(self, word) }
}

// ---- on each level, what is found are the accepting runs of that level's automaton ----
spec fn spelled<I, T, W>(ts: Seq<Transition<I, T, W>>) -> Seq<T>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { spelled(ts.drop_last()) + ts.last().word@ } }
// ts is an accepting run on w, of the automaton with these transitions that starts with a
spec fn accepts<I: Instruction, T, W>(rules: Seq<Transition<I, T, W>>, a: I::Shape, w: Seq<T>, ts: Seq<Transition<I, T, W>>) -> bool {
    &&& forall|i: int| 0 <= i < ts.len() ==> rules.contains(#[trigger] ts[i])
    &&& spelled(ts) == w
    &&& exists|p: Seq<I::Shape>| #[trigger] passes(ts, p) && p[0] == a && I::closing(p.last())
}
// what is handed out are accepting runs with their weights, and at the end all of them
spec fn finds<I: Instruction, T, W: MulAssign + One>(rules: Seq<Transition<I, T, W>>, a: I::Shape, w: Seq<T>, out: Seq<Item<I::Storage, I, T, W>>, ended: bool) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> accepts(rules, a, w, held((#[trigger] out[i]).1))
    &&& ended ==> forall|ts: Seq<Transition<I, T, W>>| #[trigger] accepts(rules, a, w, ts) ==> found_in::<I, T, W>(out, ts)
}
spec fn found_in<I: Instruction, T, W>(out: Seq<Item<I::Storage, I, T, W>>, ts: Seq<Transition<I, T, W>>) -> bool { exists|i: int| 0 <= i < out.len() && held((#[trigger] out[i]).1) == ts }
// the transitions rs, up to weights, are us
spec fn covers<I, T, W>(rs: Seq<Transition<I, T, W>>, us: Seq<Transition<I, T, W>>) -> bool {
    &&& forall|t: Transition<I, T, W>| #[trigger] rs.contains(t) ==> exists|k: int| 0 <= k < us.len() && agree(t, #[trigger] us[k])
    &&& forall|k: int| 0 <= k < us.len() ==> has_like(rs, #[trigger] us[k])
}
spec fn has_like<I, T, W>(rs: Seq<Transition<I, T, W>>, u: Transition<I, T, W>) -> bool { exists|r: Transition<I, T, W>| #[trigger] rs.contains(r) && agree(r, u) }
// rs1 and rs2 are the transitions of the automata on two neighbouring levels, a and b what they start with
spec fn neighbours<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(inst: ApproximationInstance<S, T, W>, rs1: Seq<Original<S, T, W>>, a: <S::I1 as Instruction>::Shape, rs2: Seq<Image<S, T, W>>, b: <S::I2 as Instruction>::Shape, us: Seq<Image<S, T, W>>) -> bool {
    inst.strategy.ready() && counterparts(inst.strategy, rs1, us) && remembers(inst, rs1, us) && inst.strategy.like(a, b) && covers(rs2, us)
}
proof fn spelled_alike<I, J, T, W>(ts: Seq<Transition<I, T, W>>, v: Seq<Transition<J, T, W>>)
    requires ts.len() == v.len(), forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).word@ == v[i].word@
    ensures spelled(ts) == spelled(v)
    decreases ts.len()
{ if ts.len() > 0 { assert forall|i: int| 0 <= i < ts.drop_last().len() implies (#[trigger] ts.drop_last()[i]).word@ == v.drop_last()[i].word@ by { assert(ts[i].word@ == v[i].word@); } spelled_alike(ts.drop_last(), v.drop_last()); assert(ts[ts.len() - 1].word@ == v[v.len() - 1].word@); } }
// what is reached is where some way leads
proof fn reached<I: Instruction, T, W>(ts: Seq<Transition<I, T, W>>, a: I::Shape, b: I::Shape)
    ensures reach(ts, a).contains(b) <==> exists|p: Seq<I::Shape>| #[trigger] passes(ts, p) && p[0] == a && p.last() == b
    decreases ts.len()
{
    if ts.len() == 0 {
        if reach(ts, a).contains(b) { let p = seq![a]; assert(passes(ts, p)); }
        if exists|p: Seq<I::Shape>| #[trigger] passes(ts, p) && p[0] == a && p.last() == b { assert(reach(ts, a)[0] == b); }
    } else {
        let (us, i) = (ts.drop_last(), ts.last().instruction);
        let g = |c: I::Shape| i.leads(c);
        let before = reach(us, a);
        concat_has(before.map_values(g), b);
        if reach(ts, a).contains(b) {
            let k = choose|k: int| 0 <= k < before.len() && (#[trigger] before.map_values(g)[k]).contains(b);
            reached(us, a, before[k]);
            assert(before.contains(before[k]));
            let p = choose|p: Seq<I::Shape>| #[trigger] passes(us, p) && p[0] == a && p.last() == before[k];
            let q = p.push(b);
            let n = choose|n: int| 0 <= n < i.leads(before[k]).len() && i.leads(before[k])[n] == b;
            assert forall|j: int| 0 <= j < ts.len() implies leads_to((#[trigger] ts[j]).instruction, q[j], q[j + 1]) by {
                if j < us.len() { assert(us[j] == ts[j]); assert(leads_to(us[j].instruction, p[j], p[j + 1])); } else { assert(i.leads(q[j])[n] == q[j + 1]); }
            }
            assert(passes(ts, q));
        }
        if exists|p: Seq<I::Shape>| #[trigger] passes(ts, p) && p[0] == a && p.last() == b {
            let p = choose|p: Seq<I::Shape>| #[trigger] passes(ts, p) && p[0] == a && p.last() == b;
            let q = p.drop_last();
            assert forall|j: int| 0 <= j < us.len() implies leads_to((#[trigger] us[j]).instruction, q[j], q[j + 1]) by { assert(us[j] == ts[j]); assert(leads_to(ts[j].instruction, p[j], p[j + 1])); }
            assert(passes(us, q));
            reached(us, a, q.last());
            let k = choose|k: int| 0 <= k < before.len() && before[k] == q.last();
            let n = ts.len() - 1;
            assert(leads_to(ts[n].instruction, p[n], p[n + 1]));
            let m = choose|m: int| 0 <= m < i.leads(p[n]).len() && p[n + 1] == #[trigger] i.leads(p[n])[m];
            assert(i.leads(p[n]).contains(b));
            assert(before.map_values(g)[k].contains(b));
        }
    }
}
proof fn concat_has<A>(s: Seq<Seq<A>>, x: A)
    ensures concat(s).contains(x) <==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let (t, l) = (concat(s.drop_last()), s.last());
        concat_has(s.drop_last(), x);
        if concat(s).contains(x) {
            let j = choose|j: int| 0 <= j < concat(s).len() && concat(s)[j] == x;
            if j < t.len() { assert(t[j] == x); let k = choose|k: int| 0 <= k < s.drop_last().len() && (#[trigger] s.drop_last()[k]).contains(x); assert(s[k].contains(x)); } else { assert(l[j - t.len()] == x); assert(s[s.len() - 1].contains(x)); }
        }
        if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).contains(x) {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).contains(x);
            if k < s.len() - 1 { assert(s.drop_last()[k].contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(concat(s)[j] == x); }
            else { let j = choose|j: int| 0 <= j < l.len() && l[j] == x; assert(concat(s)[t.len() + j] == x); }
        }
    }
}
// instructions with at most one outcome lead one way
proof fn one_way<I: Instruction, T, W>(ts: Seq<Transition<I, T, W>>, p: Seq<I::Shape>, q: Seq<I::Shape>)
    requires passes(ts, p), passes(ts, q), p[0] == q[0], forall|i: I, a: I::Shape| (#[trigger] i.leads(a)).len() <= 1
    ensures p == q
    decreases ts.len()
{
    if ts.len() == 0 { assert(p =~= q); } else {
        let n = ts.len() - 1;
        let (us, p0, q0) = (ts.drop_last(), p.drop_last(), q.drop_last());
        assert forall|i: int| 0 <= i < us.len() implies leads_to((#[trigger] us[i]).instruction, p0[i], p0[i + 1]) && leads_to(us[i].instruction, q0[i], q0[i + 1]) by { assert(us[i] == ts[i]); assert(leads_to(ts[i].instruction, p[i], p[i + 1])); assert(leads_to(ts[i].instruction, q[i], q[i + 1])); }
        one_way(us, p0, q0);
        assert(p[n] == p0[n] && q[n] == q0[n]);
        assert(leads_to(ts[n].instruction, p[n], p[n + 1]));
        assert(leads_to(ts[n].instruction, q[n], q[n + 1]));
        assert(p =~= p0.push(p[n + 1]));
        assert(q =~= q0.push(q[n + 1]));
    }
}
// the accepting runs of the two levels belong together
proof fn refines_to<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(inst: ApproximationInstance<S, T, W>, rs1: Seq<Original<S, T, W>>, a: <S::I1 as Instruction>::Shape, rs2: Seq<Image<S, T, W>>, b: <S::I2 as Instruction>::Shape, us: Seq<Image<S, T, W>>, w: Seq<T>, v: Seq<Image<S, T, W>>, ts: Seq<Original<S, T, W>>)
    requires neighbours(inst, rs1, a, rs2, b, us), accepts(rs2, b, w, v), choices(inst, v).contains(ts), reach(ts, a).len() > 0
    ensures accepts(rs1, a, w, ts)
{
    let s = inst.strategy;
    run_returns(inst, rs1, us, ts, v);
    let pick = |i: int| choose|k: int| 0 <= k < rs1.len() && #[trigger] agree(v[i], us[k]) && rs1[k] == ts[i];
    let vs = Seq::new(ts.len(), |i: int| us[pick(i)]);
    assert forall|i: int| 0 <= i < ts.len() implies rs1.contains(#[trigger] ts[i]) && agree(v[i], vs[i]) && counterpart(s, ts[i], vs[i]) by {
        assert(became::<S, T, W>(rs1, us, ts[i], v[i]));
        let k = pick(i);
        assert(0 <= k < rs1.len() && agree(v[i], us[k]) && rs1[k] == ts[i]);
        assert(counterpart(s, rs1[k], us[k]));
    }
    assert(counterparts(s, ts, vs));
    assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).word@ == v[i].word@ by { assert(counterpart(s, ts[i], vs[i])); }
    spelled_alike(ts, v);
    let c = reach(ts, a)[0];
    assert(reach(ts, a).contains(c));
    reached(ts, a, c);
    let p = choose|p: Seq<<S::I1 as Instruction>::Shape>| #[trigger] passes(ts, p) && p[0] == a && p.last() == c;
    let q = run_kept(s, ts, vs, p, b);
    assert forall|i: int| 0 <= i < v.len() implies leads_to((#[trigger] v[i]).instruction, q[i], q[i + 1]) by { assert(leads_to(vs[i].instruction, q[i], q[i + 1])); assert(agree(v[i], vs[i])); }
    let r = choose|r: Seq<<S::I2 as Instruction>::Shape>| #[trigger] passes(v, r) && r[0] == b && <S::I2 as Instruction>::closing(r.last());
    assert forall|i: S::I2, x: <S::I2 as Instruction>::Shape| (#[trigger] i.leads(x)).len() <= 1 by { s.single(i, x); }
    one_way(v, q, r);
}
// every accepting run comes from one of the level below
proof fn comes_from<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(inst: ApproximationInstance<S, T, W>, rs1: Seq<Original<S, T, W>>, a: <S::I1 as Instruction>::Shape, rs2: Seq<Image<S, T, W>>, b: <S::I2 as Instruction>::Shape, us: Seq<Image<S, T, W>>, w: Seq<T>, ts: Seq<Original<S, T, W>>) -> (v: Seq<Image<S, T, W>>)
    requires neighbours(inst, rs1, a, rs2, b, us), accepts(rs1, a, w, ts)
    ensures accepts(rs2, b, w, v), choices(inst, v).contains(ts), exists|c: <S::I1 as Instruction>::Shape| #[trigger] reach(ts, a).contains(c)
{
    let s = inst.strategy;
    let pick = |i: int| choose|k: int| 0 <= k < rs1.len() && #[trigger] rs1[k] == ts[i];
    let vs = Seq::new(ts.len(), |i: int| us[pick(i)]);
    let v = Seq::new(ts.len(), |i: int| choose|r: Image<S, T, W>| #[trigger] rs2.contains(r) && agree(r, vs[i]));
    assert forall|i: int| 0 <= i < ts.len() implies rs2.contains(#[trigger] v[i]) && agree(v[i], vs[i]) && counterpart(s, ts[i], vs[i]) && became::<S, T, W>(rs1, us, ts[i], v[i]) by {
        assert(rs1.contains(ts[i]));
        let k = pick(i);
        assert(0 <= k < rs1.len() && rs1[k] == ts[i]);
        assert(counterpart(s, rs1[k], us[k]));
        assert(has_like(rs2, us[k]));
        assert(agree(v[i], us[k]));
    }
    assert forall|i: int| 0 <= i < ts.len() implies counterpart(s, ts[i], #[trigger] vs[i]) by { assert(rs2.contains(v[i])); }
    assert forall|i: int| 0 <= i < ts.len() implies became::<S, T, W>(rs1, us, #[trigger] ts[i], v[i]) by { assert(rs2.contains(v[i])); }
    run_returns(inst, rs1, us, ts, v);
    assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] ts[i]).word@ == v[i].word@ by { assert(agree(v[i], vs[i])); }
    spelled_alike(ts, v);
    let p = choose|p: Seq<<S::I1 as Instruction>::Shape>| #[trigger] passes(ts, p) && p[0] == a && <S::I1 as Instruction>::closing(p.last());
    let q = run_kept(s, ts, vs, p, b);
    assert forall|i: int| 0 <= i < v.len() implies leads_to((#[trigger] v[i]).instruction, q[i], q[i + 1]) by { assert(leads_to(vs[i].instruction, q[i], q[i + 1])); assert(agree(v[i], vs[i])); }
    assert(passes(v, q));
    reached(ts, a, p.last());
    v
}
proof fn level_finds<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, rs2: Seq<Image<S, T, W>>, b: <S::I2 as Instruction>::Shape, us: Seq<Image<S, T, W>>, w: Seq<T>, raw: Seq<Coarse<S, T, W>>, out: Seq<Fine<S, T, W>>, ended: bool)
    requires
        neighbours(inst, rec.rules(), <S::I1 as Instruction>::shape(rec.begin()), rs2, b, us),
        finds(rs2, b, w, raw, ended), becomes(expand(rec, inst), Multiset::empty(), raw, out, ended),
    ensures
        finds(rec.rules(), <S::I1 as Instruction>::shape(rec.begin()), w, out, ended),
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).0.weight == product(held(out[i].1)),
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let (rs1, a) = (rec.rules(), <S::I1 as Instruction>::shape(rec.begin()));
    let f = expand(rec, inst);
    let all = all_made::<S::I1, T, W>(out);
    let can = bind(raw.to_multiset(), f);
    assert(Multiset::empty().add(can) =~= can);
    assert forall|i: int| 0 <= i < out.len() implies accepts(rs1, a, w, held((#[trigger] out[i]).1)) && out[i].0.weight == product(held(out[i].1)) by {
        let m = made::<S::I1, T, W>(out[i]);
        assert(all[i] == m);
        assert(all.contains(m));
        assert(can.contains(m));
        bind_has(raw.to_multiset(), f, m);
        let c = choose|c: Coarse<S, T, W>| #[trigger] raw.to_multiset().contains(c) && f(c).contains(m);
        assert(raw.contains(c));
        let k = choose|k: int| 0 <= k < raw.len() && raw[k] == c;
        assert(accepts(rs2, b, w, held(raw[k].1)));
        bind_has(choices(inst, held(c.1)), checked(rec), m);
        let r = choose|r: Seq<Original<S, T, W>>| #[trigger] choices(inst, held(c.1)).contains(r) && checked(rec)(r).contains(m);
        assert(results(r, a).contains(m));
        refines_to(inst, rs1, a, rs2, b, us, w, held(c.1), r);
    }
    if ended {
        assert forall|ts: Seq<Original<S, T, W>>| #[trigger] accepts(rs1, a, w, ts) implies found_in::<S::I1, T, W>(out, ts) by {
            let v = comes_from(inst, rs1, a, rs2, b, us, w, ts);
            assert(found_in::<S::I2, T, W>(raw, v));
            let k = choose|k: int| 0 <= k < raw.len() && held((#[trigger] raw[k]).1) == v;
            let c = raw[k];
            assert(raw.contains(c));
            let d = choose|d: <S::I1 as Instruction>::Shape| #[trigger] reach(ts, a).contains(d);
            let n = choose|n: int| 0 <= n < reach(ts, a).len() && reach(ts, a)[n] == d;
            let m = results(ts, a)[n];
            assert(results(ts, a).contains(m));
            assert(checked(rec)(ts).contains(m));
            bind_has(choices(inst, v), checked(rec), m);
            assert(f(c).contains(m));
            bind_has(raw.to_multiset(), f, m);
            assert(raw.to_multiset().contains(c));
            assert(can.contains(m));
            assert(all.contains(m));
            let i = choose|i: int| 0 <= i < all.len() && all[i] == m;
            assert(held(out[i].1) == ts);
        }
    }
}

// ---- each run once ----
spec fn different<A>(s: Seq<A>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
spec fn different_runs<S, I, T, W>(s: Seq<Item<S, I, T, W>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> held((#[trigger] s[i]).1) != held((#[trigger] s[j]).1) }
// no two transitions differ in nothing but their weights
spec fn disagree<I, T, W>(s: Seq<Transition<I, T, W>>) -> bool { forall|a: Transition<I, T, W>, b: Transition<I, T, W>| #![trigger s.contains(a), s.contains(b)] s.contains(a) && s.contains(b) && agree(a, b) ==> a == b }
proof fn stems_different<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(ts: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, t2: Image<S, T, W>)
    requires ts.len() == us.len(), different(ts)
    ensures different(stems_from::<S, T, W>(ts, us, t2))
    decreases ts.len()
{
    if ts.len() > 0 {
        let (ts0, us0) = (ts.drop_last(), us.drop_last());
        let (g, h) = (stems_from::<S, T, W>(ts0, us0, t2), stems_from::<S, T, W>(ts, us, t2));
        stems_different::<S, T, W>(ts0, us0, t2);
        assert forall|i: int, j: int| 0 <= i < j < h.len() implies h[i] != h[j] by {
            assert(h[i] == g[i]);
            if j < g.len() { assert(h[j] == g[j]); } else {
                assert(g.contains(g[i]));
                stems::<S, T, W>(ts0, us0, t2, g[i]);
                let k = choose|k: int| 0 <= k < ts0.len() && #[trigger] agree(t2, us0[k]) && ts0[k] == g[i];
                assert(ts[k] != ts[ts.len() - 1]);
            }
        }
    }
}
proof fn choices_once<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(inst: ApproximationInstance<S, T, W>, rs: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, v: Seq<Image<S, T, W>>)
    requires us.len() == rs.len(), remembers(inst, rs, us), different(rs)
    ensures forall|ts: Seq<Original<S, T, W>>| #[trigger] choices(inst, v).count(ts) <= 1
    decreases v.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if v.len() > 0 {
        let m = choices(inst, v.drop_last());
        let os = originals(inst, v.last());
        let f = prolonged(os);
        choices_once(inst, rs, us, v.drop_last());
        stems_different::<S, T, W>(rs, us, v.last());
        assert(os == stems_from::<S, T, W>(rs, us, v.last()));
        assert forall|ts: Seq<Original<S, T, W>>| #[trigger] choices(inst, v).count(ts) <= 1 by {
            assert forall|x: Seq<Original<S, T, W>>| #[trigger] m.contains(x) implies f(x).count(ts) <= 1 by {
                let s = os.map_values(|t: Original<S, T, W>| x.push(t));
                assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by { assert(s[i].last() == os[i] && s[j].last() == os[j]); }
                few(s, ts);
            }
            assert forall|x: Seq<Original<S, T, W>>, z: Seq<Original<S, T, W>>| #![trigger m.contains(x), m.contains(z)] m.contains(x) && m.contains(z) && f(x).contains(ts) && f(z).contains(ts) implies x == z by {
                prolonged_from(os, x, ts);
                prolonged_from(os, z, ts);
            }
            bind_once(m, f, ts);
        }
    }
}
proof fn prolonged_from<A>(os: Seq<A>, x: Seq<A>, ts: Seq<A>)
    requires prolonged(os)(x).contains(ts)
    ensures ts.len() > 0, x == ts.drop_last()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let s = os.map_values(|t: A| x.push(t));
    assert(s.contains(ts));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == ts;
    assert(x =~= ts.drop_last());
}
proof fn reach_once<I: Instruction, T, W>(ts: Seq<Transition<I, T, W>>, a: I::Shape)
    requires forall|i: I, a: I::Shape| (#[trigger] i.leads(a)).len() <= 1
    ensures reach(ts, a).len() <= 1
    decreases ts.len()
{
    if ts.len() > 0 {
        reach_once(ts.drop_last(), a);
        let s = reach(ts.drop_last(), a).map_values(|b: I::Shape| ts.last().instruction.leads(b));
        assert(s.len() <= 1);
        if s.len() == 1 { assert(concat(s.drop_last()) =~= Seq::empty()); assert(concat(s) == concat(s.drop_last()) + s.last()); assert(concat(s) =~= s[0]); assert(reach(ts, a) == concat(s)); assert(s[0].len() <= 1); }
    }
}
// the transitions of the original are pairwise different, and those of the approximation in more than their weights
proof fn level_once<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, rs2: Seq<Image<S, T, W>>, b: <S::I2 as Instruction>::Shape, us: Seq<Image<S, T, W>>, w: Seq<T>, raw: Seq<Coarse<S, T, W>>, out: Seq<Fine<S, T, W>>, ended: bool)
    requires
        neighbours(inst, rec.rules(), <S::I1 as Instruction>::shape(rec.begin()), rs2, b, us), different(rec.rules()), disagree(rs2),
        finds(rs2, b, w, raw, ended), different_runs(raw), becomes(expand(rec, inst), Multiset::empty(), raw, out, ended),
        forall|i: S::I1, a: <S::I1 as Instruction>::Shape| (#[trigger] i.leads(a)).len() <= 1,
    ensures different_runs(out)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let (rs1, a) = (rec.rules(), <S::I1 as Instruction>::shape(rec.begin()));
    let f = expand(rec, inst);
    let all = all_made::<S::I1, T, W>(out);
    let can = bind(raw.to_multiset(), f);
    assert(Multiset::empty().add(can) =~= can);
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies held((#[trigger] out[i]).1) != held((#[trigger] out[j]).1) by {
        if held(out[i].1) == held(out[j].1) {
            let (m, n) = (made::<S::I1, T, W>(out[i]), made::<S::I1, T, W>(out[j]));
            assert(all[i] == m && all[j] == n);
            assert(all.contains(m) && all.contains(n));
            let c = item_of(rec, inst, raw, m);
            let d = item_of(rec, inst, raw, n);
            reach_once(m.run, a);
            assert(m == n);
            twice(all, i, j);
            assert(can.count(m) >= 2);
            // but it occurs at most once
            assert forall|i: int, j: int| 0 <= i < j < raw.len() implies raw[i] != raw[j] by { assert(held(raw[i].1) != held(raw[j].1)); }
            assert forall|x: Coarse<S, T, W>| #[trigger] raw.to_multiset().count(x) <= 1 by { few(raw, x); }
            assert forall|x: Coarse<S, T, W>| #[trigger] raw.to_multiset().contains(x) implies f(x).count(m) <= 1 by { expanded_once(rec, inst, us, x, m); }
            assert forall|x: Coarse<S, T, W>, z: Coarse<S, T, W>| #![trigger raw.to_multiset().contains(x), raw.to_multiset().contains(z)] raw.to_multiset().contains(x) && raw.to_multiset().contains(z) && f(x).contains(m) && f(z).contains(m) implies x == z by {
                same_coarse(rec, inst, rs2, b, us, w, raw, ended, x, z, m);
            }
            bind_once(raw.to_multiset(), f, m);
        }
    }
}
proof fn item_of<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, raw: Seq<Coarse<S, T, W>>, m: FineMade<S, T, W>) -> (c: Coarse<S, T, W>)
    requires bind(raw.to_multiset(), expand(rec, inst)).contains(m)
    ensures raw.contains(c), made_of_run(rec, inst, c, m)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let f = expand(rec, inst);
    bind_has(raw.to_multiset(), f, m);
    let c = choose|c: Coarse<S, T, W>| #[trigger] raw.to_multiset().contains(c) && f(c).contains(m);
    expanded_from(rec, inst, c, m);
    c
}
// m is what its run comes to, and that is a choice for c
spec fn made_of_run<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, c: Coarse<S, T, W>, m: FineMade<S, T, W>) -> bool {
    choices(inst, held(c.1)).contains(m.run) && results(m.run, <S::I1 as Instruction>::shape(rec.begin())).contains(m)
}
proof fn expanded_from<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, c: Coarse<S, T, W>, m: FineMade<S, T, W>)
    requires expand(rec, inst)(c).contains(m)
    ensures made_of_run(rec, inst, c, m)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    bind_has(choices(inst, held(c.1)), checked(rec), m);
    let r = choose|r: Seq<Original<S, T, W>>| #[trigger] choices(inst, held(c.1)).contains(r) && checked(rec)(r).contains(m);
    assert(results(r, <S::I1 as Instruction>::shape(rec.begin())).contains(m));
    assert(m.run == r);
}
proof fn expanded_once<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, us: Seq<Image<S, T, W>>, c: Coarse<S, T, W>, m: FineMade<S, T, W>)
    requires us.len() == rec.rules().len(), remembers(inst, rec.rules(), us), different(rec.rules()), forall|i: S::I1, a: <S::I1 as Instruction>::Shape| (#[trigger] i.leads(a)).len() <= 1
    ensures expand(rec, inst)(c).count(m) <= 1
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let a = <S::I1 as Instruction>::shape(rec.begin());
    let g = checked(rec);
    let k = choices(inst, held(c.1));
    choices_once(inst, rec.rules(), us, held(c.1));
    assert forall|r: Seq<Original<S, T, W>>| #[trigger] k.contains(r) implies g(r).count(m) <= 1 by { reach_once(r, a); few(results(r, a), m); }
    assert forall|x: Seq<Original<S, T, W>>, z: Seq<Original<S, T, W>>| #![trigger k.contains(x), k.contains(z)] k.contains(x) && k.contains(z) && g(x).contains(m) && g(z).contains(m) implies x == z by {
        assert(results(x, a).contains(m) && results(z, a).contains(m));
        assert(m.run == x && m.run == z);
    }
    bind_once(k, g, m);
}
proof fn same_coarse<Rec: Automaton<T, W, I = S::I1>, S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rec: Rec, inst: ApproximationInstance<S, T, W>, rs2: Seq<Image<S, T, W>>, b: <S::I2 as Instruction>::Shape, us: Seq<Image<S, T, W>>, w: Seq<T>, raw: Seq<Coarse<S, T, W>>, ended: bool, x: Coarse<S, T, W>, z: Coarse<S, T, W>, m: FineMade<S, T, W>)
    requires
        us.len() == rec.rules().len(), remembers(inst, rec.rules(), us), different(rec.rules()), disagree(rs2), finds(rs2, b, w, raw, ended), different_runs(raw),
        raw.to_multiset().contains(x), raw.to_multiset().contains(z), expand(rec, inst)(x).contains(m), expand(rec, inst)(z).contains(m),
    ensures x == z
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let rs1 = rec.rules();
    assert(raw.contains(x) && raw.contains(z));
    let i = choose|i: int| 0 <= i < raw.len() && raw[i] == x;
    let j = choose|j: int| 0 <= j < raw.len() && raw[j] == z;
    assert(accepts(rs2, b, w, held(raw[i].1)) && accepts(rs2, b, w, held(raw[j].1)));
    expanded_from(rec, inst, x, m);
    expanded_from(rec, inst, z, m);
    let (u, v, ts) = (held(x.1), held(z.1), m.run);
    run_returns(inst, rs1, us, ts, u);
    run_returns(inst, rs1, us, ts, v);
    assert forall|n: int| 0 <= n < ts.len() implies u[n] == v[n] by {
        assert(became::<S, T, W>(rs1, us, ts[n], u[n]) && became::<S, T, W>(rs1, us, ts[n], v[n]));
        let k = choose|k: int| 0 <= k < rs1.len() && #[trigger] agree(u[n], us[k]) && rs1[k] == ts[n];
        let l = choose|l: int| 0 <= l < rs1.len() && #[trigger] agree(v[n], us[l]) && rs1[l] == ts[n];
        assert(k == l);
        assert(rs2.contains(u[n]) && rs2.contains(v[n]));
        assert(agree(u[n], v[n]));
    }
    assert(u =~= v);
    assert(i == j);
}
} // verus!
