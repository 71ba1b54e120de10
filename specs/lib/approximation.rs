// ---- lib/approximation.rs: instances of approximation strategies; needs lib/transition_order.rs, lib/pushdown.rs, lib/bind.rs, lib/chain.rs, lib/heap.rs and the trait ApproximationStrategy ----
// ---- std's ordered tables compare keys by their order and by nothing else (assumed) ----
pub uninterp spec fn found<K, V>(m: BTreeMap<K, V>, k: K) -> Option<V>;
#[verifier::external_body]
fn vt_empty_table<K: Ord, V>() -> (r: BTreeMap<K, V>) ensures forall|k: K| (#[trigger] found(r, k)) is None { BTreeMap::new() }
#[verifier::external_body]
fn vt_found<'a, K: Ord, V>(m: &'a BTreeMap<K, V>, k: &K) -> (r: Option<&'a V>)
    requires lawful_ord::<K>()
    ensures match r { Some(v) => found(*m, *k) == Some(*v), None => found(*m, *k) is None }
{ m.get(k) }
struct VtPlace<'m, K, V> { m: &'m mut BTreeMap<K, V>, k: K }
fn vt_place<'m, K: Ord, V>(m: &'m mut BTreeMap<K, V>, k: K) -> (r: VtPlace<'m, K, V>)
    ensures r.k == k, *r.m == *old(m), *final(r.m) == *final(m)
{ VtPlace { m, k } }
impl<'m, K: Ord, V> VtPlace<'m, K, V> {
    #[verifier::external_body]
    fn or_insert(self, d: V) -> (r: &'m mut V)
        requires lawful_ord::<K>()
        ensures
            *r == match found(*old(self.m), self.k) { Some(v) => v, None => d },
            forall|k: K| (#[trigger] found(*final(self.m), k)) == if OrdSpec::cmp_spec(&k, &self.k) == Ordering::Equal { Some(*final(r)) } else { found(*old(self.m), k) },
    { self.m.entry(self.k).or_insert(d) }
}
//@@ type src/approximation/mod.rs ApproximationInstance
//@ attr #[verifier::reject_recursive_types(T)]
//@ attr #[verifier::reject_recursive_types(W)]
//@@ end
type Original<S, T, W> = Transition<<S as ApproximationStrategy<T, W>>::I1, T, W>;
type Image<S, T, W> = Transition<<S as ApproximationStrategy<T, W>>::I2, T, W>;
// the transitions that were approximated by t2, first ones first, whatever t2's weight
spec fn originals<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(a: ApproximationInstance<S, T, W>, t2: Image<S, T, W>) -> Seq<Original<S, T, W>> {
    match found(a.reverse_transition_map, unweighted(t2)) { Some(v) => v@, None => Seq::empty() }
}
spec fn unweighted<I, T, W: One>(t: Transition<I, T, W>) -> Transition<I, T, W> { Transition { word: t.word, weight: W::unit(), instruction: t.instruction } }
// transitions that differ in nothing but their weights
spec fn agree<I, T, W>(a: Transition<I, T, W>, b: Transition<I, T, W>) -> bool { a.word@ == b.word@ && a.instruction == b.instruction }
spec fn lawful_instance<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>() -> bool {
    decides::<S::I2>() && decides::<T>() && decides::<W>() && faithful::<S::I1>() && faithful::<S::I2>() && faithful::<T>() && faithful::<W>()
}
// equal entries for transitions that agree
spec fn well_kept<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(a: ApproximationInstance<S, T, W>) -> bool {
    forall|t: Image<S, T, W>, u: Image<S, T, W>| #![trigger found(a.reverse_transition_map, t), found(a.reverse_transition_map, u)] alike(t, u) ==> found(a.reverse_transition_map, t) == found(a.reverse_transition_map, u)
}
//@@ fn src/approximation/mod.rs ApproximationInstance::new
//@ params strategy
//@ ret r
//@ mappath BTreeMap::new vt_empty_table
//@ ensures well_kept(r), r.strategy == strategy, forall|t2: Image<Strategy, T, W>| (#[trigger] originals(r, t2)) == Seq::<Original<Strategy, T, W>>::empty()
//@@ end
//@@ fn src/approximation/mod.rs ApproximationInstance::approximate_storage
//@ params s1
//@ ret r
//@ requires self.strategy.ready(), Strategy::I1::sound(s1)
//@ ensures Strategy::I2::sound(r), self.strategy.like(Strategy::I1::shape(s1), Strategy::I2::shape(r))
//@@ end
//@@ fn src/approximation/mod.rs ApproximationInstance::approximate_instruction
//@ params i1
//@ ret r
//@ requires self.strategy.ready()
//@ ensures self.strategy.image(*i1, r)
//@@ end
//@@ fn src/approximation/mod.rs ApproximationInstance::without_weight
//@ params t2
//@ ret r
//@ requires lawful_instance::<Strategy, T, W>()
//@ ensures alike(r, unweighted(*t2))
//@ start
    proof { vec_faithful::<T>(); }
//@@ end
//@@ fn src/approximation/mod.rs ApproximationInstance::approximate_transition
//@ params t1
//@ ret r
//@ mapmethod entry vt_place &mut
//@ requires old(self).strategy.ready(), lawful_instance::<Strategy, T, W>(), well_kept(*old(self))
//@ ensures
    well_kept(*final(self)), final(self).strategy == old(self).strategy,
    r.word@ == t1.word@ && r.weight == t1.weight && old(self).strategy.image(t1.instruction, r.instruction),
    forall|t2: Image<Strategy, T, W>| (#[trigger] originals(*final(self), t2)) == if agree(t2, r) { originals(*old(self), t2).push(t1) } else { originals(*old(self), t2) },
//@ start
    proof { transitions_ordered::<Strategy::I2, T, W>(); }
//@@ end
//@@ fn src/approximation/mod.rs ApproximationInstance::unapproximate_transition
//@ params t2
//@ ret r
//@ mapmethod get vt_found &
//@ requires lawful_instance::<Strategy, T, W>(), well_kept(*self)
//@ ensures r@ == originals(*self, *t2)
//@ start
    proof { transitions_ordered::<Strategy::I2, T, W>(); transition_faithful::<Strategy::I1, T, W>(); vec_faithful::<Original<Strategy, T, W>>(); }
//@@ end
// ---- runs ----
// the lists of transitions that v can stem from, each as often as there are ways to choose
spec fn choices<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(a: ApproximationInstance<S, T, W>, v: Seq<Image<S, T, W>>) -> Multiset<Seq<Original<S, T, W>>>
    decreases v.len()
{ if v.len() == 0 { Multiset::singleton(Seq::empty()) } else { bind(choices(a, v.drop_last()), prolonged(originals(a, v.last()))) } }
spec fn prolonged<A>(ts: Seq<A>) -> spec_fn(Seq<A>) -> Multiset<Seq<A>> { |run: Seq<A>| ts.map_values(|t: A| run.push(t)).to_multiset() }
spec fn contents<A>(m: Multiset<Pushdown<A>>) -> Multiset<Seq<A>> { image(m, |p: Pushdown<A>| held(p)) }
spec fn held_by<A>(p: &Pushdown<A>) -> Seq<A> { held(*p) }
spec fn all_held<A>(s: Seq<Pushdown<A>>) -> Seq<Seq<A>> { s.map_values(|p: Pushdown<A>| held(p)) }
spec fn pushed_on<A>(p: Pushdown<A>, ts: Seq<A>, r: Seq<Pushdown<A>>) -> bool { r.len() == ts.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] held(r[i]) == held(p).push(ts[i]) }
spec fn fanned_out<A>(m: Multiset<Pushdown<A>>, ts: Seq<A>, r: Seq<Pushdown<A>>) -> bool {
    exists|v: Seq<Pushdown<A>>, s: Seq<Vec<Pushdown<A>>>| #[trigger] v.to_multiset() == m && r == #[trigger] concat(views(s)) && s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> pushed_on(v[i], ts, (#[trigger] s[i])@)
}
proof fn fanned_contents<A>(m: Multiset<Pushdown<A>>, ts: Seq<A>, r: Seq<Pushdown<A>>)
    requires fanned_out(m, ts, r)
    ensures contents(r.to_multiset()) == bind(contents(m), prolonged(ts))
{
    let (v, s) = choose|v: Seq<Pushdown<A>>, s: Seq<Vec<Pushdown<A>>>| #[trigger] v.to_multiset() == m && r == #[trigger] concat(views(s)) && s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> pushed_on(v[i], ts, (#[trigger] s[i])@);
    let h = |p: Pushdown<A>| held(p);
    let parts = s.map_values(|q: Vec<Pushdown<A>>| all_held(q@));
    image_seq(v, h);
    image_seq(r, h);
    concat_held(s);
    assert forall|i: int| 0 <= i < parts.len() implies (#[trigger] parts[i]).to_multiset() == prolonged(ts)(all_held(v)[i]) by { assert(pushed_on(v[i], ts, s[i]@)); assert(all_held(s[i]@) =~= ts.map_values(|t: A| held(v[i]).push(t))); }
    bind_concat(all_held(v), parts, prolonged(ts));
}
proof fn concat_held<A>(s: Seq<Vec<Pushdown<A>>>)
    ensures all_held(concat(views(s))) == concat(s.map_values(|q: Vec<Pushdown<A>>| all_held(q@)))
    decreases s.len()
{
    let g = |q: Vec<Pushdown<A>>| all_held(q@);
    if s.len() == 0 { assert(views(s) =~= Seq::empty()); assert(s.map_values(g) =~= Seq::empty()); assert(all_held(concat(views(s))) =~= Seq::empty()); } else {
        concat_held(s.drop_last());
        assert(views(s).drop_last() =~= views(s.drop_last()));
        assert(s.map_values(g).drop_last() =~= s.drop_last().map_values(g));
        assert(all_held(concat(views(s.drop_last())) + s.last()@) =~= all_held(concat(views(s.drop_last()))) + all_held(s.last()@));
    }
}
// the entries of a heap, in some order
fn vt_taken<T>(h: BinaryHeap<T>) -> (v: Vec<T>) ensures v@.to_multiset() == heap_els(h)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let mut it = h.into_iter();
    let mut v: Vec<T> = Vec::new();
    proof { assert(v@.to_multiset() =~= Multiset::empty()); assert(v@.to_multiset().add(into_iter_els(it)) =~= heap_els(h)); }
    loop
        invariant v@.to_multiset().add(into_iter_els(it)) == heap_els(h)
        decreases into_iter_els(it).len()
    {
        broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let ghost (v0, it0) = (v@, it);
        match it.next() {
            None => { assert(v@.to_multiset() =~= heap_els(h)); return v; }
            Some(x) => {
                v.push(x);
                proof { assert(v@.to_multiset() =~= v0.to_multiset().insert(x)); assert(v@.to_multiset().add(into_iter_els(it)) =~= v0.to_multiset().add(into_iter_els(it0))); }
            }
        }
    }
}
// a heap holds the elements of the list it is built from (assumed)
#[verifier::external_body]
fn vt_heap_of<T>(v: Vec<T>) -> (r: BinaryHeap<T>) ensures heap_els(r) == v@.to_multiset() { unimplemented!() }
fn vt_heaped<T>(v: Vec<T>) -> (r: BinaryHeap<T>) ensures heap_els(r) == v@.to_multiset(), v@.len() == 1 ==> heap_els(r) == seq![v@[0]].to_multiset()
{ proof { if v@.len() == 1 { assert(v@ =~= seq![v@[0]]); } } vt_heap_of(v) }
// `iter` on whatever it is called on
trait VtListed<'a> {
    type Item;
    spec fn well(&self) -> bool;
    spec fn lists(&self, v: Seq<Self::Item>) -> bool;
    fn vt_listed(&'a self) -> (v: Vec<Self::Item>) requires self.well() ensures self.lists(v@);
}
impl<'a, A: 'a> VtListed<'a> for Vec<A> {
    type Item = &'a A;
    spec fn well(&self) -> bool { true }
    spec fn lists(&self, v: Seq<&'a A>) -> bool { v == refs::<'a, A>(self@) }
    fn vt_listed(&'a self) -> (v: Vec<&'a A>) { vt_iter(self) }
}
impl<'a, A: Clone + 'a> VtListed<'a> for Pushdown<A> {
    type Item = A;
    spec fn well(&self) -> bool { faithful::<A>() }
    spec fn lists(&self, v: Seq<A>) -> bool { v == held(*self) }
    fn vt_listed(&'a self) -> (v: Vec<A>) { self.to_vec() }
}
// the states a fold goes through
spec fn folding<A, T, F: Fn(A, T) -> A>(f: F, v: Seq<T>, st: Seq<A>) -> bool { st.len() == v.len() + 1 && forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (st[i], v[i]), #[trigger] st[i + 1]) }
fn vt_fold<A, T, F: Fn(A, T) -> A>(v: Vec<T>, a: A, f: F) -> (r: A)
    requires forall|x: A, y: T| call_requires(f, (x, y))
    ensures exists|st: Seq<A>| #[trigger] folding(f, v@, st) && st[0] == a && st.last() == r
{
    let mut r = a;
    let ghost mut st = seq![a];
    for x in it: v
        invariant it.seq() == v@, st.len() == it.index@ + 1, st[0] == a, st.last() == r, forall|x: A, y: T| call_requires(f, (x, y)), forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (st[i], v@[i]), #[trigger] st[i + 1])
    {
        let ghost st0 = st;
        let ghost r0 = r;
        r = f(r, x);
        proof { st = st.push(r); assert forall|i: int| 0 <= i < it.index@ + 1 implies call_ensures(f, (st[i], v@[i]), #[trigger] st[i + 1]) by { if i < it.index@ { assert(st0[i + 1] == st[i + 1] && st0[i] == st[i]); } else { assert(st[i] == r0); } } }
    }
    assert(folding(f, v@, st));
    r
}
// a fold that prolongs runs by each list of transitions
proof fn folds_choices<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord, F: Fn(BinaryHeap<Pushdown<Original<S, T, W>>>, Vec<Original<S, T, W>>) -> BinaryHeap<Pushdown<Original<S, T, W>>>>(
    a: ApproximationInstance<S, T, W>, f: F, t2s: Seq<Image<S, T, W>>, v: Seq<Vec<Original<S, T, W>>>, st: Seq<BinaryHeap<Pushdown<Original<S, T, W>>>>)
    requires
        folding(f, v, st), v.len() == t2s.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == originals(a, t2s[i]),
        contents(heap_els(st[0])) == Multiset::singleton(Seq::<Original<S, T, W>>::empty()),
        forall|x: BinaryHeap<Pushdown<Original<S, T, W>>>, y: Vec<Original<S, T, W>>, z: BinaryHeap<Pushdown<Original<S, T, W>>>| #[trigger] call_ensures(f, (x, y), z) ==> contents(heap_els(z)) == bind(contents(heap_els(x)), prolonged(y@)),
    ensures contents(heap_els(st.last())) == choices(a, t2s)
    decreases v.len()
{
    if v.len() > 0 {
        let n = v.len() - 1;
        let (w, su) = (v.drop_last(), st.drop_last());
        assert forall|i: int| 0 <= i < w.len() implies call_ensures(f, (su[i], w[i]), #[trigger] su[i + 1]) by { assert(st[i + 1] == su[i + 1]); }
        assert(folding(f, w, su));
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i])@ == originals(a, t2s.drop_last()[i]) by { assert(v[i] == w[i]); }
        folds_choices(a, f, t2s.drop_last(), w, su);
        assert(call_ensures(f, (st[n], v[n]), st[n + 1]));
        assert(su.last() == st[n]);
    }
}
//@@ fn src/approximation/mod.rs ApproximationInstance::unapproximate_run
//@ params run2
//@ ret r
//@ mapmethod into_iter vt_taken
//@ mapmethod flat_map vt_flat_map
//@ mapmethod iter . vt_listed
//@ mapmethod map vt_map
//@ mapmethod collect vt_collect
//@ mapmethod fold vt_fold
//@ mappath BinaryHeap::from vt_heaped
//@ local f 0
//@ local new_runs 1
//@ requires lawful_instance::<Strategy, T, W>(), well_kept(*self)
//@ ensures contents(heap_els(r)) == choices(*self, held(run2))
//@ closure 0 (h: BinaryHeap<Pushdown<Original<Strategy, T, W>>>, ts1: Vec<Original<Strategy, T, W>>) -> (r: BinaryHeap<Pushdown<Original<Strategy, T, W>>>)
    requires lawful_instance::<Strategy, T, W>()
    ensures contents(heap_els(r)) == bind(contents(heap_els(h)), prolonged(ts1@))
//@ afterlet 1
    proof { fanned_contents(heap_els(h), ts1@, new_runs@); }
//@ closure 1 (run: Pushdown<Original<Strategy, T, W>>) -> (r: Vec<Pushdown<Original<Strategy, T, W>>>)
    requires lawful_instance::<Strategy, T, W>()
    ensures pushed_on(run, ts1@, r@)
//@ closure 2 (t1: &Original<Strategy, T, W>) -> (r: Pushdown<Original<Strategy, T, W>>)
    requires lawful_instance::<Strategy, T, W>()
    ensures held(r) == held_by(&run).push(*t1)
//@ local initial_heap 3
//@ afterlet 3
    proof {
        broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let run = Seq::<Original<Strategy, T, W>>::empty();
        let one = seq![Pushdown::<Original<Strategy, T, W>>::Empty];
        image_seq(one, |p: Pushdown<Original<Strategy, T, W>>| held(p));
        assert(all_held(one) =~= seq![run]);
        assert(seq![run] =~= Seq::empty().push(run));
        assert(seq![run].to_multiset() =~= Multiset::singleton(run));
        assert forall|v: Seq<Vec<Original<Strategy, T, W>>>, st: Seq<BinaryHeap<Pushdown<Original<Strategy, T, W>>>>| #[trigger] folding(f, v, st) && v.len() == held(run2).len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == originals(*self, held(run2)[i])) && st[0] == initial_heap
            implies contents(heap_els(st.last())) == choices(*self, held(run2)) by { folds_choices(*self, f, held(run2), v, st); }
    }
//@ closure 3 (t2: Image<Strategy, T, W>) -> (r: Vec<Original<Strategy, T, W>>)
    requires lawful_instance::<Strategy, T, W>(), well_kept(*self)
    ensures r@ == originals(*self, t2)
//@@ end

// ---- the automaton ----
// the transitions of ts whose counterparts in us agree with t2
spec fn stems_from<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(ts: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, t2: Image<S, T, W>) -> Seq<Original<S, T, W>>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { let q = stems_from::<S, T, W>(ts.drop_last(), us.drop_last(), t2); if agree(t2, us.last()) { q.push(ts.last()) } else { q } } }
// us are the counterparts of ts, with the same words and the same weights
spec fn counterparts<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(s: S, ts: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>) -> bool {
    us.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> counterpart(s, ts[i], #[trigger] us[i])
}
spec fn counterpart<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(s: S, t: Original<S, T, W>, u: Image<S, T, W>) -> bool {
    u.word@ == t.word@ && u.weight == t.weight && s.image(t.instruction, u.instruction)
}
spec fn remembers<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(a: ApproximationInstance<S, T, W>, ts: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>) -> bool {
    forall|t2: Image<S, T, W>| (#[trigger] originals(a, t2)) == stems_from::<S, T, W>(ts, us, t2)
}
//@@ fn src/approximation/mod.rs ApproximationStrategy::approximate_automaton
//@ implhead trait Approximating<T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>: ApproximationStrategy<T, W>
//@ params automaton1
//@ ret r
//@ eachmap 0
//@ mapmethod collect vt_collect
//@ local instance 0
//@ local transitions2 1
//@ requires self.ready(), lawful_instance::<Self, T, W>(), Self::I1::sound(automaton1.begin())
//@ ensures
    well_kept(r.1), r.1.strategy == self,
    exists|us: Seq<Image<Self, T, W>>, s: <Self::I2 as Instruction>::Storage| #[trigger] r.0.made_of(us, s) && counterparts(self, automaton1.rules(), us) && remembers(r.1, automaton1.rules(), us)
        && self.like(Self::I1::shape(automaton1.begin()), Self::I2::shape(s)),
//@ afterlet 1
    proof { assert(automaton1.rules().take(automaton1.rules().len() as int) =~= automaton1.rules()); assert(counterparts(self, automaton1.rules(), transitions2@)); assert(remembers(instance, automaton1.rules(), transitions2@)); us = transitions2@; }
//@ local initial2 2
//@ afterlet 2
    proof { s = Some(initial2); }
//@ start
    let ghost mut us = Seq::<Image<Self, T, W>>::empty();
    let ghost mut s: Option<<Self::I2 as Instruction>::Storage> = None;
//@ tail
    assert(result__.0.made_of(us, s->0));
//@ loop 0 for it
    invariant
        it.seq() == automaton1.rules(), vt_out@.len() == it.index@, well_kept(instance), instance.strategy == self, self.ready(), lawful_instance::<Self, T, W>(),
        counterparts(self, automaton1.rules().take(it.index@), vt_out@), remembers(instance, automaton1.rules().take(it.index@), vt_out@),
//@ loopstart 0
    let ghost out0 = vt_out@;
    let ghost instance0 = instance;
    proof { transition_faithful::<Self::I1, T, W>(); }
//@ loopend 0
    proof {
        let (ts, n) = (automaton1.rules(), it.index@);
        assert(ts.take(n + 1).drop_last() =~= ts.take(n));
        assert(vt_out@.drop_last() =~= out0);
        assert(counterparts(self, ts.take(n + 1), vt_out@)) by {
            assert forall|i: int| 0 <= i < n + 1 implies counterpart(self, ts.take(n + 1)[i], #[trigger] vt_out@[i]) by { if i < n { assert(vt_out@[i] == out0[i]); assert(ts.take(n + 1)[i] == ts.take(n)[i]); } }
        }
        assert forall|t2: Image<Self, T, W>| (#[trigger] originals(instance, t2)) == stems_from::<Self, T, W>(ts.take(n + 1), vt_out@, t2) by {
            assert(originals(instance0, t2) == stems_from::<Self, T, W>(ts.take(n), out0, t2));
        }
    }
//@@ end
// ---- runs of the original and of the approximation ----
// the storages p that a run of the transitions ts passes
spec fn passes<I: Instruction, T, W>(ts: Seq<Transition<I, T, W>>, p: Seq<I::Shape>) -> bool {
    p.len() == ts.len() + 1 && forall|i: int| 0 <= i < ts.len() ==> leads_to((#[trigger] ts[i]).instruction, p[i], p[i + 1])
}
spec fn leads_to<I: Instruction>(i: I, a: I::Shape, b: I::Shape) -> bool { exists|k: int| 0 <= k < i.leads(a).len() && b == #[trigger] i.leads(a)[k] }
// a run of the original is a run of the approximation: with the same words and weights, on storages that are alike, and accepting if it is
proof fn run_kept<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(s: S, ts: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, p: Seq<<S::I1 as Instruction>::Shape>, b: <S::I2 as Instruction>::Shape) -> (q: Seq<<S::I2 as Instruction>::Shape>)
    requires s.ready(), counterparts(s, ts, us), passes(ts, p), s.like(p[0], b)
    ensures
        passes(us, q), q[0] == b, forall|i: int| 0 <= i < p.len() ==> #[trigger] s.like(p[i], q[i]),
        S::I1::closing(p.last()) <==> S::I2::closing(q.last()),
    decreases ts.len()
{
    if ts.len() == 0 {
        let q = seq![b];
        assert(s.like(p[0], q[0]));
        s.closes(p[0], b);
        q
    } else {
        let n = ts.len() - 1;
        let (ts0, us0, p0) = (ts.drop_last(), us.drop_last(), p.drop_last());
        assert forall|i: int| 0 <= i < ts0.len() implies leads_to((#[trigger] ts0[i]).instruction, p0[i], p0[i + 1]) by { assert(ts[i] == ts0[i]); }
        assert forall|i: int| 0 <= i < ts0.len() implies counterpart(s, ts0[i], #[trigger] us0[i]) by { assert(us[i] == us0[i]); }
        let q0 = run_kept(s, ts0, us0, p0, b);
        assert(counterpart(s, ts[n], us[n]));
        assert(leads_to(ts[n].instruction, p[n], p[n + 1]));
        let k = choose|k: int| 0 <= k < ts[n].instruction.leads(p[n]).len() && p[n + 1] == #[trigger] ts[n].instruction.leads(p[n])[k];
        assert(s.like(p0[n], q0[n]));
        let m = s.commutes(ts[n].instruction, us[n].instruction, p[n], q0[n], k);
        let q = q0.push(us[n].instruction.leads(q0[n])[m]);
        assert forall|i: int| 0 <= i < us.len() implies leads_to((#[trigger] us[i]).instruction, q[i], q[i + 1]) by {
            if i < n { assert(us0[i] == us[i]); assert(leads_to(us0[i].instruction, q0[i], q0[i + 1])); } else { assert(q[n + 1] == us[n].instruction.leads(q[n])[m]); }
        }
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] s.like(p[i], q[i]) by { if i < n + 1 { assert(s.like(p0[i], q0[i])); } }
        s.closes(p[n + 1], q[n + 1]);
        q
    }
}
proof fn stems<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(ts: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, t2: Image<S, T, W>, x: Original<S, T, W>)
    requires us.len() == ts.len()
    ensures stems_from::<S, T, W>(ts, us, t2).contains(x) <==> exists|k: int| 0 <= k < ts.len() && #[trigger] agree(t2, us[k]) && ts[k] == x
    decreases ts.len()
{
    if ts.len() > 0 {
        let n = ts.len() - 1;
        let (ts0, us0) = (ts.drop_last(), us.drop_last());
        let g = stems_from::<S, T, W>(ts0, us0, t2);
        let h = stems_from::<S, T, W>(ts, us, t2);
        stems::<S, T, W>(ts0, us0, t2, x);
        if h.contains(x) {
            let j = choose|j: int| 0 <= j < h.len() && h[j] == x;
            if j < g.len() { assert(g[j] == x); let k = choose|k: int| 0 <= k < ts0.len() && #[trigger] agree(t2, us0[k]) && ts0[k] == x; assert(agree(t2, us[k]) && ts[k] == x); } else { assert(agree(t2, us[n]) && ts[n] == x); }
        }
        if exists|k: int| 0 <= k < ts.len() && #[trigger] agree(t2, us[k]) && ts[k] == x {
            let k = choose|k: int| 0 <= k < ts.len() && #[trigger] agree(t2, us[k]) && ts[k] == x;
            if k < n { assert(agree(t2, us0[k]) && ts0[k] == x); let j = choose|j: int| 0 <= j < g.len() && g[j] == x; assert(h[j] == x); } else { assert(h[g.len() as int] == x); }
        }
    }
}
// v lists, one for one, what ts may have become (whatever the weights)
spec fn may_be<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rs: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, ts: Seq<Original<S, T, W>>, v: Seq<Image<S, T, W>>) -> bool {
    ts.len() == v.len() && forall|i: int| 0 <= i < ts.len() ==> became::<S, T, W>(rs, us, #[trigger] ts[i], v[i])
}
spec fn became<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(rs: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, t: Original<S, T, W>, u: Image<S, T, W>) -> bool {
    exists|k: int| 0 <= k < rs.len() && #[trigger] agree(u, us[k]) && rs[k] == t
}
// un-approximation returns exactly the runs that were approximated
proof fn run_returns<S: ApproximationStrategy<T, W>, T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>(a: ApproximationInstance<S, T, W>, rs: Seq<Original<S, T, W>>, us: Seq<Image<S, T, W>>, ts: Seq<Original<S, T, W>>, v: Seq<Image<S, T, W>>)
    requires us.len() == rs.len(), remembers(a, rs, us)
    ensures choices(a, v).contains(ts) <==> may_be::<S, T, W>(rs, us, ts, v)
    decreases v.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if v.len() == 0 { if ts.len() == 0 { assert(ts =~= Seq::empty()); } } else {
        let n = v.len() - 1;
        let f = prolonged(originals(a, v.last()));
        let m = choices(a, v.drop_last());
        assert(choices(a, v) == bind(m, f));
        bind_has(m, f, ts);
        if choices(a, v).contains(ts) {
            let r = choose|r: Seq<Original<S, T, W>>| #[trigger] m.contains(r) && f(r).contains(ts);
            let os = originals(a, v.last());
            let g = |t: Original<S, T, W>| r.push(t);
            assert(os.map_values(g).contains(ts));
            let j = choose|j: int| 0 <= j < os.len() && os.map_values(g)[j] == ts;
            run_returns(a, rs, us, r, v.drop_last());
            stems::<S, T, W>(rs, us, v.last(), os[j]);
            assert(ts == r.push(os[j]));
            assert(os.contains(os[j]));
            assert forall|i: int| 0 <= i < ts.len() implies became::<S, T, W>(rs, us, #[trigger] ts[i], v[i]) by { if i < n { assert(became::<S, T, W>(rs, us, r[i], v.drop_last()[i])); } }
        }
        if may_be::<S, T, W>(rs, us, ts, v) {
            let r = ts.drop_last();
            assert forall|i: int| 0 <= i < r.len() implies became::<S, T, W>(rs, us, #[trigger] r[i], v.drop_last()[i]) by { assert(became::<S, T, W>(rs, us, ts[i], v[i])); }
            run_returns(a, rs, us, r, v.drop_last());
            let x = ts[n];
            assert(became::<S, T, W>(rs, us, x, v[n]));
            stems::<S, T, W>(rs, us, v.last(), x);
            let os = originals(a, v.last());
            assert(os.contains(x));
            let j = choose|j: int| 0 <= j < os.len() && os[j] == x;
            let g = |t: Original<S, T, W>| r.push(t);
            assert(ts =~= r.push(x));
            assert(os.map_values(g)[j] == ts);
            assert(os.map_values(g).contains(ts));
            assert(f(r).contains(ts));
        }
    }
}
