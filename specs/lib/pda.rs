// ---- lib/pda.rs: push-down automata and what is recognised with them ----
//@@ include lib/recognition.rs
//@@ include lib/slot.rs
//@@ include lib/numbers.rs
//@@ include lib/pushdown_conv.rs
//@@ include lib/numbered_runs.rs
//@@ include lib/pushdown_store.rs
//@@ include lib/namer.rs
//@@ include lib/numbering.rs SOURCE=>src/automata/push_down_automaton/mod.rs OWNER=>PushDown Numbering=>StackNumbering
//@@ include lib/numbering.rs SOURCE=>src/automata/push_down_automaton/mod.rs OWNER=>PushDownInstruction Numbering=>InstrNumbering
spec fn within<A, B>(rel: spec_fn(A, B) -> bool, wider: spec_fn(A, B) -> bool) -> bool { forall|a: A, b: B| #[trigger] rel(a, b) ==> wider(a, b) }
spec fn all_named<A, B, F: Namer<A, B>>(k: Seq<F::V>, s: Seq<A>, r: Seq<B>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> F::named(k, s[i], #[trigger] r[i]) }
spec fn all_askable<A, B, F: Namer<A, B>>(k: Seq<F::V>, s: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> F::askable(k, #[trigger] s[i]) }
proof fn still_all_named<A, B, F: Namer<A, B>>(k: Seq<F::V>, l: Seq<F::V>)
    requires begun(k, l)
    ensures
        forall|s: Seq<A>, r: Seq<B>| #[trigger] all_named::<A, B, F>(k, s, r) ==> all_named::<A, B, F>(l, s, r),
        forall|s: Seq<A>| #[trigger] all_askable::<A, B, F>(k, s) ==> all_askable::<A, B, F>(l, s),
{
    assert forall|s: Seq<A>, r: Seq<B>| #[trigger] all_named::<A, B, F>(k, s, r) implies all_named::<A, B, F>(l, s, r) by { assert forall|i: int| 0 <= i < r.len() implies F::named(l, s[i], #[trigger] r[i]) by { F::laws(k, l, s[i], r[i]); } }
    assert forall|s: Seq<A>| #[trigger] all_askable::<A, B, F>(k, s) implies all_askable::<A, B, F>(l, s) by { assert forall|i: int| 0 <= i < s.len() implies F::askable(l, #[trigger] s[i]) by { F::laws(k, l, s[i], arbitrary()); } }
}
proof fn one_more_named<A, B, F: Namer<A, B>>(f0: F, f: F, g: F, s: Seq<A>, n: int, r: Seq<B>, q: Seq<B>)
    requires
        0 <= n < s.len(), all_named::<A, B, F>(f.known(), s.take(n), r), all_askable::<A, B, F>(f.known(), s), moved_on(f0, f), moved_on(f, g),
        q.len() == n + 1, q.drop_last() == r, F::named(g.known(), s[n], q.last()),
    ensures all_named::<A, B, F>(g.known(), s.take(n + 1), q), all_askable::<A, B, F>(g.known(), s), moved_on(f0, g), n + 1 == s.len() ==> all_named::<A, B, F>(g.known(), s, q)
{
    still_all_named::<A, B, F>(f.known(), g.known());
    moves_on(f0, f, g);
    assert(all_named::<A, B, F>(g.known(), s.take(n), r));
    assert forall|i: int| 0 <= i < q.len() implies F::named(g.known(), s.take(n + 1)[i], #[trigger] q[i]) by { if i < n { assert(q[i] == r[i]); assert(s.take(n)[i] == s[i]); } }
    if n + 1 == s.len() { assert(s.take(n + 1) =~= s); }
}
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::map_mut
//@ params f
//@ ret r
//@ dropbound FnMut
//@ dropgeneric F
//@ addgeneric F: Namer<A, B>
//@ eachfn f
//@ callmap f vt_call
//@ eachmap 0
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ requires F::able(), all_askable::<A, B, F>(old(f).known(), self.elements@)
//@ ensures all_named::<A, B, F>(final(f).known(), self.elements@, r.elements@), moved_on(*old(f), *final(f))
//@ start
    let ghost f0 = *f;
    proof { f.tied_on_itself(); }
//@ loop 0 for it
    invariant
        F::able(), vals(it.seq()) == self.elements@, all_named::<A, B, F>(f.known(), self.elements@.take(it.index@), vt_out@), moved_on(f0, *f), all_askable::<A, B, F>(f.known(), self.elements@),
        it.index@ == it.seq().len() ==> all_named::<A, B, F>(f.known(), self.elements@, vt_out@),
//@ loopstart 0
    let ghost (f1, outs) = (*f, vt_out@);
    assert(vals(it.seq())[it.index@] == *vt_x);
//@ loopend 0
    proof { assert(vt_out@.drop_last() =~= outs); one_more_named(f0, f1, *f, self.elements@, it.index@, outs, vt_out@); }
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs map_vec_mut
//@ params v, f
//@ ret r
//@ dropbound FnMut
//@ dropgeneric F
//@ addgeneric F: Namer<A, B>
//@ callmap f vt_call
//@ forpat 0 a
//@ local res 0
//@ requires F::able(), all_askable::<A, B, F>(old(f).known(), v@)
//@ ensures all_named::<A, B, F>(final(f).known(), v@, r@), moved_on(*old(f), *final(f))
//@ start
    let ghost f0 = *f;
    proof { f.tied_on_itself(); }
//@ loop 0 for it
    invariant
        F::able(), it.seq() == refs(v@), all_named::<A, B, F>(f.known(), v@.take(it.index@), res@), moved_on(f0, *f), all_askable::<A, B, F>(f.known(), v@),
        it.index@ == it.seq().len() ==> all_named::<A, B, F>(f.known(), v@, res@),
//@ loopstart 0
    let ghost (f1, outs) = (*f, res@);
    assert(*a == v@[it.index@]);
//@ loopend 0
    proof { assert(res@.drop_last() =~= outs); one_more_named(f0, f1, *f, v@, it.index@, outs, res@); }
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDownInstruction::map_mut
//@ params f
//@ ret r
//@ dropbound FnMut
//@ dropgeneric F
//@ addgeneric F: Namer<A, B>
//@ requires F::able(), match *self { PushDownInstruction::Replace { current_val, new_val } => all_askable::<A, B, F>(old(f).known(), current_val@) && all_askable::<A, B, F>(old(f).known(), new_val@) }
//@ ensures match (*self, r) { (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) => all_named::<A, B, F>(final(f).known(), c@, d@) && all_named::<A, B, F>(final(f).known(), n@, m@) }, moved_on(*old(f), *final(f))
//@ start
    let ghost f0 = *f;
    proof {
        assert forall|k: Seq<F::V>, l: Seq<F::V>, s: Seq<A>, r: Seq<B>| begun(k, l) && #[trigger] all_named::<A, B, F>(k, s, r) implies #[trigger] all_named::<A, B, F>(l, s, r) by { still_all_named::<A, B, F>(k, l); }
        assert forall|k: Seq<F::V>, l: Seq<F::V>, s: Seq<A>| begun(k, l) && #[trigger] all_askable::<A, B, F>(k, s) implies #[trigger] all_askable::<A, B, F>(l, s) by { still_all_named::<A, B, F>(k, l); }
        assert forall|f: F, g: F, h: F| #[trigger] f.tied(&g) && #[trigger] g.tied(&h) implies f.tied(&h) by { f.tied_on(&g, &h); }
    }
//@@ end

impl<A: Clone> Clone for PushDownInstruction<A> {
    // what deriving Clone gives
    fn clone(&self) -> (r: Self)
        ensures faithful::<A>() ==> r == *self
    {
        match self { PushDownInstruction::Replace { current_val, new_val } => {
            let (c, n) = (current_val.clone(), new_val.clone());
            proof { if faithful::<A>() { assert(c@ =~= current_val@ && n@ =~= new_val@); same_list(c, *current_val); same_list(n, *new_val); } }
            PushDownInstruction::Replace { current_val: c, new_val: n }
        } }
    }
}
impl<A: Clone> Clone for PushDown<A> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<A>() ==> r == *self
    {
        let e = self.elements.clone();
        proof { if faithful::<A>() { assert(e@ =~= self.elements@); same_list(e, self.elements); } }
        PushDown { elements: e }
    }
}
#[verifier::external] impl<A: PartialEq> PartialEq for PushDownInstruction<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A: Eq> Eq for PushDownInstruction<A> {  }
#[verifier::external] impl<A: Hash> Hash for PushDownInstruction<A> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
spec fn stack_of<A>(s: Seq<A>) -> PushDown<A> { choose|p: PushDown<A>| p.elements@ == s }
proof fn only_stack<A>(p: PushDown<A>, s: Seq<A>)
    requires p.elements@ == s
    ensures p == stack_of(s)
{ same_list(p.elements, stack_of(s).elements); }
proof fn answered_as<A: Ord + PartialEq + Clone + Hash>(i: PushDownInstruction<A>, s: PushDown<A>, r: Seq<PushDown<A>>)
    requires match i { PushDownInstruction::Replace { current_val, new_val } => if on_top(s.elements@, current_val@) { r.len() == 1 && r[0].elements@ == replaced(s.elements@, current_val@.len() as int, new_val@) } else { r.len() == 0 } }
    ensures r == i.outcomes(s)
{
    match i { PushDownInstruction::Replace { current_val, new_val } => { if on_top(s.elements@, current_val@) { assert(r[0].elements.len() == r[0].elements@.len()); only_stack(r[0], replaced(s.elements@, current_val@.len() as int, new_val@)); } } }
    assert(r =~= i.outcomes(s));
}
//@@ impl src/automata/push_down_automaton/mod.rs <Instruction~for~PushDownInstruction> apply
impl<A: Ord + PartialEq + Clone + Hash> Instruction for PushDownInstruction<A> {
    type Storage = PushDown<A>;
    closed spec fn works() -> bool { lawful::<A>() && faithful::<A>() }
    closed spec fn outcomes(&self, s: PushDown<A>) -> Seq<PushDown<A>> {
        match *self { PushDownInstruction::Replace { current_val, new_val } => if on_top(s.elements@, current_val@) && replaced(s.elements@, current_val@.len() as int, new_val@).len() <= usize::MAX { seq![stack_of(replaced(s.elements@, current_val@.len() as int, new_val@))] } else { Seq::empty() } }
    }
//@@ method src/automata/push_down_automaton/mod.rs <Instruction~for~PushDownInstruction>::apply
//@ params p
//@ ret r
//@ mapmethod into_iter vt_option_list
//@ mapmethod collect vt_collect
//@ start
    let ghost s0 = p;
    proof { assert(lawful::<A>() && faithful::<A>()); }
//@ tail
    proof {
        answered_as(*self, s0, result__@);
    }
//@@ end
}
proof fn spelt_known<A>(i: Seq<A>, v: Seq<A>, n: Seq<usize>)
    requires spelt(i, v, n)
    ensures forall|k: int| 0 <= k < n.len() ==> #[trigger] n[k] < i.len()
{ assert forall|k: int| 0 <= k < n.len() implies #[trigger] n[k] < i.len() by { assert(numbers(i, v[k], n[k])); } }
proof fn instr_known<A: Clone + Eq + Hash>(i: Seq<A>, x: PushDownInstruction<A>, v: PushDownInstruction<usize>)
    requires x.stands(i, v)
    ensures match v { PushDownInstruction::Replace { current_val, new_val } => (forall|k: int| 0 <= k < current_val@.len() ==> #[trigger] current_val@[k] < i.len()) && forall|k: int| 0 <= k < new_val@.len() ==> #[trigger] new_val@[k] < i.len() }
{ match (x, v) { (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) => { spelt_known(i, c@, d@); spelt_known(i, n@, m@); } } }
//@@ impl src/automata/push_down_automaton/mod.rs <Integerisable1~for~PushDownInstruction> integerise un_integerise
impl<A: Clone + Eq + Hash> Integerisable1 for PushDownInstruction<A> {
    type AInt = PushDownInstruction<usize>;
    type I = HashIntegeriser<A>;
    closed spec fn codable() -> bool { HashIntegeriser::<A>::countable() }
    closed spec fn stands(&self, i: Seq<A>, n: PushDownInstruction<usize>) -> bool {
        match (*self, n) { (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) => spelt(i, c@, d@) && spelt(i, n@, m@) }
    }
    proof fn still_stands(&self, i: Seq<A>, j: Seq<A>, n: PushDownInstruction<usize>) {}
    proof fn one_stands(&self, o: &Self, i: Seq<A>, n: PushDownInstruction<usize>) {
        match (*self, *o, n) { (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: c2, new_val: n2 }, PushDownInstruction::Replace { current_val: d, new_val: m }) => {
            spelt_one(i, c@, c2@, d@); spelt_one(i, n@, n2@, m@);
            same_list(c, c2); same_list(n, n2);
        } }
    }
//@@ method src/automata/push_down_automaton/mod.rs <Integerisable1~for~PushDownInstruction>::integerise
//@ params integeriser
//@ lift 0 InstrNumbering { integeriser }
//@ ret r
//@@ end
//@@ method src/automata/push_down_automaton/mod.rs <Integerisable1~for~PushDownInstruction>::un_integerise
//@ params v integeriser
//@ newparams v: &PushDownInstruction<usize>, integeriser: &HashIntegeriser<A>
//@ ret r
//@ closure 0 (i: &usize) -> (x: A)
    requires HashIntegeriser::<A>::countable(), *i < integeriser.known().len()
    ensures numbers(integeriser.known(), x, *i)
//@ start
    let ghost x0 = choose|x: Self| #[trigger] x.stands(integeriser.known(), *v);
    proof {
        assert(x0.stands(integeriser.known(), *v));
        instr_known(integeriser.known(), x0, *v);
    }
//@@ end
}
//@@ fn src/automata/push_down_automaton/mod.rs <Integerisable1~for~PushDown>::integerise
//@ implhead impl<A: Clone + Eq + Hash> PushDown<A>
//@ params integeriser
//@ newparams &self, integeriser: &mut HashIntegeriser<A>
//@ newret PushDown<usize>
//@ lift 0 StackNumbering { integeriser }
//@ ret r
//@ requires HashIntegeriser::<A>::countable()
//@ ensures spelt(final(integeriser).known(), self.elements@, r.elements@), begun(old(integeriser).known(), final(integeriser).known()), distinct(old(integeriser).known()) ==> distinct(final(integeriser).known())
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs <Integerisable1~for~PushDown>::un_integerise
//@ implhead impl<A: Clone + Eq + Hash> PushDown<A>
//@ params aint integeriser
//@ newparams aint: &PushDown<usize>, integeriser: &HashIntegeriser<A>
//@ newret PushDown<A>
//@ ret r
//@ closure 0 (i: &usize) -> (x: A)
    requires HashIntegeriser::<A>::countable(), *i < integeriser.known().len()
    ensures numbers(integeriser.known(), x, *i)
//@ requires HashIntegeriser::<A>::countable(), known_word(integeriser.known(), aint.elements@)
//@ ensures spelt(integeriser.known(), r.elements@, aint.elements@)
//@@ end
type PdTrans<Q, T, W> = Transition<PushDownInstruction<Q>, T, W>;
spec fn source_of<A>(i: PushDownInstruction<A>) -> A { match i { PushDownInstruction::Replace { current_val, .. } => current_val@.first() } }
//@@ include lib/filed.rs Filed<=>PdTrans<
//@@ include lib/decodable.rs
//@@ include lib/listing.rs Filed<=>PdTrans<
//@@ include lib/merged.rs
type PdMap<A, T, W> = HashMap<A, BinaryHeap<PdTrans<A, T, W>>>;
//@@ type src/automata/push_down_automaton/mod.rs PushDownAutomaton
//@ subst Rc<TransitionMap<usize, usize, W>> =>> Rc<PdMap<usize, usize, W>>
//@ attr
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(W)]
//@@ end
impl<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> PushDownAutomaton<A, T, W> {
    spec fn labels(&self) -> Seq<A> { self.a_integeriser.known() }
    spec fn symbols(&self) -> Seq<T> { self.t_integeriser.known() }
    // the automaton made of these transitions (no two of them alike but for their weight) and this initial storage
    spec fn holds(&self, ms: Seq<PdTrans<A, T, W>>, initial: PushDown<A>) -> bool {
        &&& distinct(self.labels()) && distinct(self.symbols())
        &&& spelt(self.labels(), initial.elements@, self.initial.elements@)
        &&& filed(self.symbols(), self.labels(), ms, (*self.transitions)@)
    }
}
// what consuming a table yields: each of its entries once, in an order nothing is known about (assumed)
impl<K, V> VtInto for HashMap<K, V> {
    type Item = (K, V);
    uninterp spec fn items(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    fn vt_into(self) -> (r: Vec<(K, V)>) { self.into_iter().collect() }
}
#[verifier::external_body]
proof fn each_once<K, V>(m: HashMap<K, V>)
    requires obeys_key_model::<K>()
    ensures one_each(m@, m.items())
{}
impl<T: Ord> VtFrom<T> for BinaryHeap<T> {
    spec fn made(s: Seq<T>, r: BinaryHeap<T>) -> bool { lawful_ord::<T>() ==> heap_els(r) == s.to_multiset() }
    #[verifier::external_body]
    fn vt_from(v: Vec<T>) -> (r: BinaryHeap<T>) { v.into_iter().collect() }
}
spec fn apart<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
proof fn one_more_each<K, V>(m: Map<K, V>, s: Seq<(K, V)>, i: int)
    requires apart(s), one_each(m, s.take(i)), 0 <= i < s.len()
    ensures one_each(m.insert(s[i].0, s[i].1), s.take(i + 1))
{
    let (n, t, u) = (m.insert(s[i].0, s[i].1), s.take(i), s.take(i + 1));
    assert forall|k: int| 0 <= k < u.len() implies n.contains_key((#[trigger] u[k]).0) && n[u[k].0] == u[k].1 by { if k < i { assert(t[k] == s[k]); assert(s[k].0 != s[i].0); } }
    assert forall|k: int, l: int| 0 <= k < l < u.len() implies (#[trigger] u[k]).0 != (#[trigger] u[l]).0 by { assert(s[k].0 != s[l].0); }
    assert forall|x: K| #[trigger] n.contains_key(x) implies exists|k: int| 0 <= k < u.len() && (#[trigger] u[k]).0 == x by {
        if x == s[i].0 { assert(u[i].0 == x); } else { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == x; assert(u[k].0 == x); }
    }
}
impl<K: Eq + Hash, V> VtFrom<(K, V)> for HashMap<K, V> {
    spec fn made(s: Seq<(K, V)>, r: HashMap<K, V>) -> bool { obeys_key_model::<K>() && builds_valid_hashers::<std::hash::RandomState>() && apart(s) ==> one_each(r@, s) }
    fn vt_from(v: Vec<(K, V)>) -> (r: HashMap<K, V>) {
        broadcast use group_hash_axioms;
        let mut r = HashMap::new();
        proof { assert(v@.take(v@.len() as int) =~= v@); }
        for (k, x) in it: v
            invariant it.seq() == v@, obeys_key_model::<K>() && builds_valid_hashers::<std::hash::RandomState>() && apart(v@) ==> one_each(r@, v@.take(it.index@)), v@.take(v@.len() as int) == v@
        {
            broadcast use group_hash_axioms;
            let ghost m = r@;
            assert(v@[it.index@] == (k, x));
            r.insert(k, x);
            proof { if obeys_key_model::<K>() && builds_valid_hashers::<std::hash::RandomState>() && apart(v@) { one_more_each(m, v@, it.index@); } }
        }
        r
    }
}
fn vt_front<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@.first()
{ if v.len() == 0 { None } else { Some(&v[0]) } }
//@@ fn src/automata/push_down_automaton/mod.rs PushDownAutomaton::new
//@ params transitions initial
//@ newparams transitions: It, initial: PushDown<A>
//@ dropgeneric It
//@ dropbound IntoIterator
//@ addgeneric It: VtInto<Item = Transition<PushDownInstruction<A>, T, W>>
//@ ret r
//@ eachmap 0
//@ mapmethod into_iter . vt_into
//@ mapmethod entry vt_entry &mut
//@ mapmethod first vt_front &
//@ mapmethod map vt_map
//@ mapmethod collect vt_gather
//@ requires
    obeys_key_model::<A>(), obeys_key_model::<T>(), obeys_key_model::<PdKey<usize, usize>>(), faithful::<A>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<PdTrans<usize, usize, W>>(),
    addable::<W>(), all_rooted(transitions.items()),
//@ ensures r.holds(merged(transitions.items()), initial)
//@ loop 1 for it
    invariant
        PdTrans::<A, T, W>::codable(), distinct(a_inter.known()), distinct(t_inter.known()), begun(q0, a_inter.known()),
        it.seq() == transitions.items(), coded(t_inter.known(), a_inter.known(), it.seq().take(it.index@), vt_out@),
        it.index@ == it.seq().len() ==> coded(t_inter.known(), a_inter.known(), transitions.items(), vt_out@),
//@ loopstart 1
    let ghost (t1, q1, outs) = (t_inter.known(), a_inter.known(), vt_out@);
//@ loopend 1
    proof { assert(vt_out@.drop_last() =~= outs); coded_more(t1, t_inter.known(), q1, a_inter.known(), it.seq(), it.index@, outs, vt_out@); }
//@ before 1
    proof { coded_none(t_inter.known(), a_inter.known(), transitions.items()); }
//@ afterlet 2
    let ghost q0 = a_inter.known();
//@ before 0
    proof { gathered_none(transitions.items(), transition_map@); }
//@ loop 0 for it
    invariant
        obeys_key_model::<usize>(), obeys_key_model::<PdKey<usize, usize>>(), builds_valid_hashers::<std::hash::RandomState>(), addable::<W>(), all_rooted(transitions.items()),
        coded(t_inter.known(), a_inter.known(), transitions.items(), it.seq()), nested(transition_map@, merged(it.seq().take(it.index@))),
        it.index@ == it.seq().len() ==> gathered(t_inter.known(), a_inter.known(), transitions.items(), transition_map@),
//@ loopstart 0
    let ghost (m, t0) = (transition_map@, t);
    proof { one_rooted(t_inter.known(), a_inter.known(), transitions.items(), it.seq(), it.index@); }
//@ loopend 0
    proof { gathered_more(t_inter.known(), a_inter.known(), transitions.items(), m, transition_map@, it.seq(), it.index@); }
//@ closure 0 (p: (usize, HashMap<PdKey<usize, usize>, W>)) -> (e: (usize, BinaryHeap<PdTrans<usize, usize, W>>))
    requires obeys_key_model::<PdKey<usize, usize>>(), lawful_ord::<PdTrans<usize, usize, W>>()
    ensures e.0 == p.0, heaped(p.1@, heap_els(e.1))
//@ closure 1 (q: (PdKey<usize, usize>, W)) -> (t: PdTrans<usize, usize, W>)
    ensures t == entry_of(q)
//@ closurestart 0
    proof {
        each_once(p.1);
        assert forall|r: Seq<PdTrans<usize, usize, W>>| r.len() == p.1.items().len() && (forall|l: int| 0 <= l < r.len() ==> #[trigger] r[l] == entry_of(p.1.items()[l])) implies heaped(p.1@, #[trigger] r.to_multiset()) by { entries_heaped(p.1@, p.1.items(), r); }
    }
//@ after 0
    proof {
        assert(spelt(a_inter.known(), initial.elements@, init.elements@));
        each_once(transition_map);
        assert forall|r: Seq<(usize, BinaryHeap<PdTrans<usize, usize, W>>)>, n: PdMap<usize, usize, W>| heaped_each(transition_map.items(), r) && #[trigger] <PdMap<usize, usize, W> as VtFrom<(usize, BinaryHeap<PdTrans<usize, usize, W>>)>>::made(r, n) implies filed(t_inter.known(), a_inter.known(), merged(transitions.items()), n@) by {
            gathered_filed(t_inter.known(), a_inter.known(), transitions.items(), transition_map, r, n);
        }
    }
//@@ end
spec fn heaped_each<W>(s: Seq<(usize, HashMap<PdKey<usize, usize>, W>)>, r: Seq<(usize, BinaryHeap<PdTrans<usize, usize, W>>)>) -> bool {
    r.len() == s.len() && forall|l: int| 0 <= l < s.len() ==> (#[trigger] r[l]).0 == s[l].0 && heaped(s[l].1@, heap_els(r[l].1))
}
proof fn gathered_filed<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone + AddAssign + Zero>(i: Seq<T>, j: Seq<Q>, ts: Seq<PdTrans<Q, T, W>>, m: HashMap<usize, HashMap<PdKey<usize, usize>, W>>, r: Seq<(usize, BinaryHeap<PdTrans<usize, usize, W>>)>, n: PdMap<usize, usize, W>)
    requires
        distinct(i), distinct(j), gathered(i, j, ts, m@), one_each(m@, m.items()), heaped_each(m.items(), r), obeys_key_model::<usize>(), builds_valid_hashers::<std::hash::RandomState>(),
        <PdMap<usize, usize, W> as VtFrom<(usize, BinaryHeap<PdTrans<usize, usize, W>>)>>::made(r, n),
    ensures filed(i, j, merged(ts), n@)
{
    let s = m.items();
    assert forall|k: int, l: int| 0 <= k < l < r.len() implies (#[trigger] r[k]).0 != (#[trigger] r[l]).0 by { assert(s[k].0 != s[l].0); }
    assert(apart(r));
    assert(one_each(n@, r));
    assert forall|k: usize| #[trigger] n@.contains_key(k) implies m@.contains_key(k) && heaped(m@[k]@, heap_els(n@[k])) by { let l = choose|l: int| 0 <= l < r.len() && (#[trigger] r[l]).0 == k; assert(m@[s[l].0] == s[l].1); }
    assert forall|k: usize| m@.contains_key(k) implies #[trigger] n@.contains_key(k) by { let l = choose|l: int| 0 <= l < s.len() && (#[trigger] s[l]).0 == k; assert(n@.contains_key(r[l].0)); }
    let cs = choose|cs: Seq<PdTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && nested(m@, merged(cs));
    merged_coded(i, j, ts, cs);
    merged_unmixed(cs);
    nested_spread(m@, n@, merged(cs));
}
// the table has the transitions ts, in numbers, those alike made one
spec fn gathered<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone + AddAssign + Zero>(i: Seq<T>, j: Seq<Q>, ts: Seq<PdTrans<Q, T, W>>, m: PdTable<W>) -> bool {
    exists|cs: Seq<PdTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && nested(m, merged(cs))
}
proof fn gathered_none<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone + AddAssign + Zero>(ts: Seq<PdTrans<Q, T, W>>, m: PdTable<W>)
    requires m == PdTable::<W>::empty()
    ensures
        forall|cs: Seq<PdTrans<usize, usize, W>>| nested(m, merged(#[trigger] cs.take(0))),
        forall|i: Seq<T>, j: Seq<Q>| ts.len() == 0 ==> #[trigger] gathered(i, j, ts, m),
{
    assert forall|cs: Seq<PdTrans<usize, usize, W>>| nested(m, merged(#[trigger] cs.take(0))) by { nested_none(m, cs); }
    let none = Seq::<PdTrans<usize, usize, W>>::empty();
    assert(none.take(0) =~= none);
    assert forall|i: Seq<T>, j: Seq<Q>| ts.len() == 0 implies #[trigger] gathered(i, j, ts, m) by { assert(coded(i, j, ts, none)); }
}
proof fn gathered_more<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone + AddAssign + Zero>(i: Seq<T>, j: Seq<Q>, ts: Seq<PdTrans<Q, T, W>>, m: PdTable<W>, n: PdTable<W>, cs: Seq<PdTrans<usize, usize, W>>, k: int)
    requires
        nested(m, merged(cs.take(k))), 0 <= k < cs.len(), coded(i, j, ts, cs),
        n =~= m.insert(source_of(cs[k].instruction), n[source_of(cs[k].instruction)]),
        n[source_of(cs[k].instruction)]@ =~= more(base(m, source_of(cs[k].instruction)), key_of(cs[k]), cs[k].weight),
    ensures nested(n, merged(cs.take(k + 1))), k + 1 == cs.len() ==> gathered(i, j, ts, n)
{
    nested_more(m, n, cs, k);
    if k + 1 == cs.len() { assert(cs.take(k + 1) =~= cs); }
}
proof fn one_rooted<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, ts: Seq<PdTrans<Q, T, W>>, cs: Seq<PdTrans<usize, usize, W>>, k: int)
    requires coded(i, j, ts, cs), all_rooted(ts), 0 <= k < cs.len()
    ensures rooted(cs[k])
{ assert(stands_for(i, j, ts, cs, k)); assert(rooted(ts[k])); }
// assumed: lists can be that long
#[verifier::external_body]
proof fn some_list<T>(s: Seq<T>)
    requires s.len() <= usize::MAX
    ensures exists|v: Vec<T>| #[trigger] v@ == s
{}
proof fn some_stack<A>(s: Seq<A>)
    requires s.len() <= usize::MAX
    ensures stack_of(s).elements@ == s
{ some_list(s); let v = choose|v: Vec<A>| #[trigger] v@ == s; assert(PushDown { elements: v }.elements@ == s); }
// the topmost symbol; assumed: an automaton that has emptied its pushdown stops here (and hands nothing out)
#[verifier::external_body]
fn vt_stop() ensures false { panic!() }
fn vt_top<A>(p: &PushDown<A>) -> (r: &A)
    ensures *r == p.elements@.last()
{ if p.elements.len() == 0 { vt_stop(); } p.current_symbol() }
fn vt_none<T>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() == 0) { v.len() == 0 }
//@@ include lib/list_transitions.rs SOURCE=>src/automata/push_down_automaton/mod.rs OWNER=>PushDownAutomaton Filed<=>PdTrans< Filed::=>PdTrans:: INSTR=>PushDownInstruction LABELTABLE=>a_integeriser LABELS=>labels LABEL=>A
//@@ fn src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::initial
//@ implhead impl<A: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> PushDownAutomaton<A, T, W>
//@ ret r
//@ mappath Integerisable1::un_integerise PushDown::un_integerise
//@ requires HashIntegeriser::<A>::countable(), known_word(self.labels(), self.initial.elements@)
//@ ensures spelt(self.labels(), r.elements@, self.initial.elements@)
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::from_transitions
//@ implhead impl<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + Ord + Zero> PushDownAutomaton<A, T, W>
//@ params transitions initial
//@ newparams transitions: It, initial: PushDown<A>
//@ newret PushDownAutomaton<A, T, W>
//@ dropgeneric It
//@ dropbound IntoIterator
//@ addgeneric It: VtInto<Item = Transition<PushDownInstruction<A>, T, W>>
//@ ret r
//@ requires
    obeys_key_model::<A>(), obeys_key_model::<T>(), obeys_key_model::<PdKey<usize, usize>>(), faithful::<A>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<PdTrans<usize, usize, W>>(),
    addable::<W>(), all_rooted(transitions.items()),
//@ ensures r.holds(merged(transitions.items()), initial)
//@@ end
// what the automaton tells about itself is what it was made of
proof fn pd_tells<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord>(a: PushDownAutomaton<A, T, W>, ms: Seq<PdTrans<A, T, W>>, initial: PushDown<A>)
    requires a.holds(ms, initial)
    ensures
        is_filed::<A, T, W>(a.symbols(), a.labels(), (*a.transitions)@), known_word(a.labels(), a.initial.elements@),
        forall|r: Seq<PdTrans<A, T, W>>| #[trigger] lists_all(a.symbols(), a.labels(), (*a.transitions)@, r) ==> r.to_multiset() == ms.to_multiset(),
        forall|p: PushDown<A>| #[trigger] spelt(a.labels(), p.elements@, a.initial.elements@) ==> p == initial,
{
    spelt_known(a.labels(), initial.elements@, a.initial.elements@);
    assert forall|p: PushDown<A>| #[trigger] spelt(a.labels(), p.elements@, a.initial.elements@) implies p == initial by {
        spelt_one(a.labels(), p.elements@, initial.elements@, a.initial.elements@);
        same_list(p.elements, initial.elements);
    }
}
//@@ impl src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton> from_transitions transitions initial item_map terminal_to_int extract_key is_terminal transition_map initial_int
impl<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + MulAssign + One + Ord + Zero> Automaton<T, W> for PushDownAutomaton<A, T, W> {
    type Key = usize;
    type I = PushDownInstruction<A>;
    type IInt = PushDownInstruction<usize>;
    type TInt = usize;
    closed spec fn usable(&self) -> bool { PdTrans::<A, T, W>::codable() && builds_valid_hashers::<std::hash::RandomState>() && distinct(self.labels()) && distinct(self.symbols()) }
    closed spec fn at(&self, k: usize) -> Multiset<PdTrans<usize, usize, W>> { among_at((*self.transitions)@, k) }
    closed spec fn start(&self) -> PushDown<usize> { self.initial }
    closed spec fn letter(&self, t: T) -> Option<usize> { number_of(self.symbols(), t) }
    closed spec fn key(c: Conf<PushDown<usize>, usize, W>) -> usize { c.storage.elements@.last() }
    closed spec fn accepting(&self, c: Conf<PushDown<usize>, usize, W>) -> bool { c.word.len() == 0 && c.storage.elements@.len() == 1 }
    closed spec fn showable(&self, n: Node<PushDown<usize>, PushDownInstruction<usize>, usize, W>) -> bool {
        known_word(self.symbols(), n.conf.word) && known_word(self.labels(), n.conf.storage.elements@) && all_decodable::<PushDownInstruction<A>, T, W>(self.symbols(), self.labels(), n.run)
    }
    closed spec fn shown(&self, n: Item<PushDown<usize>, PushDownInstruction<usize>, usize, W>, r: Item<PushDown<A>, PushDownInstruction<A>, T, W>) -> bool {
        &&& spelt(self.symbols(), r.0.word@, n.0.word@) && spelt(self.labels(), r.0.storage.elements@, n.0.storage.elements@) && r.0.weight == n.0.weight
        &&& coded(self.symbols(), self.labels(), held(r.1), held(n.1))
    }
//@@ method src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::item_map
//@ params i
//@ ret r
//@ mappath Integerisable1::un_integerise PushDown::un_integerise
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ mapmethod map vt_map
//@ afterlet 0
    proof {
        assert(faithful::<PdTrans<usize, usize, W>>());
        assert(pd_vec@ == held(*pd));
        assert(all_decodable::<PushDownInstruction<A>, T, W>(self.symbols(), self.labels(), pd_vec@));
        assert forall|k: int| 0 <= k < pd_vec@.len() implies decodable::<PushDownInstruction<A>, T, W>(self.symbols(), self.labels(), #[trigger] pd_vec@[k]) by { one_decodable::<PushDownInstruction<A>, T, W>(self.symbols(), self.labels(), pd_vec@, k); }
        assert forall|k: int| 0 <= k < pd_vec@.len() implies *#[trigger] refs::<PdTrans<usize, usize, W>>(pd_vec@)[k] == pd_vec@[k] && decodable::<PushDownInstruction<A>, T, W>(self.symbols(), self.labels(), pd_vec@[k]) by { assert(pd_vec@[k] == nv(*i).run[k]); }
        assert forall|k: int| 0 <= k < word@.len() implies *#[trigger] refs::<usize>(word@)[k] == word@[k] && word@[k] < self.symbols().len() by { assert(word@[k] == nv(*i).conf.word[k]); }
    }
//@ closure 0 (t: &PdTrans<usize, usize, W>) -> (x: PdTrans<A, T, W>)
    requires PdTrans::<A, T, W>::codable(), decodable::<PushDownInstruction<A>, T, W>(self.symbols(), self.labels(), *t)
    ensures x.stands(self.symbols(), self.labels(), *t)
//@ closurestart 0
    let ghost x0 = choose|x: PdTrans<A, T, W>| #[trigger] x.stands(self.symbols(), self.labels(), *t);
    proof { witness::<PdTrans<A, T, W>>(x0, &self.t_integeriser, &self.a_integeriser, t); }
//@ closure 1 (t: &usize) -> (x: T)
    requires PdTrans::<A, T, W>::codable(), *t < self.symbols().len()
    ensures numbers(self.symbols(), x, *t)
//@@ end
//@@ method src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::terminal_to_int
//@ params t
//@ ret r
//@ tail
    proof { number_is(self.symbols(), *t, result__); }
//@@ end
//@@ method src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::extract_key
//@ params c
//@ ret r
//@ mapmethod current_symbol vt_top &
//@@ end
//@@ method src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::is_terminal
//@ params c
//@ ret r
//@ mapmethod is_empty vt_none &
//@@ end
//@@ method src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::transition_map
//@ ret r
//@ newret Rc<PdMap<usize, usize, W>>
//@@ end
//@@ method src/automata/push_down_automaton/mod.rs <Automaton~for~PushDownAutomaton>::initial_int
//@ ret r
//@@ end
}
spec fn rooted<Q, T, W>(t: PdTrans<Q, T, W>) -> bool { match t.instruction { PushDownInstruction::Replace { current_val, .. } => current_val@.len() > 0 } }
spec fn all_rooted<Q, T, W>(ts: Seq<PdTrans<Q, T, W>>) -> bool { forall|l: int| 0 <= l < ts.len() ==> rooted(#[trigger] ts[l]) }
spec fn pd_same<A>(j: Seq<A>) -> spec_fn(PushDown<A>, PushDown<usize>) -> bool { |p: PushDown<A>, q: PushDown<usize>| spelt(j, p.elements@, q.elements@) }
spec fn pd_equal<A>() -> spec_fn(PushDown<A>, PushDown<A>) -> bool { |p: PushDown<A>, q: PushDown<A>| p == q }
// the bottom symbol only
spec fn pd_end<A>() -> spec_fn(PushDown<A>) -> bool { |p: PushDown<A>| p.elements@.len() == 1 }
proof fn on_top_in_numbers<A>(j: Seq<A>, p: Seq<A>, q: Seq<usize>, c: Seq<A>, d: Seq<usize>)
    requires distinct(j), spelt(j, p, q), spelt(j, c, d)
    ensures on_top(p, c) <==> on_top(q, d)
{
    if on_top(p, c) { assert forall|i: int| 0 <= i < d.len() implies q[q.len() - 1 - i] == #[trigger] d[i] by { assert(numbers(j, c[i], d[i])); assert(numbers(j, p[p.len() - 1 - i], q[q.len() - 1 - i])); assert(p[p.len() - 1 - i] == c[i]); } }
    if on_top(q, d) { assert forall|i: int| 0 <= i < c.len() implies p[p.len() - 1 - i] == #[trigger] c[i] by { assert(numbers(j, c[i], d[i])); assert(numbers(j, p[p.len() - 1 - i], q[q.len() - 1 - i])); assert(q[q.len() - 1 - i] == d[i]); } }
}
// instructions do on numbers what they do on labels
proof fn instr_in_numbers<A: Ord + Clone + Hash>(j: Seq<A>, i: PushDownInstruction<A>, c: PushDownInstruction<usize>, p: PushDown<A>, q: PushDown<usize>)
    requires distinct(j), i.stands(j, c), pd_same(j)(p, q)
    ensures pairwise(pd_same(j), i.outcomes(p), c.outcomes(q)), i.outcomes(p).len() > 0 && rooted_instr(c) ==> q.elements@.last() == source_of(c)
{
    match (i, c) { (PushDownInstruction::Replace { current_val: a, new_val: b }, PushDownInstruction::Replace { current_val: d, new_val: e }) => {
        on_top_in_numbers(j, p.elements@, q.elements@, a@, d@);
        if on_top(p.elements@, a@) {
            let (r, s) = (replaced(p.elements@, a@.len() as int, b@), replaced(q.elements@, d@.len() as int, e@));
            assert forall|k: int| 0 <= k < s.len() implies numbers(j, r[k], #[trigger] s[k]) by {
                let n = q.elements@.len() - d@.len();
                if k < n { assert(numbers(j, p.elements@[k], q.elements@[k])); } else { assert(numbers(j, b@[k - n], e@[k - n])); }
            }
            if r.len() <= usize::MAX { some_stack(r); some_stack(s); assert(pd_same(j)(i.outcomes(p)[0], c.outcomes(q)[0])); }
            if d@.len() > 0 { assert(d@[0] == source_of(c)); }
        }
    } }
}
spec fn rooted_instr<A>(i: PushDownInstruction<A>) -> bool { match i { PushDownInstruction::Replace { current_val, .. } => current_val@.len() > 0 } }
proof fn pd_renders<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(a: PushDownAutomaton<A, T, W>, ts: Seq<PdTrans<A, T, W>>, initial: PushDown<A>)
    requires a.holds(ts, initial), all_rooted(ts), lawful::<A>(), faithful::<A>()
    ensures
        renders(a, a.symbols(), a.labels(), ts, initial, pd_same(a.labels())),
        shows(a, a.symbols(), a.labels(), pd_same(a.labels()), pd_equal()),
        accepts_as(a, a.symbols(), a.labels(), pd_same(a.labels()), pd_end()),
        forall|w: Seq<T>, n: nat, y: Node<PushDown<usize>, PushDownInstruction<usize>, usize, W>| #[trigger] runs(a, w, n).contains(y) ==> a.showable(y),
{
    let (i, j) = (a.symbols(), a.labels());
    let same = pd_same(j);
    let cs = choose|cs: Seq<PdTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread((*a.transitions)@, cs);
    let m = (*a.transitions)@;
    assert(lawful::<usize>() && faithful::<usize>());
    assert forall|k: usize, c: PdTrans<usize, usize, W>| #[trigger] a.at(k).contains(c) implies from_one(i, j, ts, c) by {
        spread_at(m, cs, k, c);
        let l = choose|l: int| 0 <= l < cs.len() && cs[l] == c;
        assert(stands_for(i, j, ts, cs, l));
    }
    assert forall|l: int| 0 <= l < ts.len() implies stood_for(i, j, #[trigger] ts[l]) by { assert(stands_for(i, j, ts, cs, l)); }
    assert forall|l: int, c: PdTrans<usize, usize, W>, p: PushDown<A>, q: PushDown<usize>| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, c) && same(p, q) implies pairwise(same, #[trigger] ts[l].instruction.outcomes(p), #[trigger] c.instruction.outcomes(q)) by {
        instr_in_numbers(j, ts[l].instruction, c.instruction, p, q);
    }
    assert forall|l: int, p: PushDown<A>, z: Conf<PushDown<usize>, usize, W>| 0 <= l < ts.len() && same(p, z.storage) && #[trigger] ts[l].instruction.outcomes(p).len() > 0 implies as_one(i, j, ts[l], #[trigger] a.at(PushDownAutomaton::<A, T, W>::key(z))) by {
        assert(stands_for(i, j, ts, cs, l));
        let c = cs[l];
        one_rooted(i, j, ts, cs, l);
        instr_in_numbers(j, ts[l].instruction, c.instruction, p, z.storage);
        assert(cs.contains(c));
        spread_at(m, cs, z.storage.elements@.last(), c);
    }
    assert(renders(a, i, j, ts, initial, same));
    assert forall|y: Node<PushDown<A>, PushDownInstruction<A>, T, W>, n: Item<PushDown<usize>, PushDownInstruction<usize>, usize, W>, r: Item<PushDown<A>, PushDownInstruction<A>, T, W>| in_numbers(i, j, same, y, #[trigger] nv(n)) && #[trigger] a.shown(n, r) implies #[trigger] same_node(pd_equal(), nv(r), y) by {
        spelt_one(i, y.conf.word, r.0.word@, n.0.word@);
        spelt_one(j, y.conf.storage.elements@, r.0.storage.elements@, n.0.storage.elements@);
        same_list(y.conf.storage.elements, r.0.storage.elements);
        coded_one(i, j, y.run, held(r.1), held(n.1));
    }
    assert forall|w: Seq<T>, n: nat, z: Node<PushDown<usize>, PushDownInstruction<usize>, usize, W>| #[trigger] runs(a, w, n).contains(z) implies a.showable(z) by {
        let y = runs_are_runs(a, i, j, ts, initial, same, w, n, z);
        spelt_known(i, y.conf.word, z.conf.word);
        spelt_known(j, y.conf.storage.elements@, z.conf.storage.elements@);
        coded_decodable(i, j, y.run, z.run);
    }
}
// merging leaves words and instructions as they are
proof fn merged_rooted<A, T, W: AddAssign + Zero>(ts: Seq<PdTrans<A, T, W>>)
    requires all_rooted(ts)
    ensures all_rooted(merged(ts))
{
    merged_from(ts);
    let ms = merged(ts);
    assert forall|l: int| 0 <= l < ms.len() implies rooted(#[trigger] ms[l]) by { let k = spot(ts, key_of(ms[l])); assert(has_key(ts, key_of(ms[l]))); assert(rooted(ts[k])); assert(key_of(ts[k]).1 == ms[l].instruction); }
}
// recognise can be used with an automaton that `new` made
proof fn pd_lawful<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(a: PushDownAutomaton<A, T, W>, ts: Seq<PdTrans<A, T, W>>, initial: PushDown<A>)
    requires
        a.holds(merged(ts), initial), all_rooted(ts), lawful::<A>(), can_weigh(merged(ts)), lawful_ord::<W>(), faithful::<W>(), faithful::<A>(), faithful::<T>(),
        obeys_key_model::<A>(), obeys_key_model::<T>(), builds_valid_hashers::<std::hash::RandomState>(),
    ensures lawful_automaton(a)
{
    merged_rooted(ts);
    pd_renders(a, merged(ts), initial);
    weights_rendered(a, a.symbols(), a.labels(), merged(ts), initial, pd_same(a.labels()));
    assert(lawful::<usize>() && faithful::<usize>());
    assert(faithful::<PushDown<usize>>() && faithful::<PushDownInstruction<usize>>());
    broadcast use group_hash_axioms;
}
// what recognise hands out for a push-down automaton: accepting runs of its transitions (those alike made one), and in the end all of them
proof fn pd_recognised<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(a: PushDownAutomaton<A, T, W>, ts: Seq<PdTrans<A, T, W>>, initial: PushDown<A>, w: Seq<T>, out: Seq<Item<PushDown<A>, PushDownInstruction<A>, T, W>>, all: bool)
    requires a.holds(merged(ts), initial), all_rooted(ts), lawful::<A>(), faithful::<A>(), reports(a, w, out, all)
    ensures
        forall|k: int| 0 <= k < out.len() ==> accepted_as(pd_equal(), merged(ts), initial, pd_end(), w, nv(#[trigger] out[k])),
        all ==> forall|y: Node<PushDown<A>, PushDownInstruction<A>, T, W>| #[trigger] accepted_run(merged(ts), initial, pd_end(), w, y) ==> found_as(pd_equal(), out, y),
        none_heavier(merged(ts)) ==> forall|k: int, l: int| 0 <= k < l < out.len() ==> ord_le((#[trigger] out[l]).0.weight, (#[trigger] out[k]).0.weight),
{
    merged_rooted(ts);
    pd_renders(a, merged(ts), initial);
    weights_rendered(a, a.symbols(), a.labels(), merged(ts), initial, pd_same(a.labels()));
    reported_runs(a, a.symbols(), a.labels(), merged(ts), initial, pd_same(a.labels()), pd_equal(), pd_end(), w, out, all);
}
