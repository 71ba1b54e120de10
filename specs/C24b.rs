// C24, second part: finite state automata.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque, hash_map::Entry};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {

//@@ include lib/recognition.rs
//@@ include lib/slot.rs
//@@ include lib/numbers.rs
//@@ include lib/pushdown_conv.rs
//@@ include lib/numbered_runs.rs
//@@ type src/automata/finite_state_automaton/mod.rs FiniteStateInstruction
//@ public
//@@ end
impl<Q: Clone> Clone for FiniteStateInstruction<Q> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<Q>() ==> r == *self
    { FiniteStateInstruction { source_state: self.source_state.clone(), target_state: self.target_state.clone() } }
}
#[verifier::external] impl<A: PartialEq> PartialEq for FiniteStateInstruction<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A: Eq> Eq for FiniteStateInstruction<A> {  }
//@@ impl src/automata/finite_state_automaton/mod.rs <Instruction~for~FiniteStateInstruction> apply
impl<Q: Eq + Clone> Instruction for FiniteStateInstruction<Q> {
    type Storage = Q;
    open spec fn works() -> bool { lawful::<Q>() && faithful::<Q>() }
    open spec fn outcomes(&self, s: Q) -> Seq<Q> { if self.source_state == s { seq![self.target_state] } else { Seq::empty() } }
//@@ method src/automata/finite_state_automaton/mod.rs <Instruction~for~FiniteStateInstruction>::apply
//@ params p
//@ ret r
//@ tail
    proof { if Self::works() { assert(result__@ =~= self.outcomes(p)); } }
//@@ end
}
//@@ impl src/automata/finite_state_automaton/mod.rs <Integerisable1~for~FiniteStateInstruction> integerise un_integerise
impl<Q: Clone + Eq + Hash> Integerisable1 for FiniteStateInstruction<Q> {
    type AInt = FiniteStateInstruction<usize>;
    type I = HashIntegeriser<Q>;
    open spec fn codable() -> bool { HashIntegeriser::<Q>::countable() }
    open spec fn stands(&self, i: Seq<Q>, n: FiniteStateInstruction<usize>) -> bool { numbers(i, self.source_state, n.source_state) && numbers(i, self.target_state, n.target_state) }
    proof fn still_stands(&self, i: Seq<Q>, j: Seq<Q>, n: FiniteStateInstruction<usize>) {}
    proof fn one_stands(&self, o: &Self, i: Seq<Q>, n: FiniteStateInstruction<usize>) {}
//@@ method src/automata/finite_state_automaton/mod.rs <Integerisable1~for~FiniteStateInstruction>::integerise
//@ params integeriser
//@ ret r
//@@ end
//@@ method src/automata/finite_state_automaton/mod.rs <Integerisable1~for~FiniteStateInstruction>::un_integerise
//@ params v integeriser
//@ ret r
//@@ end
}
fn vt_none<T>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() == 0) { v.len() == 0 }
// the set of numbers of the crate bit_set (assumed)
#[verifier::external_body]
pub struct BitSet { b: Vec<u32> }
impl BitSet {
    uninterp spec fn has(&self, n: usize) -> bool;
    #[verifier::external_body]
    fn contains(&self, n: usize) -> (r: bool) ensures r == self.has(n) { unimplemented!() }
}
impl VtFrom<usize> for BitSet {
    spec fn made(v: Seq<usize>, r: BitSet) -> bool { forall|n: usize| #[trigger] r.has(n) <==> v.contains(n) }
    #[verifier::external_body]
    fn vt_from(v: Vec<usize>) -> (r: BitSet) { unimplemented!() }
}
type FsMap<Q, T, W> = HashMap<Q, BinaryHeap<FsTrans<Q, T, W>>>;
//@@ type src/automata/finite_state_automaton/mod.rs FiniteStateAutomaton
//@ subst Rc<TransitionMap<usize, usize, W>> =>> Rc<FsMap<usize, usize, W>>
//@ attr
#[verifier::reject_recursive_types(Q)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(W)]
//@@ end
type FsTrans<Q, T, W> = Transition<FiniteStateInstruction<Q>, T, W>;
spec fn source_of<Q>(i: FiniteStateInstruction<Q>) -> Q { i.source_state }
//@@ include lib/filed.rs Filed<=>FsTrans<
//@@ include lib/decodable.rs
//@@ include lib/listing.rs Filed<=>FsTrans<
spec fn has_number<Q>(i: Seq<Q>, q: Q) -> bool { exists|n: usize| numbers(i, q, n) }
spec fn final_numbers<Q>(i: Seq<Q>, finals: Seq<Q>, b: BitSet) -> bool { forall|n: usize| #[trigger] b.has(n) <==> exists|k: int| 0 <= k < finals.len() && #[trigger] numbers(i, finals[k], n) }
proof fn finals_same<Q>(i: Seq<Q>, j: Seq<Q>, finals: Seq<Q>, b: BitSet)
    requires final_numbers(i, finals, b), begun(i, j), distinct(j), forall|k: int| 0 <= k < finals.len() ==> has_number(i, #[trigger] finals[k])
    ensures final_numbers(j, finals, b)
{
    assert forall|n: usize, k: int| 0 <= k < finals.len() implies #[trigger] numbers(j, finals[k], n) == numbers(i, finals[k], n) by {
        let l = choose|l: usize| numbers(i, finals[k], l);
        assert(j[l as int] == finals[k]);
        if numbers(j, finals[k], n) { assert(j[l as int] == j[n as int]); }
    }
    assert forall|n: usize| #[trigger] b.has(n) implies exists|k: int| 0 <= k < finals.len() && #[trigger] numbers(j, finals[k], n) by {
        let k = choose|k: int| 0 <= k < finals.len() && #[trigger] numbers(i, finals[k], n);
        assert(numbers(j, finals[k], n));
    }
}
impl<Q: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> FiniteStateAutomaton<Q, T, W> {
    spec fn states(&self) -> Seq<Q> { self.q_integeriser.known() }
    spec fn symbols(&self) -> Seq<T> { self.t_integeriser.known() }
    // the automaton made of these transitions, this initial state and these final states
    spec fn made_of(&self, ts: Seq<FsTrans<Q, T, W>>, initial: Q, finals: Seq<Q>) -> bool {
        &&& distinct(self.states()) && distinct(self.symbols())
        &&& numbers(self.states(), initial, self.initial_state)
        &&& final_numbers(self.states(), finals, self.final_states)
        &&& filed(self.symbols(), self.states(), ts, (*self.transitions)@)
    }
}
//@@ fn src/automata/finite_state_automaton/mod.rs FiniteStateAutomaton::new
//@ params transitions initial finals
//@ newparams transitions: TransIt, initial: Q, finals: FinalsIt
//@ dropgeneric TransIt FinalsIt
//@ dropbound IntoIterator
//@ subst TransitionMap<usize, usize, W> =>> FsMap<usize, usize, W>
//@ addgeneric TransIt: VtInto<Item = Transition<FiniteStateInstruction<Q>, T, W>>
//@ addgeneric FinalsIt: VtInto<Item = Q>
//@ ret r
//@ eachmap 1
//@ eachmap 0
//@ mapmethod into_iter . vt_into
//@ mapmethod collect vt_gather
//@ mapmethod entry vt_entry &mut
//@ requires obeys_key_model::<Q>(), obeys_key_model::<T>(), faithful::<Q>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<FsTrans<usize, usize, W>>()
//@ ensures r.made_of(transitions.items(), initial, finals.items())
//@ loop 0 for it
    invariant
        HashIntegeriser::<Q>::countable(), numbers(q_inter.known(), initial, init), distinct(q_inter.known()), it.seq() == finals.items(), vt_out@.len() == it.index@,
        forall|k: int| #![trigger vt_out@[k]] #![trigger it.seq()[k]] 0 <= k < vt_out@.len() ==> numbers(q_inter.known(), it.seq()[k], vt_out@[k]),
//@ loop 2 for it
    invariant
        FsTrans::<Q, T, W>::codable(), numbers(q_inter.known(), initial, init), distinct(q_inter.known()), distinct(t_inter.known()), begun(q0, q_inter.known()),
        it.seq() == transitions.items(), coded(t_inter.known(), q_inter.known(), it.seq().take(it.index@), vt_out@),
        it.index@ == it.seq().len() ==> coded(t_inter.known(), q_inter.known(), transitions.items(), vt_out@),
//@ loopstart 2
    let ghost (t1, q1, outs) = (t_inter.known(), q_inter.known(), vt_out@);
//@ loopend 2
    proof { assert(vt_out@.drop_last() =~= outs); coded_more(t1, t_inter.known(), q1, q_inter.known(), it.seq(), it.index@, outs, vt_out@); }
//@ before 2
    proof { coded_none(t_inter.known(), q_inter.known(), transitions.items()); }
//@ afterlet 4
    let ghost q0 = q_inter.known();
    proof { assert forall|k: int| 0 <= k < finals.items().len() implies has_number(q0, #[trigger] finals.items()[k]) by {} assert(final_numbers(q0, finals.items(), fin)); }
//@ before 1
    proof { filed_none(transitions.items(), transition_map@); }
//@ loop 1 for it
    invariant
        obeys_key_model::<usize>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<FsTrans<usize, usize, W>>(),
        coded(t_inter.known(), q_inter.known(), transitions.items(), it.seq()), spread(transition_map@, it.seq().take(it.index@)),
        it.index@ == it.seq().len() ==> filed(t_inter.known(), q_inter.known(), transitions.items(), transition_map@),
//@ loopstart 1
    let ghost m = transition_map@;
//@ loopend 1
    proof { assert(source_of(it.seq()[it.index@].instruction) == it.seq()[it.index@].instruction.source_state); filed_more(t_inter.known(), q_inter.known(), transitions.items(), m, transition_map@, it.seq(), it.index@); }
//@ after 1
    proof { finals_same(q0, q_inter.known(), finals.items(), fin); }
//@@ end
//@@ include lib/list_transitions.rs SOURCE=>src/automata/finite_state_automaton/mod.rs OWNER=>FiniteStateAutomaton Filed<=>FsTrans< Filed::=>FsTrans:: INSTR=>FiniteStateInstruction LABELTABLE=>q_integeriser LABELS=>states LABEL=>Q
//@@ fn src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::initial
//@ implhead impl<Q: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> FiniteStateAutomaton<Q, T, W>
//@ ret r
//@ requires HashIntegeriser::<Q>::countable(), self.initial_state < self.states().len()
//@ ensures numbers(self.states(), r, self.initial_state)
//@@ end
//@@ fn src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::from_transitions
//@ implhead impl<Q: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> FiniteStateAutomaton<Q, T, W>
//@ params transitions initial
//@ newparams transitions: It, initial: Q
//@ newret FiniteStateAutomaton<Q, T, W>
//@ dropgeneric It
//@ dropbound IntoIterator
//@ addgeneric It: VtInto<Item = Transition<FiniteStateInstruction<Q>, T, W>>
//@ ret r
//@ requires obeys_key_model::<Q>(), obeys_key_model::<T>(), faithful::<Q>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<FsTrans<usize, usize, W>>()
//@ ensures r.made_of(transitions.items(), initial, Seq::empty())
//@@ end
// what the automaton tells about itself is what it was made of
proof fn fs_tells<Q: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord>(a: FiniteStateAutomaton<Q, T, W>, ts: Seq<FsTrans<Q, T, W>>, initial: Q, finals: Seq<Q>)
    requires a.made_of(ts, initial, finals)
    ensures
        is_filed::<Q, T, W>(a.symbols(), a.states(), (*a.transitions)@), a.initial_state < a.states().len(),
        forall|r: Seq<FsTrans<Q, T, W>>| #[trigger] lists_all(a.symbols(), a.states(), (*a.transitions)@, r) ==> r.to_multiset() == ts.to_multiset(),
        forall|q: Q| #[trigger] numbers(a.states(), q, a.initial_state) ==> q == initial,
{}
//@@ impl src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton> from_transitions transitions initial item_map terminal_to_int extract_key is_terminal transition_map initial_int
impl<Q: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + MulAssign + One + Ord> Automaton<T, W> for FiniteStateAutomaton<Q, T, W> {
    type Key = usize;
    type I = FiniteStateInstruction<Q>;
    type IInt = FiniteStateInstruction<usize>;
    type TInt = usize;
    closed spec fn usable(&self) -> bool { FsTrans::<Q, T, W>::codable() && builds_valid_hashers::<std::hash::RandomState>() && distinct(self.states()) && distinct(self.symbols()) }
    closed spec fn at(&self, k: usize) -> Multiset<FsTrans<usize, usize, W>> { among_at((*self.transitions)@, k) }
    closed spec fn start(&self) -> usize { self.initial_state }
    closed spec fn letter(&self, t: T) -> Option<usize> { number_of(self.symbols(), t) }
    closed spec fn key(c: Conf<usize, usize, W>) -> usize { c.storage }
    closed spec fn accepting(&self, c: Conf<usize, usize, W>) -> bool { c.word.len() == 0 && self.final_states.has(c.storage) }
    closed spec fn showable(&self, n: Node<usize, FiniteStateInstruction<usize>, usize, W>) -> bool {
        known_word(self.symbols(), n.conf.word) && n.conf.storage < self.states().len() && all_decodable::<FiniteStateInstruction<Q>, T, W>(self.symbols(), self.states(), n.run)
    }
    closed spec fn shown(&self, n: Item<usize, FiniteStateInstruction<usize>, usize, W>, r: Item<Q, FiniteStateInstruction<Q>, T, W>) -> bool {
        &&& spelt(self.symbols(), r.0.word@, n.0.word@) && numbers(self.states(), r.0.storage, n.0.storage) && r.0.weight == n.0.weight
        &&& coded(self.symbols(), self.states(), held(r.1), held(n.1))
    }
//@@ method src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::item_map
//@ params i
//@ ret r
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ mapmethod map vt_map
//@ afterlet 0
    proof {
        assert(faithful::<FsTrans<usize, usize, W>>());
        assert(pd_vec@ == held(*pd));
        assert(all_decodable::<FiniteStateInstruction<Q>, T, W>(self.symbols(), self.states(), pd_vec@));
        assert forall|k: int| 0 <= k < pd_vec@.len() implies decodable::<FiniteStateInstruction<Q>, T, W>(self.symbols(), self.states(), #[trigger] pd_vec@[k]) by { one_decodable::<FiniteStateInstruction<Q>, T, W>(self.symbols(), self.states(), pd_vec@, k); }
        assert forall|k: int| 0 <= k < pd_vec@.len() implies *#[trigger] refs::<FsTrans<usize, usize, W>>(pd_vec@)[k] == pd_vec@[k] && decodable::<FiniteStateInstruction<Q>, T, W>(self.symbols(), self.states(), pd_vec@[k]) by { assert(pd_vec@[k] == nv(*i).run[k]); }
        assert forall|k: int| 0 <= k < word@.len() implies *#[trigger] refs::<usize>(word@)[k] == word@[k] && word@[k] < self.symbols().len() by { assert(word@[k] == nv(*i).conf.word[k]); }
    }
//@ closure 0 (t: &FsTrans<usize, usize, W>) -> (x: FsTrans<Q, T, W>)
    requires FsTrans::<Q, T, W>::codable(), decodable::<FiniteStateInstruction<Q>, T, W>(self.symbols(), self.states(), *t)
    ensures x.stands(self.symbols(), self.states(), *t)
//@ closurestart 0
    let ghost x0 = choose|x: FsTrans<Q, T, W>| #[trigger] x.stands(self.symbols(), self.states(), *t);
    proof { witness::<FsTrans<Q, T, W>>(x0, &self.t_integeriser, &self.q_integeriser, t); }
//@ closure 1 (t: &usize) -> (x: T)
    requires FsTrans::<Q, T, W>::codable(), *t < self.symbols().len()
    ensures numbers(self.symbols(), x, *t)
//@@ end
//@@ method src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::terminal_to_int
//@ params t
//@ ret r
//@ tail
    proof { number_is(self.symbols(), *t, result__); }
//@@ end
//@@ method src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::extract_key
//@ params c
//@ ret r
//@@ end
//@@ method src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::is_terminal
//@ params c
//@ ret r
//@ mapmethod is_empty vt_none &
//@@ end
//@@ method src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::transition_map
//@ ret r
//@ newret Rc<FsMap<usize, usize, W>>
//@@ end
//@@ method src/automata/finite_state_automaton/mod.rs <Automaton~for~FiniteStateAutomaton>::initial_int
//@ ret r
//@@ end
}

// ---- the runs of a finite state automaton are those of its transitions ----
spec fn fs_same<Q>(j: Seq<Q>) -> spec_fn(Q, usize) -> bool { |q: Q, n: usize| numbers(j, q, n) }
spec fn fs_equal<Q>() -> spec_fn(Q, Q) -> bool { |p: Q, q: Q| p == q }
spec fn fs_end<Q>(finals: Seq<Q>) -> spec_fn(Q) -> bool { |q: Q| finals.contains(q) }
proof fn fs_renders<Q: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + MulAssign + One + Ord>(a: FiniteStateAutomaton<Q, T, W>, ts: Seq<FsTrans<Q, T, W>>, initial: Q, finals: Seq<Q>)
    requires a.made_of(ts, initial, finals)
    ensures
        renders(a, a.symbols(), a.states(), ts, initial, fs_same(a.states())),
        shows(a, a.symbols(), a.states(), fs_same(a.states()), fs_equal()),
        accepts_as(a, a.symbols(), a.states(), fs_same(a.states()), fs_end(finals)),
        forall|w: Seq<T>, n: nat, y: Node<usize, FiniteStateInstruction<usize>, usize, W>| #[trigger] runs(a, w, n).contains(y) ==> a.showable(y),
{
    let (i, j) = (a.symbols(), a.states());
    let same = fs_same(j);
    let cs = choose|cs: Seq<FsTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread((*a.transitions)@, cs);
    let m = (*a.transitions)@;
    assert forall|k: usize, c: FsTrans<usize, usize, W>| #[trigger] a.at(k).contains(c) implies from_one(i, j, ts, c) by {
        spread_at(m, cs, k, c);
        let l = choose|l: int| 0 <= l < cs.len() && cs[l] == c;
        assert(stands_for(i, j, ts, cs, l));
    }
    assert forall|l: int| 0 <= l < ts.len() implies stood_for(i, j, #[trigger] ts[l]) by { assert(stands_for(i, j, ts, cs, l)); }
    assert forall|l: int, p: Q, z: Conf<usize, usize, W>| 0 <= l < ts.len() && same(p, z.storage) && #[trigger] ts[l].instruction.outcomes(p).len() > 0 implies as_one(i, j, ts[l], #[trigger] a.at(FiniteStateAutomaton::<Q, T, W>::key(z))) by {
        assert(stands_for(i, j, ts, cs, l));
        let c = cs[l];
        assert(numbers(j, p, z.storage) && numbers(j, p, c.instruction.source_state));
        assert(j[z.storage as int] == j[c.instruction.source_state as int]);
        assert(cs.contains(c));
        spread_at(m, cs, z.storage, c);
    }
    assert(renders(a, i, j, ts, initial, same));
    assert forall|y: Node<Q, FiniteStateInstruction<Q>, T, W>, n: Item<usize, FiniteStateInstruction<usize>, usize, W>, r: Item<Q, FiniteStateInstruction<Q>, T, W>| in_numbers(i, j, same, y, #[trigger] nv(n)) && #[trigger] a.shown(n, r) implies #[trigger] same_node(fs_equal(), nv(r), y) by {
        spelt_one(i, y.conf.word, r.0.word@, n.0.word@);
        coded_one(i, j, y.run, held(r.1), held(n.1));
    }
    assert forall|w: Seq<T>, n: nat, z: Node<usize, FiniteStateInstruction<usize>, usize, W>| #[trigger] runs(a, w, n).contains(z) implies a.showable(z) by {
        let y = runs_are_runs(a, i, j, ts, initial, same, w, n, z);
        assert forall|k: int| 0 <= k < z.conf.word.len() implies #[trigger] z.conf.word[k] < i.len() by { assert(numbers(i, y.conf.word[k], z.conf.word[k])); }
        coded_decodable(i, j, y.run, z.run);
    }
}
// recognise can be used with an automaton that `new` made
proof fn fs_lawful<Q: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: FiniteStateAutomaton<Q, T, W>, ts: Seq<FsTrans<Q, T, W>>, initial: Q, finals: Seq<Q>)
    requires
        a.made_of(ts, initial, finals), can_weigh(ts), lawful_ord::<W>(), faithful::<W>(), faithful::<Q>(), faithful::<T>(),
        obeys_key_model::<Q>(), obeys_key_model::<T>(), builds_valid_hashers::<std::hash::RandomState>(),
    ensures lawful_automaton(a)
{
    fs_renders(a, ts, initial, finals);
    weights_rendered(a, a.symbols(), a.states(), ts, initial, fs_same(a.states()));
    assert(lawful::<usize>());
    broadcast use group_hash_axioms;
}
// what recognise hands out for a finite state automaton: accepting paths of its transitions, and in the end all of them
proof fn fs_recognised<Q: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: FiniteStateAutomaton<Q, T, W>, ts: Seq<FsTrans<Q, T, W>>, initial: Q, finals: Seq<Q>, w: Seq<T>, out: Seq<Item<Q, FiniteStateInstruction<Q>, T, W>>, all: bool)
    requires a.made_of(ts, initial, finals), reports(a, w, out, all)
    ensures
        forall|k: int| 0 <= k < out.len() ==> accepted_run(ts, initial, fs_end(finals), w, nv(#[trigger] out[k])),
        all ==> forall|y: Node<Q, FiniteStateInstruction<Q>, T, W>| #[trigger] accepted_run(ts, initial, fs_end(finals), w, y) ==> found(out, y),
        none_heavier(ts) ==> forall|k: int, l: int| 0 <= k < l < out.len() ==> ord_le((#[trigger] out[l]).0.weight, (#[trigger] out[k]).0.weight),
{
    fs_renders(a, ts, initial, finals);
    weights_rendered(a, a.symbols(), a.states(), ts, initial, fs_same(a.states()));
    reported_runs(a, a.symbols(), a.states(), ts, initial, fs_same(a.states()), fs_equal(), fs_end(finals), w, out, all);
    assert forall|k: int| 0 <= k < out.len() implies accepted_run(ts, initial, fs_end(finals), w, nv(#[trigger] out[k])) by {
        let y = choose|y: Node<Q, FiniteStateInstruction<Q>, T, W>| #[trigger] accepted_run(ts, initial, fs_end(finals), w, y) && same_node(fs_equal(), nv(out[k]), y);
        assert(nv(out[k]) == y);
    }
    if all {
        assert forall|y: Node<Q, FiniteStateInstruction<Q>, T, W>| #[trigger] accepted_run(ts, initial, fs_end(finals), w, y) implies found(out, y) by {
            let k = choose|k: int| 0 <= k < out.len() && same_node(fs_equal(), nv(#[trigger] out[k]), y);
            assert(nv(out[k]) == y);
        }
    }
}
//@@ include lib/once.rs Filed<=>FsTrans<
proof fn fs_codes<Q: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone>(i: Seq<T>, j: Seq<Q>)
    requires distinct(i), distinct(j)
    ensures one_code::<FiniteStateInstruction<Q>, FiniteStateInstruction<usize>, T, W>(i, j)
{
    assert forall|t: FsTrans<Q, T, W>, c: FsTrans<usize, usize, W>, d: FsTrans<usize, usize, W>| #[trigger] t.stands(i, j, c) && #[trigger] t.stands(i, j, d) implies c == d by {
        spelt_back(i, t.word@, c.word@, d.word@);
        same_list(c.word, d.word);
        let (p, q) = (c.instruction, d.instruction);
        assert(j[p.source_state as int] == j[q.source_state as int]);
        assert(j[p.target_state as int] == j[q.target_state as int]);
    }
}
// recognise hands out each accepting run once, if no two transitions are the same
proof fn fs_once<Q: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: FiniteStateAutomaton<Q, T, W>, ts: Seq<FsTrans<Q, T, W>>, initial: Q, finals: Seq<Q>, w: Seq<T>, out: Seq<Item<Q, FiniteStateInstruction<Q>, T, W>>, all: bool)
    requires a.made_of(ts, initial, finals), reports(a, w, out, all), forall|p: int, q: int| 0 <= p < q < ts.len() ==> #[trigger] ts[p] != #[trigger] ts[q]
    ensures each_run_once(out)
{
    let (i, j) = (a.symbols(), a.states());
    fs_renders(a, ts, initial, finals);
    let cs = choose|cs: Seq<FsTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread((*a.transitions)@, cs);
    filed_singly(i, j, ts, cs);
    assert forall|k: usize, c: FsTrans<usize, usize, W>| #[trigger] a.at(k).count(c) <= 1 by {
        assert(among_at((*a.transitions)@, k) == cs.filter(leaves::<usize, W>(k)).to_multiset());
        filter_few(cs, leaves::<usize, W>(k), c);
    }
    assert forall|x: Node<usize, FiniteStateInstruction<usize>, usize, W>, c: FsTrans<usize, usize, W>| (#[trigger] continued(x, c)).len() <= 1 by { assert(c.instruction.outcomes(x.conf.storage).len() <= 1); }
    fs_codes::<Q, T, W>(i, j);
    reported_once(a, i, j, ts, initial, fs_same(j), fs_equal(), w, out, all);
}
} // verus!
