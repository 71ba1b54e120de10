// C27, second part: tree stack automata made of multiple context-free grammars.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque, hash_map::Entry};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {

//@@ include lib/tsa.rs
// ---- multiple context-free grammars ----
//@@ type src/grammars/pmcfg/mod.rs VarT
//@@ end
//@@ type src/grammars/pmcfg/mod.rs Composition
//@@ end
//@@ type src/grammars/pmcfg/mod.rs PMCFGRule
//@@ end
//@@ type src/grammars/pmcfg/mod.rs PMCFG
//@@ end
//@@ type src/automata/tree_stack_automaton/from_pmcfg.rs PosState
//@@ end
// what deriving Clone gives
impl<T: Clone> Clone for VarT<T> {
    fn clone(&self) -> (r: Self) ensures faithful::<T>() ==> r == *self { match self { VarT::Var(i, j) => VarT::Var(*i, *j), VarT::T(t) => VarT::T(t.clone()) } }
}
proof fn var_faithful<T: Clone>() ensures faithful::<T>() ==> faithful::<VarT<T>>() {}
impl<T: Clone> Clone for Composition<T> {
    fn clone(&self) -> (r: Self) ensures faithful::<T>() ==> r == *self { proof { var_faithful::<T>(); vec_faithful::<VarT<T>>(); vec_faithful::<Vec<VarT<T>>>(); } Composition { composition: self.composition.clone() } }
}
impl<N: Clone, T: Clone, W: Clone> Clone for PMCFGRule<N, T, W> {
    fn clone(&self) -> (r: Self) ensures faithful::<N>() && faithful::<T>() && faithful::<W>() ==> r == *self { proof { vec_faithful::<N>(); } PMCFGRule { head: self.head.clone(), tail: self.tail.clone(), composition: self.composition.clone(), weight: self.weight.clone() } }
}
proof fn rule_faithful<N: Clone, T: Clone, W: Clone>() ensures faithful::<N>() && faithful::<T>() && faithful::<W>() ==> faithful::<PMCFGRule<N, T, W>>() {}
impl<X: Clone> Clone for PosState<X> {
    fn clone(&self) -> (r: Self) ensures faithful::<X>() ==> r == *self { match self { PosState::Designated => PosState::Designated, PosState::Initial => PosState::Initial, PosState::Position(x, i, j) => PosState::Position(x.clone(), *i, *j) } }
}
proof fn pos_faithful<X: Clone>() ensures faithful::<X>() ==> faithful::<PosState<X>>() {}
// assumed: what deriving gives
#[verifier::external] impl<X: PartialEq> PartialEq for PosState<X> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<X: Eq> Eq for PosState<X> {}
#[verifier::external] impl<X: PartialOrd> PartialOrd for PosState<X> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<X: Ord> Ord for PosState<X> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<X: Hash> Hash for PosState<X> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
#[verifier::external] impl<N: PartialEq, T: PartialEq, W> PartialEq for PMCFGRule<N, T, W> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<N: Eq, T: Eq, W> Eq for PMCFGRule<N, T, W> {}
#[verifier::external] impl<N: PartialOrd, T: PartialOrd, W: PartialOrd> PartialOrd for PMCFGRule<N, T, W> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<N: Ord, T: Ord, W: Ord> Ord for PMCFGRule<N, T, W> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<N: Hash, T: Hash, W> Hash for PMCFGRule<N, T, W> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
//@@ fn src/automata/tree_stack_automaton/from_pmcfg.rs PosState::map
//@ params f
//@ ret r
//@ requires forall|a: &X| call_requires(f, (a,))
//@ ensures
    match *self {
        PosState::Designated => r is Designated,
        PosState::Initial => r is Initial,
        PosState::Position(a, i, j) => (r matches PosState::Position(b, k, l) && call_ensures(f, (&a,), b) && k == i && l == j),
    }
//@@ end
// Assumed: std's ordered tables with lawful keys are finite maps.
#[verifier::external_body]
fn vt_table<K: Ord, V>() -> (m: BTreeMap<K, V>) ensures m@ == Map::<K, V>::empty() { BTreeMap::new() }
#[verifier::external_body]
fn vt_table_insert<K: Ord, V>(m: &mut BTreeMap<K, V>, k: K, v: V) -> (r: Option<V>) requires lawful_keys::<K>() ensures final(m)@ == old(m)@.insert(k, v) { m.insert(k, v) }
#[verifier::external_body]
fn vt_table_get<'a, K: Ord, V>(m: &'a BTreeMap<K, V>, k: &K) -> (r: Option<&'a V>)
    requires lawful_keys::<K>()
    ensures match r { Some(v) => m@.contains_key(*k) && *v == m@[*k], None => !m@.contains_key(*k) }
{ m.get(k) }
#[verifier::external_body]
fn vt_table_at<'a, K: Ord, V>(m: &'a BTreeMap<K, V>, k: &K) -> (r: &'a V)
    requires lawful_keys::<K>(), m@.contains_key(*k)
    ensures *r == m@[*k]
{ &m[k] }
#[verifier::external_body]
fn vt_table_mut<'a, K: Ord, V>(m: &'a mut BTreeMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
    requires lawful_keys::<K>()
    ensures match r {
        Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
        None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@,
    }
{ m.get_mut(k) }
fn vt_set_of<K: Ord>(v: Vec<K>) -> (s: BTreeSet<K>) requires lawful_keys::<K>() ensures s@ == v@.to_set(), forall|i: int| 0 <= i < v@.len() ==> s@.contains(#[trigger] v@[i]) { VtFrom::vt_from(v) }
// the last value of a key stays
impl<K: Ord, V> VtFrom<(K, V)> for BTreeMap<K, V> {
    spec fn made(v: Seq<(K, V)>, r: BTreeMap<K, V>) -> bool { lawful_keys::<K>() ==> paired(v, r@) }
    #[verifier::external_body]
    fn vt_from(v: Vec<(K, V)>) -> (r: BTreeMap<K, V>) { v.into_iter().collect() }
}
spec fn paired<K, V>(v: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == (k, m[k])
}
fn vt_or_empty<V>(o: Option<Vec<V>>) -> (r: Vec<V>) ensures r@ == (match o { Some(v) => v@, None => Seq::empty() }) { match o { Some(v) => v, None => Vec::new() } }
fn vt_copied<V: Clone>(o: Option<&Vec<V>>) -> (r: Option<Vec<V>>) ensures match (o, r) { (None, None) => true, (Some(v), Some(w)) => faithful::<V>() ==> w@ == v@, _ => false }
{ match o { Some(v) => { proof { vec_faithful::<V>(); } Some(v.clone()) } None => None } }

type Pos<N, T, W> = PosState<PMCFGRule<N, T, W>>;
type Doing<N, T, W> = TreeStackInstruction<Pos<N, T, W>>;
// what a transition is to be
ghost struct Step<N, T, W> { word: Seq<T>, weight: W, doing: Doing<N, T, W> }
spec fn is_step<N, T, W>(t: TsTrans<Pos<N, T, W>, T, W>, s: Step<N, T, W>) -> bool { t.word@ == s.word && t.weight == s.weight && t.instruction == s.doing }
spec fn are_steps<N, T, W>(ts: Seq<TsTrans<Pos<N, T, W>, T, W>>, ss: Seq<Step<N, T, W>>) -> bool { ts.len() == ss.len() && forall|i: int| #![trigger ts[i]] #![trigger ss[i]] 0 <= i < ts.len() ==> is_step(ts[i], ss[i]) }
proof fn one_more_step<N, T, W>(ts: Seq<TsTrans<Pos<N, T, W>, T, W>>, ss: Seq<Step<N, T, W>>, t: TsTrans<Pos<N, T, W>, T, W>, s: Step<N, T, W>)
    requires are_steps(ts, ss), is_step(t, s)
    ensures are_steps(ts.push(t), ss.push(s))
{}
// the variables of (the beginning of) a component, and the letters after the last of them
spec fn vars<T>(c: Seq<VarT<T>>) -> nat decreases c.len() { if c.len() == 0 { 0 } else { vars(c.drop_last()) + (match c.last() { VarT::Var(i, j) => 1nat, VarT::T(t) => 0nat }) } }
spec fn trail<T>(c: Seq<VarT<T>>) -> Seq<T> decreases c.len() { if c.len() == 0 { Seq::empty() } else { match c.last() { VarT::Var(i, j) => Seq::empty(), VarT::T(t) => trail(c.drop_last()).push(t) } } }
proof fn vars_at_most<T>(c: Seq<VarT<T>>) ensures vars(c) <= c.len() decreases c.len() { if c.len() > 0 { vars_at_most(c.drop_last()); } }
spec fn comps<N, T, W>(r: PMCFGRule<N, T, W>) -> nat { r.composition.composition@.len() }
spec fn comp<N, T, W>(r: PMCFGRule<N, T, W>, j: int) -> Seq<VarT<T>> { r.composition.composition@[j]@ }
spec fn pos<N, T, W>(r: PMCFGRule<N, T, W>, j: int, k: nat) -> Pos<N, T, W> { PosState::Position(r, j as usize, k as usize) }
spec fn ended<N, T, W>(r: PMCFGRule<N, T, W>, j: int) -> Pos<N, T, W> { pos(r, j, vars(comp(r, j))) }
// an initial rule is entered, and left in the end
spec fn enters<N, T, W: One>(r: PMCFGRule<N, T, W>) -> Step<N, T, W> { Step { word: Seq::empty(), weight: r.weight, doing: TreeStackInstruction::Push { n: 0, current_val: PosState::Initial, new_val: pos(r, 0, 0) } } }
spec fn exits<N, T, W: One>(r: PMCFGRule<N, T, W>) -> Step<N, T, W> { Step { word: trail(comp(r, 0)), weight: W::unit(), doing: TreeStackInstruction::Down { current_val: ended(r, 0), old_val: PosState::Initial, new_val: PosState::Designated } } }
spec fn opened<N, T, W: One>(rs: Seq<PMCFGRule<N, T, W>>) -> Seq<Step<N, T, W>> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { opened(rs.drop_last()).push(enters(rs.last())).push(exits(rs.last())) } }
spec fn starting<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, initial: Seq<N>) -> Seq<PMCFGRule<N, T, W>> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else if initial.contains(rs.last().head) { starting(rs.drop_last(), initial).push(rs.last()) } else { starting(rs.drop_last(), initial) } }
spec fn headed<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N) -> Seq<PMCFGRule<N, T, W>> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else if rs.last().head == n { headed(rs.drop_last(), n).push(rs.last()) } else { headed(rs.drop_last(), n) } }
// the component of each successor that was visited last
type Visited = Seq<Option<usize>>;
spec fn visited<T>(p: Visited, c: Seq<VarT<T>>) -> Visited decreases c.len() { if c.len() == 0 { p } else { match c.last() { VarT::Var(i, j) => visited(p, c.drop_last()).update(i as int, Some(j)), VarT::T(t) => visited(p, c.drop_last()) } } }
spec fn visited_before<N, T, W>(r: PMCFGRule<N, T, W>, j: int) -> Visited decreases j { if j <= 0 { Seq::new(r.tail@.len(), |i: int| None::<usize>) } else { visited(visited_before(r, j - 1), comp(r, j - 1)) } }
// in r, after word, component j1 of the rule q is entered (for the first time, or again), and left
spec fn calls<N, T, W: One>(r: PMCFGRule<N, T, W>, j: int, k: nat, word: Seq<T>, i1: usize, j1: usize, before: Option<usize>, q: PMCFGRule<N, T, W>) -> Step<N, T, W> {
    match before {
        None => Step { word, weight: q.weight, doing: TreeStackInstruction::Push { n: i1, current_val: pos(r, j, k), new_val: pos(q, j1 as int, 0) } },
        Some(j0) => Step { word, weight: W::unit(), doing: TreeStackInstruction::Up { n: i1, current_val: pos(r, j, k), old_val: ended(q, j0 as int), new_val: pos(q, j1 as int, 0) } },
    }
}
spec fn returns<N, T, W: One>(r: PMCFGRule<N, T, W>, j: int, k: nat, j1: usize, q: PMCFGRule<N, T, W>) -> Step<N, T, W> {
    Step { word: trail(comp(q, j1 as int)), weight: W::unit(), doing: TreeStackInstruction::Down { current_val: ended(q, j1 as int), old_val: pos(r, j, k), new_val: pos(r, j, k + 1) } }
}
spec fn called<N, T, W: One>(r: PMCFGRule<N, T, W>, j: int, k: nat, word: Seq<T>, i1: usize, j1: usize, before: Option<usize>, qs: Seq<PMCFGRule<N, T, W>>) -> Seq<Step<N, T, W>> decreases qs.len() {
    if qs.len() == 0 { Seq::empty() } else { called(r, j, k, word, i1, j1, before, qs.drop_last()).push(calls(r, j, k, word, i1, j1, before, qs.last())).push(returns(r, j, k, j1, qs.last())) }
}
spec fn at_token<N, T, W: One>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, j: int, p: Visited, c: Seq<VarT<T>>, v: VarT<T>) -> Seq<Step<N, T, W>> {
    match v { VarT::Var(i1, j1) => called(r, j, vars(c), trail(c), i1, j1, visited(p, c)[i1 as int], headed(rs, r.tail@[i1 as int])), VarT::T(t) => Seq::empty() }
}
spec fn in_comp<N, T, W: One>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, j: int, p: Visited, c: Seq<VarT<T>>) -> Seq<Step<N, T, W>> decreases c.len() { if c.len() == 0 { Seq::empty() } else { in_comp(rs, r, j, p, c.drop_last()) + at_token(rs, r, j, p, c.drop_last(), c.last()) } }
spec fn in_rule<N, T, W: One>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, n: int) -> Seq<Step<N, T, W>> decreases n { if n <= 0 { Seq::empty() } else { in_rule(rs, r, n - 1) + in_comp(rs, r, n - 1, visited_before(r, n - 1), comp(r, n - 1)) } }
spec fn in_rules<N, T, W: One>(rs: Seq<PMCFGRule<N, T, W>>, n: int) -> Seq<Step<N, T, W>> decreases n { if n <= 0 { Seq::empty() } else { in_rules(rs, n - 1) + in_rule(rs, rs[n - 1], comps(rs[n - 1]) as int) } }
spec fn all_steps<N, T, W: One>(g: PMCFG<N, T, W>) -> Seq<Step<N, T, W>> { opened(starting(g.rules@, g.initial@)) + in_rules(g.rules@, g.rules@.len() as int) }
// the variables of rules are those of successors that have such a component; initial rules have a component
spec fn fits<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N, j: usize) -> bool { forall|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).head == n ==> j < comps(rs[k]) }
spec fn var_fits<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, v: VarT<T>) -> bool { match v { VarT::Var(i, j) => i < r.tail@.len() && fits(rs, r.tail@[i as int], j), VarT::T(t) => true } }
spec fn comp_fits<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, c: Seq<VarT<T>>) -> bool { forall|l: int| 0 <= l < c.len() ==> var_fits(rs, r, #[trigger] c[l]) }
spec fn rule_fits<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>) -> bool { forall|j: int| 0 <= j < comps(r) ==> comp_fits(rs, r, #[trigger] comp(r, j)) }
spec fn consistent<N, T, W>(g: PMCFG<N, T, W>) -> bool {
    &&& forall|k: int| 0 <= k < g.rules@.len() ==> rule_fits(g.rules@, #[trigger] g.rules@[k])
    &&& forall|k: int| 0 <= k < g.rules@.len() && g.initial@.contains((#[trigger] g.rules@[k]).head) ==> comps(g.rules@[k]) > 0
}
spec fn visited_fit<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, p: Visited) -> bool { p.len() == r.tail@.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] matches Some(j) ==> fits(rs, r.tail@[i], j)) }
// the rules of a nonterminal
proof fn headed_are<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N)
    ensures forall|l: int| 0 <= l < headed(rs, n).len() ==> rs.contains(#[trigger] headed(rs, n)[l]) && headed(rs, n)[l].head == n
    decreases rs.len()
{
    if rs.len() > 0 {
        let r0 = rs.drop_last();
        headed_are(r0, n);
        assert forall|l: int| 0 <= l < headed(rs, n).len() implies rs.contains(#[trigger] headed(rs, n)[l]) && headed(rs, n)[l].head == n by {
            if l < headed(r0, n).len() { assert(headed(r0, n)[l] == headed(rs, n)[l]); let i = choose|i: int| 0 <= i < r0.len() && r0[i] == headed(r0, n)[l]; assert(rs[i] == r0[i]); }
            else { assert(rs[rs.len() - 1] == rs.last()); }
        }
    }
}
proof fn starting_are<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, initial: Seq<N>)
    ensures forall|l: int| 0 <= l < starting(rs, initial).len() ==> rs.contains(#[trigger] starting(rs, initial)[l]) && initial.contains(starting(rs, initial)[l].head)
    decreases rs.len()
{
    if rs.len() > 0 {
        let r0 = rs.drop_last();
        starting_are(r0, initial);
        assert forall|l: int| 0 <= l < starting(rs, initial).len() implies rs.contains(#[trigger] starting(rs, initial)[l]) && initial.contains(starting(rs, initial)[l].head) by {
            if l < starting(r0, initial).len() { assert(starting(r0, initial)[l] == starting(rs, initial)[l]); let i = choose|i: int| 0 <= i < r0.len() && r0[i] == starting(r0, initial)[l]; assert(rs[i] == r0[i]); }
            else { assert(rs[rs.len() - 1] == rs.last()); }
        }
    }
}
proof fn headed_none<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N)
    requires forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).head != n
    ensures headed(rs, n).len() == 0
    decreases rs.len()
{ if rs.len() > 0 { assert(rs.last() == rs[rs.len() - 1]); assert forall|k: int| 0 <= k < rs.drop_last().len() implies (#[trigger] rs.drop_last()[k]).head != n by { assert(rs.drop_last()[k] == rs[k]); } headed_none(rs.drop_last(), n); } }
proof fn token_taken<T>(c: Seq<VarT<T>>, n: int)
    requires 0 <= n < c.len()
    ensures c.take(n + 1).drop_last() == c.take(n), c.take(n + 1).last() == c[n]
{ assert(c.take(n + 1).drop_last() =~= c.take(n)); }
proof fn taken<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: int)
    requires 0 <= n < rs.len()
    ensures rs.take(n + 1).drop_last() == rs.take(n), rs.take(n + 1).last() == rs[n]
{ assert(rs.take(n + 1).drop_last() =~= rs.take(n)); }
// what is remembered of a rule's components
spec fn noted<N, T, W>(v: Seq<(usize, Vec<T>)>, r: PMCFGRule<N, T, W>, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j]).0 == vars(comp(r, j)) && v[j].1@ == trail(comp(r, j)) }
spec fn all_noted<N, T, W>(m: Map<PMCFGRule<N, T, W>, Vec<(usize, Vec<T>)>>, rs: Seq<PMCFGRule<N, T, W>>) -> bool { forall|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) ==> m.contains_key(r) && noted(m[r]@, r, comps(r) as int) }
spec fn sorted_by_head<N, T, W>(m: Map<N, Vec<PMCFGRule<N, T, W>>>, all: Seq<PMCFGRule<N, T, W>>, rs: Seq<PMCFGRule<N, T, W>>) -> bool {
    &&& forall|k: int| 0 <= k < all.len() ==> m.contains_key((#[trigger] all[k]).head)
    &&& forall|n: N| #[trigger] m.contains_key(n) ==> m[n]@ == headed(rs, n)
}
spec fn candidates<N, T, W>(rss: Seq<Vec<PMCFGRule<N, T, W>>>, rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>) -> bool { rss.len() == r.tail@.len() && forall|i: int| 0 <= i < rss.len() ==> (#[trigger] rss[i])@ == headed(rs, r.tail@[i]) }
spec fn tsa_made<N: Clone + Ord + Hash, T: Clone + Ord + Hash, W: Clone + Ord + One>(g: PMCFG<N, T, W>, ts: Seq<TsTrans<Pos<N, T, W>, T, W>>, s: TreeStack<Pos<N, T, W>>, a: TreeStackAutomaton<Pos<N, T, W>, T, W>) -> bool {
    are_steps(ts, all_steps(g)) && wf(s) && pointer(s) == Seq::<usize>::empty() && s.value == PosState::<PMCFGRule<N, T, W>>::Initial && s.children@.len() == 0 && a.made_of(ts, s)
}
//@@ type src/automata/tree_stack_automaton/from_pmcfg.rs RuleCallerMap
//@@ end
//@@ type src/automata/tree_stack_automaton/from_pmcfg.rs DerivationSnippet
//@@ end
//@@ fn src/automata/tree_stack_automaton/from_pmcfg.rs <From~for~TreeStackAutomaton>::from as from_pmcfg
//@ implhead impl<N: Clone + Ord + PartialEq + Hash, T: Clone + Ord + PartialEq + Hash, W: Clone + Ord + PartialEq + One> TreeStackAutomaton<PosState<PMCFGRule<N, T, W>>, T, W>
//@ params g
//@ ret r
//@ mappath BTreeSet::from_iter vt_set_of
//@ mappath BTreeMap::new vt_table
//@ mapmethod iter . vt_items
//@ mapmethod map vt_map_over
//@ mapmethod collect vt_gather
//@ mapmethod get_mut vt_table_mut &mut
//@ mapmethod get vt_table_get &
//@ mapmethod insert vt_table_insert &mut
//@ mapmethod cloned vt_copied
//@ mapmethod unwrap_or_default vt_or_empty
//@ mapindex down_info vt_table_at &
//@ local transitions 0
//@ local rule_map 1
//@ local down_info 2
//@ local initial_rules 3
//@ requires
    lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), lawful::<N>(), faithful::<N>(), faithful::<T>(), faithful::<W>(),
    obeys_key_model::<Pos<N, T, W>>(), obeys_key_model::<T>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<TsTrans<usize, usize, W>>(),
    consistent(g),
//@ ensures exists|ts: Seq<TsTrans<Pos<N, T, W>, T, W>>, s: TreeStack<Pos<N, T, W>>| #[trigger] tsa_made(g, ts, s, r)
//@ start
    let ghost g0 = g;
    let ghost rs = g.rules@;
    proof { rule_faithful::<N, T, W>(); pos_faithful::<PMCFGRule<N, T, W>>(); vec_faithful::<T>(); }
//@ closure 0 (r: &PMCFGRule<N, T, W>) -> (n: N)
    ensures n == r.head
//@ closure 1 (n: &N) -> (e: (N, Vec<PMCFGRule<N, T, W>>))
    ensures e.0 == *n, e.1@.len() == 0
//@ closure 2 (n: &N) -> (v: Vec<PMCFGRule<N, T, W>>)
    ensures v@ == headed(rs, *n)
//@ closurestart 2
    proof { if !rule_map@.contains_key(*n) { headed_none(rs, *n); assert(headed(rs, *n) =~= Seq::<PMCFGRule<N, T, W>>::empty()); } }
//@ closure 3 (x: &Vec<PMCFGRule<N, T, W>>) -> (o: Option<usize>)
    ensures o is None
//@ before 0
    proof {
        assert forall|k: int| 0 <= k < rs.len() implies rule_map@.contains_key((#[trigger] rs[k]).head) by { assert(*refs(rs)[k] == rs[k]); }
        assert(rs.take(0) =~= Seq::<PMCFGRule<N, T, W>>::empty());
        assert forall|m: N| #[trigger] rule_map@.contains_key(m) implies rule_map@[m]@ == headed(rs.take(0), m) by { assert(rule_map@[m]@ =~= headed(rs.take(0), m)); }
        assert(sorted_by_head(rule_map@, rs, rs.take(0)));
        assert(all_noted(down_info@, rs.take(0)));
    }
//@ loop 0 for it
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(), lawful::<N>(),
        g == g0, rs == g0.rules@, it.seq() =~= rs, consistent(g0),
        sorted_by_head(rule_map@, rs, rs.take(it.index@)), all_noted(down_info@, rs.take(it.index@)),
        initial_rules@ == starting(rs.take(it.index@), g0.initial@),
//@ loopstart 0
    let ghost (r0, n) = (r, it.index@);
    assert(r == rs[n]);
    proof { taken(rs, n); }
//@ loop 1 for it1
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        vals(it1.seq()) == r.composition.composition@, noted(var_cnt_vec@, r, it1.index@),
//@ loopstart 1
    let ghost m1 = it1.index@;
    let ghost c = component@;
    proof { assert(*component == r.composition.composition@[m1]); assert(c == comp(r, m1)); assert(c.take(0) =~= Seq::<VarT<T>>::empty()); assert(component.len() == c.len()); }
//@ loop 2 for it2
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        vals(it2.seq()) == c, c.len() <= usize::MAX, i == vars(c.take(it2.index@)), down_buffer@ == trail(c.take(it2.index@)),
//@ loopstart 2
    let ghost m2 = it2.index@;
    proof { assert(*ntt == c[m2]); token_taken(c, m2); vars_at_most(c.take(m2)); }
//@ after 2
    proof { assert(c.take(c.len() as int) =~= c); }
//@ loopend 0
    proof {
        assert forall|q: PMCFGRule<N, T, W>| #[trigger] rs.take(n + 1).contains(q) implies down_info@.contains_key(q) && noted(down_info@[q]@, q, comps(q) as int) by {
            if q != r0 { let x = choose|x: int| 0 <= x < rs.take(n + 1).len() && (#[trigger] rs.take(n + 1)[x]) == q; assert(rs.take(n)[x] == q); assert(rs.take(n).contains(q)); }
        }
        assert(sorted_by_head(rule_map@, rs, rs.take(n + 1)));
    }
//@ after 0
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@ loop 3 for it3
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        g == g0, rs == g0.rules@, consistent(g0), it3.seq() == starting(rs, g0.initial@), all_noted(down_info@, rs),
        are_steps(transitions@, opened(it3.seq().take(it3.index@))),
//@ loopstart 3
    let ghost q = r;
    let ghost t3 = transitions@;
    let ghost n3 = it3.index@;
    proof {
        starting_are(rs, g0.initial@);
        assert(r == it3.seq()[n3]);
        let k = choose|k: int| 0 <= k < rs.len() && rs[k] == r;
        assert(comps(rs[k]) > 0);
        assert(it3.seq().take(n3 + 1).drop_last() =~= it3.seq().take(n3));
        assert(it3.seq().take(n3 + 1).last() == r);
        assert(noted(down_info@[r]@, r, comps(r) as int));
        assert(comp(r, 0) == comp(r, 0));
    }
//@ loopend 3
    proof {
        let o = opened(it3.seq().take(n3));
        assert(transitions@.len() == t3.len() + 2);
        assert(is_step(transitions@[t3.len() as int], enters(q)));
        assert(is_step(transitions@[t3.len() as int + 1], exits(q)));
        one_more_step(t3, o, transitions@[t3.len() as int], enters(q));
        one_more_step(t3.push(transitions@[t3.len() as int]), o.push(enters(q)), transitions@[t3.len() as int + 1], exits(q));
        assert(transitions@ =~= t3.push(transitions@[t3.len() as int]).push(transitions@[t3.len() as int + 1]));
    }
//@ before 4
    let ghost (os, to) = (opened(starting(rs, g0.initial@)), transitions@);
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@ loop 4 for it4
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        rs == g0.rules@, it4.seq() == rs, agenda@.len() == it4.index@, sorted_by_head(rule_map@, rs, rs),
        forall|k: int| 0 <= k < agenda@.len() ==> (#[trigger] agenda@[k]).0 == rs[k] && candidates(agenda@[k].1@, rs, rs[k]),
//@ loopstart 4
    assert(r == rs[it4.index@]);
//@ before 5
    proof { let st = starting(rs, g0.initial@); assert(st.take(st.len() as int) =~= st); assert(os + in_rules(rs, 0) =~= os); }
//@ loop 5 for it5
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        rs == g0.rules@, consistent(g0), it5.seq().len() == rs.len(), all_noted(down_info@, rs),
        forall|k: int| 0 <= k < rs.len() ==> (#[trigger] it5.seq()[k]).0 == rs[k] && candidates(it5.seq()[k].1@, rs, rs[k]),
        are_steps(transitions@, os + in_rules(rs, it5.index@)),
//@ loopstart 5
    let ghost n5 = it5.index@;
    let ghost done5 = os + in_rules(rs, n5);
    proof { var_faithful::<T>(); vec_faithful::<VarT<T>>(); vec_faithful::<Vec<VarT<T>>>(); assert(it5.seq()[n5].0 == rs[n5]); assert(rule_fits(rs, rs[n5])); }
//@ before 6
    proof { assert(previous_component@ =~= visited_before(r, 0)); assert(done5 + in_rule(rs, r, 0) =~= done5); }
//@ loop 6 for it6
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        rs == g0.rules@, all_noted(down_info@, rs), it6.seq() =~= r.composition.composition@, r.composition.composition@.len() <= usize::MAX, rule_fits(rs, r), candidates(rss@, rs, r),
        j == it6.index@, previous_component@ == visited_before(r, j as int), visited_fit(rs, r, previous_component@),
        are_steps(transitions@, done5 + in_rule(rs, r, j as int)),
//@ loopstart 6
    let ghost p0 = previous_component@;
    let ghost c = component@;
    let ghost done6 = done5 + in_rule(rs, r, j as int);
    proof { assert(component == r.composition.composition@[j as int]); assert(c == comp(r, j as int)); assert(comp_fits(rs, r, c)); assert(component.len() == c.len()); assert(c.take(0) =~= Seq::<VarT<T>>::empty()); assert(done6 + in_comp(rs, r, j as int, p0, c.take(0)) =~= done6); }
//@ loop 7 for it7
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        rs == g0.rules@, all_noted(down_info@, rs), it7.seq() == c, c.len() <= usize::MAX, comp_fits(rs, r, c), candidates(rss@, rs, r), j < usize::MAX,
        k == vars(c.take(it7.index@)), buffer@ == trail(c.take(it7.index@)), previous_component@ == visited(p0, c.take(it7.index@)), visited_fit(rs, r, previous_component@),
        are_steps(transitions@, done6 + in_comp(rs, r, j as int, p0, c.take(it7.index@))),
//@ loopstart 7
    let ghost n7 = it7.index@;
    let ghost done7 = done6 + in_comp(rs, r, j as int, p0, c.take(n7));
    proof { assert(token == c[n7]); assert(var_fits(rs, r, c[n7])); token_taken(c, n7); vars_at_most(c.take(n7)); }
//@ before 8
    let ghost (qs, before) = (rss@[i1 as int]@, previous_component@[i1 as int]);
    proof { assert(qs.take(0) =~= Seq::<PMCFGRule<N, T, W>>::empty()); assert(done7 + called(r, j as int, k as nat, buffer@, i1, j1, before, qs.take(0)) =~= done7); }
//@ loop 8 for it8
    invariant
        lawful_keys::<N>(), lawful_keys::<PMCFGRule<N, T, W>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<PMCFGRule<N, T, W>>(), faithful::<Pos<N, T, W>>(), faithful::<Vec<T>>(),
        rs == g0.rules@, all_noted(down_info@, rs), vals(it8.seq()) == qs, qs == headed(rs, r.tail@[i1 as int]), i1 < previous_component@.len(), previous_component@[i1 as int] == before, visited_fit(rs, r, previous_component@),
        fits(rs, r.tail@[i1 as int], j1), k < usize::MAX, previous_component@.len() == r.tail@.len(),
        are_steps(transitions@, done7 + called(r, j as int, k as nat, buffer@, i1, j1, before, qs.take(it8.index@))),
//@ loopstart 8
    let ghost t8 = transitions@;
    let ghost n8 = it8.index@;
    let ghost q = *ri;
    proof {
        assert(q == qs[n8]);
        headed_are(rs, r.tail@[i1 as int]);
        let x = choose|x: int| 0 <= x < rs.len() && rs[x] == q;
        assert(j1 < comps(rs[x]));
        if let Some(j0) = before { assert(fits(rs, r.tail@[i1 as int], j0)); assert(j0 < comps(rs[x])); }
        assert(noted(down_info@[q]@, q, comps(q) as int));
        assert(qs.take(n8 + 1).drop_last() =~= qs.take(n8));
        assert(qs.take(n8 + 1).last() == q);
    }
//@ loopend 8
    proof {
        let ss = done7 + called(r, j as int, k as nat, buffer@, i1, j1, before, qs.take(n8));
        let (a, b) = (calls(r, j as int, k as nat, buffer@, i1, j1, before, q), returns(r, j as int, k as nat, j1, q));
        let (x, y) = (transitions@[t8.len() as int], transitions@[t8.len() as int + 1]);
        assert(transitions@.len() == t8.len() + 2);
        assert(is_step(x, a));
        assert(is_step(y, b));
        one_more_step(t8, ss, x, a);
        one_more_step(t8.push(x), ss.push(a), y, b);
        assert(transitions@ =~= t8.push(x).push(y));
        assert(ss.push(a).push(b) =~= done7 + called(r, j as int, k as nat, buffer@, i1, j1, before, qs.take(n8 + 1)));
    }
//@ after 8
    proof { assert(qs.take(qs.len() as int) =~= qs); }
//@ loopend 7
    proof {
        assert(done6 + in_comp(rs, r, j as int, p0, c.take(n7 + 1)) =~= done7 + at_token(rs, r, j as int, p0, c.take(n7), c[n7]));
    }
//@ after 7
    proof { assert(c.take(c.len() as int) =~= c); assert(done5 + in_rule(rs, r, j + 1) =~= done6 + in_comp(rs, r, j as int, p0, c)); }
//@ loopend 5
    proof { assert(os + in_rules(rs, n5 + 1) =~= done5 + in_rule(rs, r, comps(r) as int)); }
//@ after 5
    proof {
        assert(are_steps(transitions@, all_steps(g0)));
        assert forall|s: TreeStack<Pos<N, T, W>>, a: Self| wf(s) && pointer(s) == Seq::<usize>::empty() && s.value == PosState::<PMCFGRule<N, T, W>>::Initial && s.children@.len() == 0 && #[trigger] a.made_of(transitions@, s) implies tsa_made(g0, transitions@, s, a) by {}
    }
//@@ end
} // verus!
