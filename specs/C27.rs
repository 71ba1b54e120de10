// C24, fourth part: push-down automata.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque, hash_map::Entry};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Add, AddAssign, Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use std::slice::Iter;
use vstd::std_specs::iter::IteratorSpec;
verus! {


//@@ include lib/pda.rs
//@@ include lib/pda_once.rs
use std::collections::HashSet;
// ---- context-free grammars ----
//@@ type src/grammars/cfg/mod.rs LetterT
//@@ end
//@@ type src/grammars/cfg/mod.rs CFGComposition
//@@ end
//@@ type src/grammars/cfg/mod.rs CFGRule
//@@ end
//@@ type src/grammars/cfg/mod.rs CFG
//@@ end
//@@ type src/automata/push_down_automaton/from_cfg.rs PushState
//@@ end
// what deriving Clone gives
impl<N: Clone, T: Clone> Clone for LetterT<N, T> {
    fn clone(&self) -> (r: Self) ensures faithful::<N>() && faithful::<T>() ==> r == *self { match self { LetterT::Label(n) => LetterT::Label(n.clone()), LetterT::Value(t) => LetterT::Value(t.clone()) } }
}
proof fn letter_faithful<N: Clone, T: Clone>() ensures faithful::<N>() && faithful::<T>() ==> faithful::<LetterT<N, T>>() {}
impl<N: Clone, T: Clone> Clone for CFGComposition<N, T> {
    fn clone(&self) -> (r: Self) ensures faithful::<N>() && faithful::<T>() ==> r == *self { proof { letter_faithful::<N, T>(); vec_faithful::<LetterT<N, T>>(); } CFGComposition { composition: self.composition.clone() } }
}
impl<N: Clone, T: Clone, W: Clone> Clone for CFGRule<N, T, W> {
    fn clone(&self) -> (r: Self) ensures faithful::<N>() && faithful::<T>() && faithful::<W>() ==> r == *self { CFGRule { head: self.head.clone(), composition: self.composition.clone(), weight: self.weight.clone() } }
}
proof fn cfg_rule_faithful<N: Clone, T: Clone, W: Clone>() ensures faithful::<N>() && faithful::<T>() && faithful::<W>() ==> faithful::<CFGRule<N, T, W>>() {}
impl<N: Clone, T: Clone> Clone for PushState<N, T> {
    fn clone(&self) -> (r: Self) ensures faithful::<N>() && faithful::<T>() ==> r == *self { match self { PushState::Designated => PushState::Designated, PushState::Initial => PushState::Initial, PushState::Nt(n) => PushState::Nt(n.clone()), PushState::T(t) => PushState::T(t.clone()) } }
}
proof fn state_faithful<N: Clone, T: Clone>() ensures faithful::<N>() && faithful::<T>() ==> faithful::<PushState<N, T>>() {}
// assumed: what deriving gives
#[verifier::external] impl<N: PartialEq, T: PartialEq> PartialEq for PushState<N, T> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<N: Eq, T: Eq> Eq for PushState<N, T> {}
#[verifier::external] impl<N: PartialOrd, T: PartialOrd> PartialOrd for PushState<N, T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<N: Ord, T: Ord> Ord for PushState<N, T> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
#[verifier::external] impl<N: Hash, T: Hash> Hash for PushState<N, T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
//@@ fn src/automata/push_down_automaton/from_cfg.rs PushState::map
//@ params f
//@ ret r
//@ requires forall|a: &A| call_requires(f, (a,))
//@ ensures
    match *self {
        PushState::Designated => r is Designated,
        PushState::Initial => r is Initial,
        PushState::Nt(a) => (r matches PushState::Nt(b) && call_ensures(f, (&a,), b)),
        PushState::T(x) => (r matches PushState::T(y) && (faithful::<Y>() ==> y == x)),
    }
//@@ end
// where letters are gathered
pub trait Gathered: Sized {
    type Key;
    spec fn gathers(&self, x: Self::Key) -> bool;
    // each once
    spec fn one_each(&self) -> bool;
    fn handed_out(self) -> (v: Vec<Self::Key>) requires self.one_each() ensures v@.no_duplicates(), forall|x: Self::Key| #[trigger] self.gathers(x) <==> v@.contains(x);
}
impl<K: Eq + Hash> Gathered for HashSet<K> {
    type Key = K;
    open spec fn gathers(&self, x: K) -> bool { self@.contains(x) }
    open spec fn one_each(&self) -> bool { true }
    // what a set hands out: each of its elements once, in an order nothing is known about (assumed)
    #[verifier::external_body]
    fn handed_out(self) -> (v: Vec<K>) { self.into_iter().collect() }
}
impl<K> Gathered for Vec<K> {
    type Key = K;
    open spec fn gathers(&self, x: K) -> bool { self@.contains(x) }
    open spec fn one_each(&self) -> bool { self@.no_duplicates() }
    fn handed_out(self) -> (v: Vec<K>) { self }
}
fn vt_members<G: Gathered>(g: G) -> (v: Vec<G::Key>) requires g.one_each() ensures v@.no_duplicates(), forall|x: G::Key| #[trigger] g.gathers(x) <==> v@.contains(x) { g.handed_out() }
proof fn lists_grow<K>()
    ensures
        forall|s: Seq<K>, a: K, x: K| #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a,
        forall|s: Seq<K>, a: K| s.no_duplicates() && !s.contains(a) ==> #[trigger] s.push(a).no_duplicates(),
{
    assert forall|s: Seq<K>, a: K, x: K| #[trigger] s.push(a).contains(x) <==> s.contains(x) || x == a by {
        let t = s.push(a);
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
        assert(t[s.len() as int] == a);
    }
}
fn vt_list<K>(v: Vec<K>) -> (r: Vec<K>) ensures r == v { v }

spec fn state<N, T>(l: LetterT<N, T>) -> PushState<N, T> { match l { LetterT::Label(n) => PushState::Nt(n), LetterT::Value(t) => PushState::T(t) } }
// a sentential form as a pushdown holds it (the first letter on top)
spec fn stacked<N, T>(f: Seq<LetterT<N, T>>) -> Seq<PushState<N, T>> { Seq::new(f.len(), |i: int| state(f[f.len() - 1 - i])) }
// what a transition is for
enum Kind<N, T> { Expand(N, Seq<LetterT<N, T>>), Read(T), Begin(N) }
spec fn on_pushdown<A, T, W>(t: PdTrans<A, T, W>, cur: A, new: Seq<A>) -> bool { match t.instruction { PushDownInstruction::Replace { current_val, new_val } => current_val@ =~= seq![cur] && new_val@ =~= new } }
spec fn is_for<N, T, W>(t: PdTrans<PushState<N, T>, T, W>, k: Kind<N, T>) -> bool {
    match k {
        Kind::Expand(n, c) => t.word@ =~= Seq::<T>::empty() && on_pushdown(t, PushState::Nt(n), stacked(c)),
        Kind::Read(x) => t.word@ =~= seq![x] && on_pushdown(t, PushState::T(x), Seq::empty()),
        Kind::Begin(n) => t.word@ =~= Seq::<T>::empty() && on_pushdown(t, PushState::Initial, seq![PushState::Nt(n)]),
    }
}
spec fn expands<N, T, W>(t: PdTrans<PushState<N, T>, T, W>, r: CFGRule<N, T, W>) -> bool { is_for(t, Kind::Expand(r.head, r.composition.composition@)) && t.weight == r.weight }
spec fn reads<N, T, W: One>(t: PdTrans<PushState<N, T>, T, W>, x: T) -> bool { is_for(t, Kind::Read(x)) && t.weight == W::unit() }
spec fn starts<N, T, W: One>(t: PdTrans<PushState<N, T>, T, W>, n: N) -> bool { is_for(t, Kind::Begin(n)) && t.weight == W::unit() }
spec fn has_letter<N, T>(c: Seq<LetterT<N, T>>, n: int, x: T) -> bool { exists|l: int| 0 <= l < n && #[trigger] c[l] == LetterT::<N, T>::Value(x) }
spec fn uses<N, T, W>(r: CFGRule<N, T, W>, x: T) -> bool { has_letter(r.composition.composition@, r.composition.composition@.len() as int, x) }
// x occurs in one of the first n rules
spec fn occurs<N, T, W>(rs: Seq<CFGRule<N, T, W>>, n: int, x: T) -> bool { exists|k: int| 0 <= k < n && uses(#[trigger] rs[k], x) }
// the transitions made for a grammar: one for each rule, one for each letter of the rules, one for each initial nonterminal
spec fn made_for<N, T, W: One>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<PdTrans<PushState<N, T>, T, W>>) -> bool {
    &&& ls.no_duplicates() && forall|x: T| #[trigger] ls.contains(x) <==> occurs(g.rules@, g.rules@.len() as int, x)
    &&& ts.len() == g.rules@.len() + ls.len() + g.initial@.len()
    &&& forall|k: int| 0 <= k < g.rules@.len() ==> expands(#[trigger] ts[k], g.rules@[k])
    &&& forall|k: int| 0 <= k < ls.len() ==> reads(#[trigger] ts[g.rules@.len() + k], ls[k])
    &&& forall|k: int| 0 <= k < g.initial@.len() ==> starts(#[trigger] ts[g.rules@.len() + ls.len() + k], g.initial@[k])
}
spec fn bottom<N, T>() -> Seq<PushState<N, T>> { seq![PushState::Designated, PushState::Initial] }
spec fn made_with<N: Clone + Ord + Hash, T: Clone + Ord + Hash, W: Clone + Ord + One + AddAssign + Zero>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<PdTrans<PushState<N, T>, T, W>>, p: PushDown<PushState<N, T>>, a: PushDownAutomaton<PushState<N, T>, T, W>) -> bool {
    made_for(g, ls, ts) && p.elements@ =~= bottom::<N, T>() && a.holds(merged(ts), p)
}
proof fn made_shaped<N, T, W: One>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<PdTrans<PushState<N, T>, T, W>>)
    requires made_for(g, ls, ts)
    ensures all_shaped(ts)
{
    let (m, n) = (g.rules@.len() as int, ls.len() as int);
    assert forall|l: int| 0 <= l < ts.len() implies shaped(#[trigger] ts[l]) by {
        if l < m { assert(expands(ts[l], g.rules@[l])); } else if l < m + n { assert(reads(ts[m + (l - m)], ls[l - m])); } else { assert(starts(ts[m + n + (l - m - n)], g.initial@[l - m - n])); }
    }
}
proof fn made_rooted<N, T, W: One>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<PdTrans<PushState<N, T>, T, W>>)
    requires made_for(g, ls, ts)
    ensures all_rooted(ts)
{
    made_shaped(g, ls, ts);
    assert forall|l: int| 0 <= l < ts.len() implies rooted(#[trigger] ts[l]) by { assert(shaped(ts[l])); }
}
spec fn shaped<N, T, W>(t: PdTrans<PushState<N, T>, T, W>) -> bool { exists|k: Kind<N, T>| #[trigger] is_for(t, k) }
spec fn all_shaped<N, T, W>(ts: Seq<PdTrans<PushState<N, T>, T, W>>) -> bool { forall|l: int| 0 <= l < ts.len() ==> shaped(#[trigger] ts[l]) }
spec fn read_with<N, T, W: One, G: Gathered<Key = T>>(g: CFG<N, T, W>, tb: G, ls: Seq<T>, ts: Seq<PdTrans<PushState<N, T>, T, W>>) -> bool {
    &&& ls.no_duplicates() && forall|x: T| #[trigger] tb.gathers(x) <==> ls.contains(x)
    &&& ts.len() == g.rules@.len() + ls.len()
    &&& forall|k: int| 0 <= k < g.rules@.len() ==> expands(#[trigger] ts[k], g.rules@[k])
    &&& forall|k: int| 0 <= k < ls.len() ==> reads(#[trigger] ts[g.rules@.len() + k], ls[k])
}
proof fn all_read<N, T, W: One, G: Gathered<Key = T>>(g: CFG<N, T, W>, tb: G, ls: Seq<T>, n: int, ts: Seq<PdTrans<PushState<N, T>, T, W>>)
    ensures n == ls.len() && read_with(g, tb, ls, ts) ==> read_all(g, tb, ts)
{}
spec fn read_all<N, T, W: One, G: Gathered<Key = T>>(g: CFG<N, T, W>, tb: G, ts: Seq<PdTrans<PushState<N, T>, T, W>>) -> bool { exists|ls: Seq<T>| #[trigger] read_with(g, tb, ls, ts) }
proof fn one_more_letter<N, T>(c: Seq<LetterT<N, T>>, m: int)
    requires 0 <= m < c.len()
    ensures forall|x: T| #[trigger] has_letter(c, m + 1, x) <==> has_letter(c, m, x) || c[m] == LetterT::<N, T>::Value(x)
{
    assert forall|x: T| #[trigger] has_letter(c, m + 1, x) <==> has_letter(c, m, x) || c[m] == LetterT::<N, T>::Value(x) by {
        if has_letter(c, m, x) { let l = choose|l: int| 0 <= l < m && #[trigger] c[l] == LetterT::<N, T>::Value(x); assert(c[l] == LetterT::<N, T>::Value(x)); }
    }
}
proof fn one_more_rule<N, T, W>(rs: Seq<CFGRule<N, T, W>>, n: int, x: T)
    requires 0 <= n < rs.len()
    ensures occurs(rs, n + 1, x) <==> occurs(rs, n, x) || uses(rs[n], x)
{ if occurs(rs, n, x) { let k = choose|k: int| 0 <= k < n && uses(#[trigger] rs[k], x); assert(uses(rs[k], x)); } }
//@@ fn src/automata/push_down_automaton/from_cfg.rs <From~for~PushDownAutomaton>::from as from_cfg
//@ implhead impl<N: Clone + Ord + PartialEq + Hash, T: Clone + Ord + PartialEq + Hash, W: Clone + Ord + PartialEq + One + AddAssign + Zero> PushDownAutomaton<PushState<N, T>, T, W>
//@ params g
//@ ret r
//@ local transitions 0
//@ local t_buffer 1
//@ foriter 2 vt_members
//@ requires
    obeys_key_model::<PushState<N, T>>(), obeys_key_model::<T>(), lawful::<T>(), obeys_key_model::<PdKey<usize, usize>>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<PdTrans<usize, usize, W>>(),
    addable::<W>(),
//@ ensures exists|ls: Seq<T>, ts: Seq<PdTrans<PushState<N, T>, T, W>>, p: PushDown<PushState<N, T>>| #[trigger] made_with(g, ls, ts, p, r)
//@ local st 2
//@ start
    let ghost g0 = g;
    proof { cfg_rule_faithful::<N, T, W>(); state_faithful::<N, T>(); }
    broadcast use group_hash_axioms;
//@ loop 0 for it
    invariant
        obeys_key_model::<T>(), lawful::<T>(), builds_valid_hashers::<std::hash::RandomState>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), faithful::<CFGRule<N, T, W>>(), faithful::<PushState<N, T>>(),
        g == g0, it.seq() =~= g0.rules@, transitions@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> expands(#[trigger] transitions@[k], g0.rules@[k]),
        t_buffer.one_each(), forall|x: T| #[trigger] t_buffer.gathers(x) <==> occurs(g0.rules@, it.index@, x),
//@ loopstart 0
    broadcast use group_hash_axioms;
    let ghost (r0, n) = (r, it.index@);
    let ghost c = r.composition.composition@;
    assert(r == g0.rules@[n]);
//@ loop 1 for it2
    invariant
        obeys_key_model::<T>(), lawful::<T>(), builds_valid_hashers::<std::hash::RandomState>(), faithful::<N>(), faithful::<T>(),
        it2.seq() == c, st@ == stacked(c.take(it2.index@)),
        t_buffer.one_each(), forall|x: T| #[trigger] t_buffer.gathers(x) <==> occurs(g0.rules@, n, x) || has_letter(c, it2.index@, x),
//@ loopstart 1
    broadcast use group_hash_axioms;
    let ghost (st0, m, tb) = (st@, it2.index@, t_buffer);
    proof { lists_grow::<T>(); }
    assert(v == c[m]);
//@ loopend 1
    proof {
        assert(st@ == st0.insert(0, state(c[m])));
        assert(st@ =~= stacked(c.take(m + 1)));
        one_more_letter(c, m);
        assert forall|x: T| #[trigger] t_buffer.gathers(x) <==> tb.gathers(x) || c[m] == LetterT::<N, T>::Value(x) by {
            let was = tb.gathers(x);
            assert(was ==> t_buffer.gathers(x));
        }
    }
//@ loopend 0
    proof {
        assert(c.take(c.len() as int) =~= c);
        assert forall|x: T| #[trigger] t_buffer.gathers(x) <==> occurs(g0.rules@, n + 1, x) by { one_more_rule(g0.rules@, n, x); }
    }
//@ before 2
    let ghost tb = t_buffer;
    proof {
        let none = Seq::<T>::empty();
        if forall|x: T| !tb.gathers(x) { assert(read_with(g0, tb, none, transitions@)); }
    }
//@ loop 2 for it3
    invariant
        faithful::<T>(), transitions@.len() == g0.rules@.len() + it3.index@, it3.seq().no_duplicates(), forall|x: T| #[trigger] tb.gathers(x) <==> it3.seq().contains(x),
        forall|k: int| 0 <= k < g0.rules@.len() ==> expands(#[trigger] transitions@[k], g0.rules@[k]),
        forall|k: int| 0 <= k < it3.index@ ==> reads(#[trigger] transitions@[g0.rules@.len() + k], it3.seq()[k]),
        it3.index@ == it3.seq().len() ==> read_all(g0, tb, transitions@),
//@ loopend 2
    proof { all_read(g0, tb, it3.seq(), it3.index@ + 1, transitions@); }
//@ before 3
    let ghost (ls, t0) = (choose|ls: Seq<T>| #[trigger] read_with(g0, tb, ls, transitions@), transitions@);
//@ loop 3 for it4
    invariant
        it4.seq() == g0.initial@, transitions@.len() == t0.len() + it4.index@, read_with(g0, tb, ls, t0),
        forall|k: int| 0 <= k < t0.len() ==> #[trigger] transitions@[k] == t0[k],
        forall|k: int| 0 <= k < it4.index@ ==> starts(#[trigger] transitions@[t0.len() + k], g0.initial@[k]),
//@ after 3
    proof {
        let (m, n) = (g0.rules@.len(), ls.len());
        assert forall|k: int| 0 <= k < m implies expands(#[trigger] transitions@[k], g0.rules@[k]) by { assert(transitions@[k] == t0[k]); }
        assert forall|k: int| 0 <= k < n implies reads(#[trigger] transitions@[m + k], ls[k]) by { assert(transitions@[m + k] == t0[m + k]); }
        assert forall|k: int| 0 <= k < g0.initial@.len() implies starts(#[trigger] transitions@[m + n + k], g0.initial@[k]) by { assert(transitions@[t0.len() + k] == transitions@[m + n + k]); }
        assert(transitions@.len() == m + n + g0.initial@.len());
        assert(forall|x: T| #[trigger] tb.gathers(x) <==> occurs(g0.rules@, g0.rules@.len() as int, x));
        assert(forall|x: T| #[trigger] ls.contains(x) <==> tb.gathers(x));
        assert(made_for(g0, ls, transitions@));
        made_rooted(g0, ls, transitions@);
        assert forall|p: PushDown<PushState<N, T>>, a: Self| p.elements@ =~= bottom::<N, T>() && #[trigger] a.holds(merged(transitions@), p) implies made_with(g0, ls, transitions@, p, a) by {}
    }
//@@ end
// ---- what the transitions weigh once those alike are made one ----
type StateTrans<N, T, W> = PdTrans<PushState<N, T>, T, W>;
type Derived<N, T> = Seq<(N, Seq<LetterT<N, T>>)>;
proof fn stacked_apart<N, T>(c: Seq<LetterT<N, T>>, d: Seq<LetterT<N, T>>)
    requires stacked(c) == stacked(d)
    ensures c == d
{
    assert(stacked(c).len() == c.len() && stacked(d).len() == d.len());
    assert forall|i: int| 0 <= i < c.len() implies c[i] == d[i] by { assert(stacked(c)[c.len() - 1 - i] == state(c[i])); assert(stacked(d)[c.len() - 1 - i] == state(d[i])); }
    assert(c =~= d);
}
proof fn of_one_kind<N, T, W>(t: StateTrans<N, T, W>, k: Kind<N, T>, l: Kind<N, T>)
    requires is_for(t, k), is_for(t, l)
    ensures k == l
{
    match t.instruction { PushDownInstruction::Replace { current_val: c, .. } => { let top = c@[0];
        match (k, l) {
            (Kind::Expand(n, c), Kind::Expand(m, d)) => { assert(top == PushState::<N, T>::Nt(n)); assert(top == PushState::<N, T>::Nt(m)); stacked_apart(c, d); }
            (Kind::Expand(n, c), _) => { assert(top == PushState::<N, T>::Nt(n)); }
            (Kind::Read(x), Kind::Read(y)) => { assert(top == PushState::<N, T>::T(x)); assert(top == PushState::<N, T>::T(y)); }
            (Kind::Read(x), _) => { assert(top == PushState::<N, T>::T(x)); }
            (Kind::Begin(n), Kind::Begin(m)) => { match t.instruction { PushDownInstruction::Replace { new_val, .. } => { assert(new_val@[0] == PushState::<N, T>::Nt(n)); assert(new_val@[0] == PushState::<N, T>::Nt(m)); } } }
            (Kind::Begin(n), _) => { assert(top == PushState::<N, T>::Initial); }
        }
    } }
}
proof fn one_key<N, T, W>(t: StateTrans<N, T, W>, u: StateTrans<N, T, W>, k: Kind<N, T>)
    requires is_for(t, k)
    ensures is_for(u, k) <==> key_of(t) == key_of(u)
{
    if is_for(u, k) {
        same_list(t.word, u.word);
        match (t.instruction, u.instruction) { (PushDownInstruction::Replace { current_val: a, new_val: b }, PushDownInstruction::Replace { current_val: c, new_val: d }) => { same_list(a, c); same_list(b, d); } }
    }
}
spec fn with<W: AddAssign + Zero>(p: Option<W>, w: W) -> Option<W> { Some(plus(match p { Some(v) => v, None => W::nought() }, w)) }
spec fn total<N, T, W: AddAssign + Zero>(ts: Seq<StateTrans<N, T, W>>, k: Kind<N, T>) -> Option<W>
    decreases ts.len()
{ if ts.len() == 0 { None } else if is_for(ts.last(), k) { with(total(ts.drop_last(), k), ts.last().weight) } else { total(ts.drop_last(), k) } }
proof fn merged_total<N, T, W: AddAssign + Zero>(ts: Seq<StateTrans<N, T, W>>, t: StateTrans<N, T, W>, k: Kind<N, T>)
    requires is_for(t, k)
    ensures weight_in(merged(ts), key_of(t)) == total(ts, k)
    decreases ts.len()
{
    if ts.len() > 0 {
        let (r, u) = (ts.drop_last(), ts.last());
        merged_total(r, t, k);
        merged_unmixed(r);
        put_adds(merged(r), u);
        one_key(t, u, k);
    }
}
proof fn some_total<N, T, W: AddAssign + Zero>(ts: Seq<StateTrans<N, T, W>>, k: Kind<N, T>)
    requires total(ts, k) is Some
    ensures exists|l: int| 0 <= l < ts.len() && is_for(#[trigger] ts[l], k)
    decreases ts.len()
{
    if ts.len() > 0 && !is_for(ts.last(), k) {
        some_total(ts.drop_last(), k);
        let l = choose|l: int| 0 <= l < ts.drop_last().len() && is_for(#[trigger] ts.drop_last()[l], k);
        assert(ts[l] == ts.drop_last()[l]);
    } else if ts.len() > 0 { assert(ts[ts.len() - 1] == ts.last()); }
}
// the weights of what transitions are for
type Weights<N, T, W> = spec_fn(Kind<N, T>) -> Option<W>;
spec fn pictured<N, T, W>(m: StateTrans<N, T, W>, g: Weights<N, T, W>) -> bool { exists|k: Kind<N, T>| #[trigger] is_for(m, k) && g(k) == Some(m.weight) }
spec fn pictures_one<N, T, W>(ms: Seq<StateTrans<N, T, W>>, k: Kind<N, T>, w: W) -> bool { exists|l: int| 0 <= l < ms.len() && is_for(#[trigger] ms[l], k) && ms[l].weight == w }
spec fn pictures<N, T, W>(ms: Seq<StateTrans<N, T, W>>, g: Weights<N, T, W>) -> bool {
    &&& forall|l: int| 0 <= l < ms.len() ==> pictured(#[trigger] ms[l], g)
    &&& forall|k: Kind<N, T>| (#[trigger] g(k)) is Some ==> pictures_one(ms, k, g(k)->0)
}
proof fn merged_pictures<N, T, W: AddAssign + Zero>(ts: Seq<StateTrans<N, T, W>>, g: Weights<N, T, W>)
    requires all_shaped(ts), forall|k: Kind<N, T>| #[trigger] g(k) == total(ts, k)
    ensures pictures(merged(ts), g)
{
    let ms = merged(ts);
    merged_from(ts);
    merged_unmixed(ts);
    assert forall|l: int| 0 <= l < ms.len() implies pictured(#[trigger] ms[l], g) by {
        assert(has_key(ts, key_of(ms[l])));
        let i = spot(ts, key_of(ms[l]));
        assert(shaped(ts[i]));
        let k = choose|k: Kind<N, T>| #[trigger] is_for(ts[i], k);
        one_key(ts[i], ms[l], k);
        merged_total(ts, ms[l], k);
        only_spot(ms, l);
        assert(g(k) == Some(ms[l].weight));
    }
    assert forall|k: Kind<N, T>| (#[trigger] g(k)) is Some implies pictures_one(ms, k, g(k)->0) by {
        some_total(ts, k);
        let i = choose|i: int| 0 <= i < ts.len() && is_for(#[trigger] ts[i], k);
        assert(has_key(ms, key_of(ts[i])));
        let l = spot(ms, key_of(ts[i]));
        one_key(ts[i], ms[l], k);
        merged_total(ts, ms[l], k);
        only_spot(ms, l);
    }
}
// the sum of the weights of the rules with this head and right side
spec fn rules_weight<N, T, W: AddAssign + Zero>(rs: Seq<CFGRule<N, T, W>>, n: N, c: Seq<LetterT<N, T>>) -> Option<W>
    decreases rs.len()
{ if rs.len() == 0 { None } else if rs.last().head == n && rs.last().composition.composition@ == c { with(rules_weight(rs.drop_last(), n, c), rs.last().weight) } else { rules_weight(rs.drop_last(), n, c) } }
// one for each time it is listed
spec fn initial_weight<N, W: AddAssign + Zero + One>(ns: Seq<N>, n: N) -> Option<W>
    decreases ns.len()
{ if ns.len() == 0 { None } else if ns.last() == n { with(initial_weight::<N, W>(ns.drop_last(), n), W::unit()) } else { initial_weight::<N, W>(ns.drop_last(), n) } }
spec fn letter_weight<T, W: AddAssign + Zero + One>(ls: Seq<T>, x: T) -> Option<W> { if ls.contains(x) { with(None, W::unit()) } else { None } }
spec fn grammar_weights<N, T, W: AddAssign + Zero + One>(g: CFG<N, T, W>) -> Weights<N, T, W> {
    |k: Kind<N, T>| match k { Kind::Expand(n, c) => rules_weight(g.rules@, n, c), Kind::Read(x) => if occurs(g.rules@, g.rules@.len() as int, x) { with(None, W::unit()) } else { None }, Kind::Begin(n) => initial_weight::<N, W>(g.initial@, n) }
}
proof fn kinds_told<N, T, W>(t: StateTrans<N, T, W>, k: Kind<N, T>)
    requires is_for(t, k)
    ensures forall|l: Kind<N, T>| #[trigger] is_for(t, l) <==> l == k
{ assert forall|l: Kind<N, T>| #[trigger] is_for(t, l) implies l == k by { of_one_kind(t, k, l); } }
spec fn partly<N, T, W: AddAssign + Zero + One>(rs: Seq<CFGRule<N, T, W>>, ls: Seq<T>, ns: Seq<N>, k: Kind<N, T>) -> Option<W> { match k { Kind::Expand(n, c) => rules_weight(rs, n, c), Kind::Read(x) => letter_weight::<T, W>(ls, x), Kind::Begin(n) => initial_weight::<N, W>(ns, n) } }
proof fn total_partly<N, T, W: AddAssign + Zero + One>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<StateTrans<N, T, W>>, i: int, k: Kind<N, T>)
    requires made_for(g, ls, ts), 0 <= i <= ts.len()
    ensures ({
        let (m, n) = (g.rules@.len() as int, ls.len() as int);
        let (a, b, c) = (if i < m { i } else { m }, if i < m { 0 } else if i < m + n { i - m } else { n }, if i < m + n { 0 } else { i - m - n });
        total(ts.take(i), k) == partly(g.rules@.take(a), ls.take(b), g.initial@.take(c), k)
    })
    decreases i
{
    let (m, n) = (g.rules@.len() as int, ls.len() as int);
    if i == 0 {
        assert(ts.take(0) =~= Seq::empty());
        assert(g.rules@.take(0) =~= Seq::empty() && ls.take(0) =~= Seq::empty() && g.initial@.take(0) =~= Seq::empty());
        assert(!Seq::<T>::empty().contains(arbitrary()));
    } else {
        let j = i - 1;
        total_partly(g, ls, ts, j, k);
        assert(ts.take(i).drop_last() =~= ts.take(j));
        assert(ts.take(i).last() == ts[j]);
        let (rs, ns) = (g.rules@, g.initial@);
        if i <= m {
            assert(expands(ts[j], rs[j]));
            let kj = Kind::Expand(rs[j].head, rs[j].composition.composition@);
            kinds_told(ts[j], kj);
            assert(rs.take(i).drop_last() =~= rs.take(j) && rs.take(i).last() == rs[j]);
            assert(ls.take(0) =~= Seq::empty());
        } else if i <= m + n {
            let l = j - m;
            assert(reads(ts[m + l], ls[l]));
            kinds_told(ts[j], Kind::Read(ls[l]));
            let (u, v) = (ls.take(l), ls.take(l + 1));
            assert(v =~= u.push(ls[l]));
            if let Kind::Read(x) = k {
                if x == ls[l] {
                    assert(v[l] == x);
                    if u.contains(x) { let q = choose|q: int| 0 <= q < u.len() && u[q] == x; assert(ls[q] == ls[l]); }
                } else {
                    if u.contains(x) { let q = choose|q: int| 0 <= q < u.len() && u[q] == x; assert(v[q] == x); }
                    if v.contains(x) { let q = choose|q: int| 0 <= q < v.len() && v[q] == x; assert(u[q] == x); }
                }
            }
            assert(rs.take(m) =~= rs);
        } else {
            let l = j - m - n;
            assert(starts(ts[m + n + l], ns[l]));
            kinds_told(ts[j], Kind::Begin(ns[l]));
            assert(ns.take(l + 1).drop_last() =~= ns.take(l) && ns.take(l + 1).last() == ns[l]);
        }
    }
}
proof fn made_weights<N, T, W: AddAssign + Zero + One>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<StateTrans<N, T, W>>)
    requires made_for(g, ls, ts)
    ensures pictures(merged(ts), grammar_weights(g))
{
    made_shaped(g, ls, ts);
    assert forall|k: Kind<N, T>| #[trigger] grammar_weights(g)(k) == total(ts, k) by {
        total_partly(g, ls, ts, ts.len() as int, k);
        assert(ts.take(ts.len() as int) =~= ts);
        assert(g.rules@.take(g.rules@.len() as int) =~= g.rules@ && ls.take(ls.len() as int) =~= ls && g.initial@.take(g.initial@.len() as int) =~= g.initial@);
    }
    merged_pictures(ts, grammar_weights(g));
}
// ---- derivations ----
// the sentential form f yields w when its leftmost nonterminals are expanded as d says (forms have to fit into memory)
spec fn leftmost<N, T, W>(g: Weights<N, T, W>, f: Seq<LetterT<N, T>>, w: Seq<T>, d: Derived<N, T>) -> bool
    decreases d.len(), f.len()
{
    f.len() < usize::MAX && if f.len() == 0 { w.len() == 0 && d.len() == 0 } else { match f[0] {
        LetterT::Value(x) => w.len() > 0 && w[0] == x && leftmost(g, f.skip(1), w.skip(1), d),
        LetterT::Label(n) => d.len() > 0 && d[0].0 == n && g(Kind::Expand(n, d[0].1)) is Some && leftmost(g, d[0].1 + f.skip(1), w, d.skip(1)),
    } }
}
spec fn derived_weight<N, T, W: Mul<Output = W>>(g: Weights<N, T, W>, d: Derived<N, T>, w: W) -> W
    decreases d.len()
{ if d.len() == 0 { w } else { derived_weight(g, d.drop_last(), w).mul_spec(g(Kind::Expand(d.last().0, d.last().1))->0) } }
// d is a leftmost derivation of w from the initial nonterminal n
spec fn derivation<N, T, W>(g: Weights<N, T, W>, n: N, w: Seq<T>, d: Derived<N, T>) -> bool { g(Kind::Begin(n)) is Some && leftmost(g, seq![LetterT::Label(n)], w, d) }
spec fn derivation_weight<N, T, W: Mul<Output = W> + One>(g: Weights<N, T, W>, n: N, d: Derived<N, T>) -> W { derived_weight(g, d, W::unit().mul_spec(g(Kind::Begin(n))->0)) }
// the expansions of a run
spec fn told_by<N, T, W>(t: StateTrans<N, T, W>) -> Derived<N, T> { match choose|k: Kind<N, T>| is_for(t, k) { Kind::Expand(n, c) => seq![(n, c)], _ => Seq::empty() } }
spec fn told<N, T, W>(run: Seq<StateTrans<N, T, W>>) -> Derived<N, T>
    decreases run.len()
{ if run.len() == 0 { Seq::empty() } else { told(run.drop_last()) + told_by(run.last()) } }
proof fn told_more<N, T, W>(run: Seq<StateTrans<N, T, W>>, t: StateTrans<N, T, W>, k: Kind<N, T>)
    requires is_for(t, k)
    ensures told(run.push(t)) == (match k { Kind::Expand(n, c) => told(run).push((n, c)), _ => told(run) })
{
    kinds_told(t, k);
    let r = run.push(t);
    assert(r.drop_last() =~= run && r.last() == t);
    assert((choose|l: Kind<N, T>| is_for(t, l)) == k);
    match k { Kind::Expand(n, c) => { assert(told(run) + seq![(n, c)] =~= told(run).push((n, c))); } _ => { assert(told(run) + Seq::empty() =~= told(run)); } }
}
// reading a letter weighs nothing
spec fn idle<N, T, W: Mul<Output = W>>(g: Weights<N, T, W>) -> bool { forall|x: T, w: W| #![trigger w.mul_spec(g(Kind::Read(x))->0)] g(Kind::Read(x)) is Some ==> w.mul_spec(g(Kind::Read(x))->0) == w }
spec fn readable<N, T, W>(g: Weights<N, T, W>, f: Seq<LetterT<N, T>>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i] matches LetterT::Value(x) ==> g(Kind::Read(x)) is Some) }
spec fn closed<N, T, W>(g: Weights<N, T, W>) -> bool { forall|n: N, c: Seq<LetterT<N, T>>| (#[trigger] g(Kind::Expand(n, c))) is Some ==> readable(g, c) }
spec fn holding<N, T>(f: Seq<LetterT<N, T>>) -> Seq<PushState<N, T>> { seq![PushState::Designated] + stacked(f) }
spec fn goes_to<N, T>(f: Seq<LetterT<N, T>>, k: Kind<N, T>) -> Seq<LetterT<N, T>> { match k { Kind::Expand(n, c) => c + f.skip(1), _ => f.skip(1) } }
type StateNode<N, T, W> = Node<PushDown<PushState<N, T>>, PushDownInstruction<PushState<N, T>>, T, W>;
// the topmost letter tells what can be done
proof fn tops<N, T, W>(t: StateTrans<N, T, W>, k: Kind<N, T>, f: Seq<LetterT<N, T>>)
    requires is_for(t, k)
    ensures match t.instruction { PushDownInstruction::Replace { current_val, new_val } => {
        &&& on_top(holding(f), current_val@) <==> f.len() > 0 && match k { Kind::Expand(n, c) => f[0] == LetterT::<N, T>::Label(n), Kind::Read(x) => f[0] == LetterT::<N, T>::Value(x), Kind::Begin(n) => false }
        &&& on_top(holding(f), current_val@) ==> replaced(holding(f), current_val@.len() as int, new_val@) == holding(goes_to(f, k))
    } }
{
    match t.instruction { PushDownInstruction::Replace { current_val, new_val } => {
        let h = holding(f);
        assert(h.len() == f.len() + 1);
        if f.len() > 0 { assert(h.last() == stacked(f)[f.len() - 1]); assert(h.last() == state(f[0])); } else { assert(h.last() == PushState::<N, T>::Designated); }
        assert(on_top(h, current_val@) <==> h.last() == current_val@[0]) by { if h.last() == current_val@[0] { assert(h[h.len() - 1 - 0] == current_val@[0]); } }
        match k { Kind::Expand(n, c) => { assert(current_val@[0] == PushState::<N, T>::Nt(n)); } Kind::Read(x) => { assert(current_val@[0] == PushState::<N, T>::T(x)); } Kind::Begin(n) => { assert(current_val@[0] == PushState::<N, T>::Initial); } }
        if on_top(h, current_val@) { assert(replaced(h, 1, new_val@) =~= holding(goes_to(f, k))); }
    } }
}
proof fn one_move<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W>>(t: StateTrans<N, T, W>, k: Kind<N, T>, f: Seq<LetterT<N, T>>, x: StateNode<N, T, W>, y: StateNode<N, T, W>)
    requires is_for(t, k), x.conf.storage.elements@ == holding(f), continued(x, t).contains(y)
    ensures
        f.len() > 0 && match k { Kind::Expand(n, c) => f[0] == LetterT::<N, T>::Label(n) && y.conf.word == x.conf.word, Kind::Read(l) => f[0] == LetterT::<N, T>::Value(l) && x.conf.word.len() > 0 && x.conf.word[0] == l && y.conf.word == x.conf.word.skip(1), Kind::Begin(n) => false },
        y.conf.storage.elements@ == holding(goes_to(f, k)), goes_to(f, k).len() < usize::MAX, y.conf.weight == x.conf.weight.mul_spec(t.weight), y.run == x.run.push(t),
{
    tops(t, k, f);
    let i = choose|i: int| 0 <= i < continued(x, t).len() && continued(x, t)[i] == y;
    let os = t.instruction.outcomes(x.conf.storage);
    assert(os.len() > 0);
    some_stack(holding(goes_to(f, k)));
    assert(x.conf.word.take(t.word@.len() as int) == t.word@);
    assert(x.conf.word.skip(0) =~= x.conf.word);
    match k { Kind::Read(l) => { assert(t.word@[0] == l); assert(x.conf.word.take(1)[0] == l); } _ => {} }
}
proof fn can_move<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W>>(t: StateTrans<N, T, W>, k: Kind<N, T>, f: Seq<LetterT<N, T>>, x: StateNode<N, T, W>) -> (y: StateNode<N, T, W>)
    requires
        is_for(t, k), x.conf.storage.elements@ == holding(f), f.len() > 0, goes_to(f, k).len() < usize::MAX,
        match k { Kind::Expand(n, c) => f[0] == LetterT::<N, T>::Label(n), Kind::Read(l) => f[0] == LetterT::<N, T>::Value(l) && x.conf.word.len() > 0 && x.conf.word[0] == l, Kind::Begin(n) => false },
    ensures continued(x, t).contains(y)
{
    tops(t, k, f);
    assert(begins(x.conf.word, t.word@)) by { assert(x.conf.word.take(t.word@.len() as int) =~= t.word@); }
    assert(t.instruction.outcomes(x.conf.storage).len() == 1);
    assert(continued(x, t).len() == 1);
    let y = continued(x, t)[0];
    y
}
// from the form f0 and the word w0, expanding as d says leads to f and w
spec fn leads<N, T, W>(g: Weights<N, T, W>, f0: Seq<LetterT<N, T>>, w0: Seq<T>, d: Derived<N, T>, f: Seq<LetterT<N, T>>, w: Seq<T>) -> bool { forall|e: Derived<N, T>| #[trigger] leftmost(g, f, w, e) ==> leftmost(g, f0, w0, d + e) }
// what a run that has begun has derived
spec fn derives_so_far<N, T, W: Mul<Output = W> + One>(g: Weights<N, T, W>, w: Seq<T>, y: StateNode<N, T, W>, n: N, f: Seq<LetterT<N, T>>) -> bool {
    &&& y.run.len() > 0 && is_for(y.run.first(), Kind::Begin(n)) && g(Kind::Begin(n)) is Some
    &&& y.conf.storage.elements@ == holding(f) && f.len() < usize::MAX
    &&& leads(g, seq![LetterT::Label(n)], w, told(y.run), f, y.conf.word)
    &&& y.conf.weight == derivation_weight(g, n, told(y.run))
}
proof fn begin_move<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, t: StateTrans<N, T, W>, k: Kind<N, T>, s: PushDown<PushState<N, T>>, w: Seq<T>, x: StateNode<N, T, W>, y: StateNode<N, T, W>)
    requires is_for(t, k), g(k) == Some(t.weight), s.elements@ =~= bottom::<N, T>(), x.conf == (Conf { word: w, storage: s, weight: W::unit() }), x.run == Seq::<StateTrans<N, T, W>>::empty()
    ensures
        continued(x, t).contains(y) ==> k is Begin && y.conf.word == w && derives_so_far(g, w, y, k->Begin_0, seq![LetterT::Label(k->Begin_0)]),
        k is Begin ==> continued(x, t).len() == 1,
{
    match t.instruction { PushDownInstruction::Replace { current_val, new_val } => {
        assert(s.elements@.last() == PushState::<N, T>::Initial);
        match k { Kind::Expand(n, c) => { assert(current_val@[0] == PushState::<N, T>::Nt(n)); } Kind::Read(l) => { assert(current_val@[0] == PushState::<N, T>::T(l)); } Kind::Begin(n) => {
            assert(current_val@[0] == PushState::<N, T>::Initial);
            let f = seq![LetterT::<N, T>::Label(n)];
            assert(on_top(s.elements@, current_val@));
            assert(replaced(s.elements@, 1, new_val@) =~= holding(f));
            some_stack(holding(f));
            assert(w.take(0) =~= Seq::<T>::empty());
            assert(w.skip(0) =~= w);
            let y0 = continued(x, t)[0];
            assert(y0.run =~= seq![t]);
            told_more(x.run, t, k);
            assert(leads(g, f, w, told(y0.run), f, w)) by { assert forall|e: Derived<N, T>| #[trigger] leftmost(g, f, w, e) implies leftmost(g, f, w, told(y0.run) + e) by { assert(told(y0.run) + e =~= e); } }
            assert(derives_so_far(g, w, y0, n, f));
        } }
    } }
}
proof fn more_derived<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, t: StateTrans<N, T, W>, k: Kind<N, T>, w: Seq<T>, x: StateNode<N, T, W>, y: StateNode<N, T, W>, n: N, f: Seq<LetterT<N, T>>)
    requires is_for(t, k), g(k) == Some(t.weight), idle(g), derives_so_far(g, w, x, n, f), continued(x, t).contains(y)
    ensures derives_so_far(g, w, y, n, goes_to(f, k))
{
    one_move(t, k, f, x, y);
    told_more(x.run, t, k);
    let (f2, d, d2) = (goes_to(f, k), told(x.run), told(y.run));
    assert(y.run.first() == x.run.first());
    let f0 = seq![LetterT::<N, T>::Label(n)];
    assert forall|e: Derived<N, T>| #[trigger] leftmost(g, f2, y.conf.word, e) implies leftmost(g, f0, w, d2 + e) by {
        match k {
            Kind::Expand(m, c) => {
                let e2 = seq![(m, c)] + e;
                assert(e2.skip(1) =~= e);
                assert(leftmost(g, f, x.conf.word, e2));
                assert(d + e2 =~= d2 + e);
            }
            _ => { assert(leftmost(g, f, x.conf.word, e)); }
        }
    }
    match k { Kind::Expand(m, c) => { assert(d2.drop_last() =~= d); } Kind::Read(l) => { assert(x.conf.weight.mul_spec(g(Kind::Read(l))->0) == x.conf.weight); } _ => {} }
}
proof fn run_derives<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, i: nat, y: StateNode<N, T, W>) -> (r: (N, Seq<LetterT<N, T>>))
    requires pictures(ms, g), idle(g), s.elements@ =~= bottom::<N, T>(), i > 0, run_of(ms, s, w, i, y)
    ensures derives_so_far(g, w, y, r.0, r.1)
    decreases i
{
    let x = choose|x: StateNode<N, T, W>| #[trigger] steps(ms, x, y) && run_of(ms, s, w, (i - 1) as nat, x);
    let l = choose|l: int| 0 <= l < ms.len() && continued(x, #[trigger] ms[l]).contains(y);
    assert(pictured(ms[l], g));
    let k = choose|k: Kind<N, T>| #[trigger] is_for(ms[l], k) && g(k) == Some(ms[l].weight);
    if i == 1 {
        begin_move(g, ms[l], k, s, w, x, y);
        (k->Begin_0, seq![LetterT::Label(k->Begin_0)])
    } else {
        let (n, f) = run_derives(g, ms, s, w, (i - 1) as nat, x);
        more_derived(g, ms[l], k, w, x, y, n, f);
        (n, goes_to(f, k))
    }
}
// an accepting run is a derivation
proof fn accepted_derives<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, y: StateNode<N, T, W>) -> (n: N)
    requires pictures(ms, g), idle(g), s.elements@ =~= bottom::<N, T>(), accepted_run(ms, s, pd_end(), w, y)
    ensures is_for(y.run.first(), Kind::Begin(n)), derivation(g, n, w, told(y.run)), y.conf.weight == derivation_weight(g, n, told(y.run))
{
    if y.run.len() == 0 { assert(y.conf.storage == s); assert(s.elements@.len() == 2); assert(pd_end::<PushState<N, T>>()(s)); }
    let (n, f) = run_derives(g, ms, s, w, y.run.len(), y);
    assert(holding(f).len() == f.len() + 1);
    assert(pd_end::<PushState<N, T>>()(y.conf.storage));
    let none: Derived<N, T> = Seq::empty();
    assert(leftmost(g, f, y.conf.word, none));
    assert(told(y.run) + none =~= told(y.run));
    n
}
// the first step of what is left to derive
proof fn next_step<N, T, W>(g: Weights<N, T, W>, f: Seq<LetterT<N, T>>, w: Seq<T>, d: Derived<N, T>) -> (r: (Kind<N, T>, Derived<N, T>))
    requires leftmost(g, f, w, d), f.len() > 0, readable(g, f)
    ensures
        g(r.0) is Some, goes_to(f, r.0).len() < usize::MAX,
        match r.0 {
            Kind::Expand(n, c) => f[0] == LetterT::<N, T>::Label(n) && d == seq![(n, c)] + r.1 && leftmost(g, goes_to(f, r.0), w, r.1) && r.1.len() < d.len(),
            Kind::Read(l) => f[0] == LetterT::<N, T>::Value(l) && w.len() > 0 && w[0] == l && d == r.1 && leftmost(g, goes_to(f, r.0), w.skip(1), r.1) && goes_to(f, r.0).len() < f.len(),
            Kind::Begin(n) => false,
        },
{
    match f[0] {
        LetterT::Value(l) => { assert(f.skip(1).len() == f.len() - 1); (Kind::Read(l), d) }
        LetterT::Label(n) => { assert(d =~= seq![(n, d[0].1)] + d.skip(1)); assert(leftmost(g, d[0].1 + f.skip(1), w, d.skip(1))); (Kind::Expand(n, d[0].1), d.skip(1)) }
    }
}
proof fn still_readable<N, T, W>(g: Weights<N, T, W>, f: Seq<LetterT<N, T>>, k: Kind<N, T>)
    requires closed(g), readable(g, f), g(k) is Some, f.len() > 0
    ensures readable(g, goes_to(f, k))
{
    let f2 = goes_to(f, k);
    assert forall|i: int| 0 <= i < f2.len() implies (#[trigger] f2[i] matches LetterT::Value(v) ==> g(Kind::Read(v)) is Some) by {
        match k { Kind::Expand(m, c) => { assert(readable(g, c)); if i < c.len() { assert(f2[i] == c[i]); } else { assert(f2[i] == f[i - c.len() + 1]); } } _ => { assert(f2[i] == f[i + 1]); } }
    }
}
// a run with one step more
proof fn longer<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, l: int, x: StateNode<N, T, W>, y: StateNode<N, T, W>)
    requires run_of(ms, s, w, x.run.len(), x), 0 <= l < ms.len(), continued(x, ms[l]).contains(y)
    ensures run_of(ms, s, w, y.run.len(), y), y.run == x.run.push(ms[l])
{
    assert(steps(ms, x, y));
    assert(y.run.len() == x.run.len() + 1);
}
spec fn less_left<N, T>(e: Derived<N, T>, f2: Seq<LetterT<N, T>>, d: Derived<N, T>, f: Seq<LetterT<N, T>>) -> bool { e.len() < d.len() || e.len() == d.len() && f2.len() < f.len() }
// the next step of what is left to derive
proof fn derived_step<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, x: StateNode<N, T, W>, n: N, f: Seq<LetterT<N, T>>, d: Derived<N, T>) -> (r: (StateNode<N, T, W>, Seq<LetterT<N, T>>, Derived<N, T>))
    requires pictures(ms, g), idle(g), closed(g), readable(g, f), run_of(ms, s, w, x.run.len(), x), derives_so_far(g, w, x, n, f), leftmost(g, f, x.conf.word, d), f.len() > 0
    ensures readable(g, r.1), run_of(ms, s, w, r.0.run.len(), r.0), derives_so_far(g, w, r.0, n, r.1), leftmost(g, r.1, r.0.conf.word, r.2), told(r.0.run) + r.2 == told(x.run) + d, less_left(r.2, r.1, d, f)
{
    let (k, e) = next_step(g, f, x.conf.word, d);
    assert(pictures_one(ms, k, g(k)->0));
    let l = choose|l: int| 0 <= l < ms.len() && is_for(#[trigger] ms[l], k) && ms[l].weight == g(k)->0;
    let y = can_move(ms[l], k, f, x);
    one_move(ms[l], k, f, x, y);
    more_derived(g, ms[l], k, w, x, y, n, f);
    told_more(x.run, ms[l], k);
    longer(ms, s, w, l, x, y);
    still_readable(g, f, k);
    assert(told(y.run) + e =~= told(x.run) + d);
    (y, goes_to(f, k), e)
}
proof fn ended<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, x: StateNode<N, T, W>, n: N, f: Seq<LetterT<N, T>>, d: Derived<N, T>)
    requires run_of(ms, s, w, x.run.len(), x), derives_so_far(g, w, x, n, f), leftmost(g, f, x.conf.word, d), f.len() == 0
    ensures accepted_run(ms, s, pd_end(), w, x), told(x.run) == told(x.run) + d
{
    assert(holding(f).len() == 1);
    assert(pd_end::<PushState<N, T>>()(x.conf.storage));
    assert(told(x.run) + d =~= told(x.run));
}
// what is left to derive can be run
proof fn derived_runs<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, x: StateNode<N, T, W>, n: N, f: Seq<LetterT<N, T>>, d: Derived<N, T>) -> (y: StateNode<N, T, W>)
    requires pictures(ms, g), idle(g), closed(g), readable(g, f), run_of(ms, s, w, x.run.len(), x), derives_so_far(g, w, x, n, f), leftmost(g, f, x.conf.word, d)
    ensures accepted_run(ms, s, pd_end(), w, y), told(y.run) == told(x.run) + d, is_for(y.run.first(), Kind::Begin(n)), y.conf.weight == derivation_weight(g, n, told(y.run))
    decreases d.len(), f.len()
{
    if f.len() == 0 { ended(g, ms, s, w, x, n, f, d); x } else {
        let (y, f2, e) = derived_step(g, ms, s, w, x, n, f, d);
        derived_runs(g, ms, s, w, y, n, f2, e)
    }
}
// every derivation is an accepting run
proof fn derivation_runs<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, n: N, d: Derived<N, T>) -> (y: StateNode<N, T, W>)
    requires pictures(ms, g), idle(g), closed(g), s.elements@ =~= bottom::<N, T>(), derivation(g, n, w, d)
    ensures accepted_run(ms, s, pd_end(), w, y), told(y.run) == d, is_for(y.run.first(), Kind::Begin(n)), y.conf.weight == derivation_weight(g, n, d)
{
    let x = Node::<PushDown<PushState<N, T>>, PushDownInstruction<PushState<N, T>>, T, W> { conf: Conf { word: w, storage: s, weight: W::unit() }, run: Seq::empty() };
    let k = Kind::<N, T>::Begin(n);
    assert(pictures_one(ms, k, g(k)->0));
    let l = choose|l: int| 0 <= l < ms.len() && is_for(#[trigger] ms[l], k) && ms[l].weight == g(k)->0;
    let y = continued(x, ms[l])[0];
    begin_move(g, ms[l], k, s, w, x, y);
    assert(continued(x, ms[l]).contains(y));
    assert(run_of(ms, s, w, 0, x));
    longer(ms, s, w, l, x, y);
    assert(y.run =~= seq![ms[l]]);
    told_more(x.run, ms[l], k);
    let z = derived_runs(g, ms, s, w, y, n, seq![LetterT::Label(n)], d);
    assert(told(z.run) =~= d);
    z
}
// the letters of rules are read
proof fn rules_closed<N, T, W: AddAssign + Zero>(rs: Seq<CFGRule<N, T, W>>, n: N, c: Seq<LetterT<N, T>>)
    requires rules_weight(rs, n, c) is Some
    ensures exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).composition.composition@ == c
    decreases rs.len()
{
    if rs.len() > 0 {
        if rs.last().head == n && rs.last().composition.composition@ == c { assert(rs[rs.len() - 1].composition.composition@ == c); }
        else { rules_closed(rs.drop_last(), n, c); let k = choose|k: int| 0 <= k < rs.drop_last().len() && (#[trigger] rs.drop_last()[k]).composition.composition@ == c; assert(rs[k] == rs.drop_last()[k]); }
    }
}
proof fn grammar_closed<N, T, W: AddAssign + Zero + One>(g: CFG<N, T, W>)
    ensures closed(grammar_weights(g))
{
    let h = grammar_weights(g);
    assert forall|n: N, c: Seq<LetterT<N, T>>| (#[trigger] h(Kind::Expand(n, c))) is Some implies readable(h, c) by {
        rules_closed(g.rules@, n, c);
        let k = choose|k: int| 0 <= k < g.rules@.len() && (#[trigger] g.rules@[k]).composition.composition@ == c;
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i] matches LetterT::Value(x) ==> h(Kind::Read(x)) is Some) by { if let LetterT::Value(x) = c[i] { assert(has_letter(c, c.len() as int, x)); assert(uses(g.rules@[k], x)); assert(occurs(g.rules@, g.rules@.len() as int, x)); } }
    }
}
// one, added to nothing, weighs nothing
spec fn neutral<W: AddAssign + Zero + One>() -> bool { forall|w: W| #[trigger] w.mul_spec(plus(W::nought(), W::unit())) == w }
// a run that was handed out is a derivation, with its weight
spec fn is_derivation<N: Clone + Ord + Hash, T: Clone + Ord + Hash, W: AddAssign + Zero + One>(g: CFG<N, T, W>, w: Seq<T>, x: StateNode<N, T, W>, n: N) -> bool {
    x.run.len() > 0 && is_for(x.run.first(), Kind::Begin(n)) && derivation(grammar_weights(g), n, w, told(x.run)) && x.conf.weight == derivation_weight(grammar_weights(g), n, told(x.run))
}
spec fn some_derivation<N: Clone + Ord + Hash, T: Clone + Ord + Hash, W: AddAssign + Zero + One>(g: CFG<N, T, W>, w: Seq<T>, x: StateNode<N, T, W>) -> bool { exists|n: N| #[trigger] is_derivation(g, w, x, n) }
spec fn derived_by<N: Clone + Ord + Hash, T: Clone + Ord + Hash, W: AddAssign + Zero + One>(g: CFG<N, T, W>, w: Seq<T>, out: Seq<Item<PushDown<PushState<N, T>>, PushDownInstruction<PushState<N, T>>, T, W>>, n: N, d: Derived<N, T>) -> bool { exists|k: int| 0 <= k < out.len() && is_derivation(g, w, nv(#[trigger] out[k]), n) && told(nv(out[k]).run) == d }
// what recognise hands out for the automaton made of a context-free grammar: leftmost derivations with their weights, and in the end all of them
proof fn cfg_recognised<N: Clone + Ord + Hash, T: Clone + Eq + Ord + Hash, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<StateTrans<N, T, W>>, p: PushDown<PushState<N, T>>, a: PushDownAutomaton<PushState<N, T>, T, W>, w: Seq<T>, out: Seq<Item<PushDown<PushState<N, T>>, PushDownInstruction<PushState<N, T>>, T, W>>, all: bool)
    requires made_with(g, ls, ts, p, a), lawful::<PushState<N, T>>(), faithful::<N>(), faithful::<T>(), neutral::<W>(), reports(a, w, out, all)
    ensures
        forall|k: int| 0 <= k < out.len() ==> some_derivation(g, w, nv(#[trigger] out[k])),
        all ==> forall|n: N, d: Derived<N, T>| #[trigger] derivation(grammar_weights(g), n, w, d) ==> derived_by(g, w, out, n, d),
        none_heavier(merged(ts)) ==> forall|k: int, l: int| 0 <= k < l < out.len() ==> ord_le((#[trigger] out[l]).0.weight, (#[trigger] out[k]).0.weight),
{
    state_faithful::<N, T>();
    made_rooted(g, ls, ts);
    made_weights(g, ls, ts);
    grammar_closed(g);
    pd_recognised(a, ts, p, w, out, all);
    let (ms, h) = (merged(ts), grammar_weights(g));
    assert(idle(h));
    assert forall|k: int| 0 <= k < out.len() implies some_derivation(g, w, nv(#[trigger] out[k])) by {
        assert(accepted_as(pd_equal(), ms, p, pd_end(), w, nv(out[k])));
        let y = choose|y: StateNode<N, T, W>| #[trigger] accepted_run(ms, p, pd_end(), w, y) && same_node(pd_equal(), nv(out[k]), y);
        accepted_not_empty(ms, p, w, y);
        let n = accepted_derives(h, ms, p, w, y);
        assert(is_derivation(g, w, nv(out[k]), n));
    }
    if all {
        assert forall|n: N, d: Derived<N, T>| #[trigger] derivation(h, n, w, d) implies derived_by(g, w, out, n, d) by {
            let y = derivation_runs(h, ms, p, w, n, d);
            accepted_not_empty(ms, p, w, y);
            assert(found_as(pd_equal(), out, y));
            let k = choose|k: int| 0 <= k < out.len() && same_node(pd_equal(), nv(#[trigger] out[k]), y);
            assert(is_derivation(g, w, nv(out[k]), n));
        }
    }
}
// ---- each derivation once ----
// d begins as e does
spec fn heads<A>(d: Seq<A>, e: Seq<A>) -> bool { d.len() <= e.len() && forall|i: int| 0 <= i < d.len() ==> d[i] == e[i] }
// no two of them are for the same
spec fn one_for_each<N, T, W>(ms: Seq<StateTrans<N, T, W>>) -> bool { forall|p: int, q: int, k: Kind<N, T>| 0 <= p < ms.len() && 0 <= q < ms.len() && #[trigger] is_for(ms[p], k) && #[trigger] is_for(ms[q], k) ==> p == q }
proof fn merged_for_each<N, T, W: AddAssign + Zero>(ts: Seq<StateTrans<N, T, W>>)
    ensures one_for_each(merged(ts))
{
    let ms = merged(ts);
    merged_unmixed(ts);
    assert forall|p: int, q: int, k: Kind<N, T>| 0 <= p < ms.len() && 0 <= q < ms.len() && #[trigger] is_for(ms[p], k) && #[trigger] is_for(ms[q], k) implies p == q by {
        one_key(ms[p], ms[q], k);
        if p < q { assert(key_of(ms[p]) != key_of(ms[q])); } else if q < p { assert(key_of(ms[q]) != key_of(ms[p])); }
    }
}
// a run of n steps is given by what it begins with and what it expands
proof fn one_run<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, i: nat, y: StateNode<N, T, W>, z: StateNode<N, T, W>, n: N, d: Derived<N, T>) -> (f: Seq<LetterT<N, T>>)
    requires
        pictures(ms, g), idle(g), one_for_each(ms), s.elements@ =~= bottom::<N, T>(), i > 0, run_of(ms, s, w, i, y), run_of(ms, s, w, i, z),
        is_for(y.run.first(), Kind::Begin(n)), is_for(z.run.first(), Kind::Begin(n)), heads(told(y.run), d), heads(told(z.run), d),
    ensures y == z, derives_so_far(g, w, y, n, f), y.run.len() == i
    decreases i
{
    let x1 = choose|x: StateNode<N, T, W>| #[trigger] steps(ms, x, y) && run_of(ms, s, w, (i - 1) as nat, x);
    let x2 = choose|x: StateNode<N, T, W>| #[trigger] steps(ms, x, z) && run_of(ms, s, w, (i - 1) as nat, x);
    let l1 = choose|l: int| 0 <= l < ms.len() && continued(x1, #[trigger] ms[l]).contains(y);
    let l2 = choose|l: int| 0 <= l < ms.len() && continued(x2, #[trigger] ms[l]).contains(z);
    let (t1, t2) = (ms[l1], ms[l2]);
    assert(pictured(t1, g) && pictured(t2, g));
    let k1 = choose|k: Kind<N, T>| #[trigger] is_for(t1, k) && g(k) == Some(t1.weight);
    let k2 = choose|k: Kind<N, T>| #[trigger] is_for(t2, k) && g(k) == Some(t2.weight);
    assert(y.run == x1.run.push(t1) && z.run == x2.run.push(t2));
    told_more(x1.run, t1, k1);
    told_more(x2.run, t2, k2);
    at_most_one_here(x1, t1);
    at_most_one_here(x2, t2);
    if i == 1 {
        assert(y.run.first() == t1 && z.run.first() == t2);
        of_one_kind(t1, k1, Kind::Begin(n));
        of_one_kind(t2, k2, Kind::Begin(n));
        assert(l1 == l2);
        begin_move(g, t1, k1, s, w, x1, y);
        seq![LetterT::Label(n)]
    } else {
        assert(x1.run.len() > 0 && x2.run.len() > 0) by { started(ms, s, w, (i - 1) as nat, x1); started(ms, s, w, (i - 1) as nat, x2); }
        assert(y.run.first() == x1.run.first() && z.run.first() == x2.run.first());
        assert(heads(told(x1.run), d)) by { assert forall|q: int| 0 <= q < told(x1.run).len() implies told(x1.run)[q] == d[q] by { assert(told(y.run)[q] == told(x1.run)[q]); } }
        assert(heads(told(x2.run), d)) by { assert forall|q: int| 0 <= q < told(x2.run).len() implies told(x2.run)[q] == d[q] by { assert(told(z.run)[q] == told(x2.run)[q]); } }
        let f = one_run(g, ms, s, w, (i - 1) as nat, x1, x2, n, d);
        one_move(t1, k1, f, x1, y);
        one_move(t2, k2, f, x2, z);
        let e = told(x1.run);
        match (k1, k2) {
            (Kind::Expand(m1, c1), Kind::Expand(m2, c2)) => {
                assert(told(y.run)[e.len() as int] == (m1, c1));
                assert(told(z.run)[e.len() as int] == (m2, c2));
            }
            _ => {}
        }
        assert(k1 == k2);
        assert(l1 == l2);
        more_derived(g, t1, k1, w, x1, y, n, f);
        goes_to(f, k1)
    }
}
proof fn at_most_one_here<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W>>(x: StateNode<N, T, W>, t: StateTrans<N, T, W>)
    ensures continued(x, t).len() <= 1
{ assert(t.instruction.outcomes(x.conf.storage).len() <= 1); }
proof fn started<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, i: nat, y: StateNode<N, T, W>)
    requires run_of(ms, s, w, i, y)
    ensures y.run.len() == i
    decreases i
{
    if i > 0 {
        let x = choose|x: StateNode<N, T, W>| #[trigger] steps(ms, x, y) && run_of(ms, s, w, (i - 1) as nat, x);
        let l = choose|l: int| 0 <= l < ms.len() && continued(x, #[trigger] ms[l]).contains(y);
        started(ms, s, w, (i - 1) as nat, x);
        assert(y.run == x.run.push(ms[l]));
    }
}
// the first i steps of a run, and the one after them
proof fn first_steps<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, i: nat, j: nat, y: StateNode<N, T, W>) -> (r: (StateNode<N, T, W>, StateNode<N, T, W>))
    requires i < j, run_of(ms, s, w, j, y)
    ensures run_of(ms, s, w, i, r.0), steps(ms, r.0, r.1), r.0.run == y.run.take(i as int), heads(told(r.0.run), told(y.run)), y.run.len() == j
    decreases j
{
    let x = choose|x: StateNode<N, T, W>| #[trigger] steps(ms, x, y) && run_of(ms, s, w, (j - 1) as nat, x);
    let l = choose|l: int| 0 <= l < ms.len() && continued(x, #[trigger] ms[l]).contains(y);
    assert(y.run == x.run.push(ms[l]));
    started(ms, s, w, (j - 1) as nat, x);
    assert(y.run.drop_last() =~= x.run);
    assert(told(y.run) == told(x.run) + told_by(y.run.last()));
    if i == j - 1 { assert(y.run.take(i as int) =~= x.run); (x, y) } else {
        let r = first_steps(ms, s, w, i, (j - 1) as nat, x);
        assert(y.run.take(i as int) =~= x.run.take(i as int));
        r
    }
}
// runs that end cannot go on
proof fn no_more<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, x: StateNode<N, T, W>, y: StateNode<N, T, W>, f: Seq<LetterT<N, T>>)
    requires pictures(ms, g), x.conf.storage.elements@ == holding(f), f.len() == 0
    ensures !steps(ms, x, y)
{
    if steps(ms, x, y) {
        let l = choose|l: int| 0 <= l < ms.len() && continued(x, #[trigger] ms[l]).contains(y);
        assert(pictured(ms[l], g));
        let k = choose|k: Kind<N, T>| #[trigger] is_for(ms[l], k) && g(k) == Some(ms[l].weight);
        one_move(ms[l], k, f, x, y);
    }
}
// accepting runs that tell of the same derivation are the same
proof fn one_telling<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(g: Weights<N, T, W>, ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, y: StateNode<N, T, W>, z: StateNode<N, T, W>, n: N)
    requires
        pictures(ms, g), idle(g), one_for_each(ms), s.elements@ =~= bottom::<N, T>(), accepted_run(ms, s, pd_end(), w, y), accepted_run(ms, s, pd_end(), w, z), y.run.len() <= z.run.len(),
        is_for(y.run.first(), Kind::Begin(n)), is_for(z.run.first(), Kind::Begin(n)), told(y.run) == told(z.run),
    ensures y == z
{
    accepted_not_empty(ms, s, w, y);
    let (i, j) = (y.run.len(), z.run.len());
    if i == j { let f = one_run(g, ms, s, w, i, y, z, n, told(y.run)); } else {
        let (x, u) = first_steps(ms, s, w, i, j, z);
        assert(x.run.first() == z.run.first());
        let f = one_run(g, ms, s, w, i, y, x, n, told(y.run));
        assert(holding(f).len() == f.len() + 1);
        assert(pd_end::<PushState<N, T>>()(y.conf.storage));
        no_more(g, ms, x, u, f);
    }
}
// no derivation is handed out twice
proof fn cfg_once<N: Clone + Ord + Hash, T: Clone + Eq + Ord + Hash, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(g: CFG<N, T, W>, ls: Seq<T>, ts: Seq<StateTrans<N, T, W>>, p: PushDown<PushState<N, T>>, a: PushDownAutomaton<PushState<N, T>, T, W>, w: Seq<T>, out: Seq<Item<PushDown<PushState<N, T>>, PushDownInstruction<PushState<N, T>>, T, W>>, all: bool)
    requires made_with(g, ls, ts, p, a), lawful::<PushState<N, T>>(), faithful::<N>(), faithful::<T>(), neutral::<W>(), reports(a, w, out, all)
    ensures forall|k: int, l: int, n: N| 0 <= k < l < out.len() && #[trigger] is_derivation(g, w, nv(out[k]), n) && #[trigger] is_derivation(g, w, nv(out[l]), n) ==> told(nv(out[k]).run) != told(nv(out[l]).run)
{
    state_faithful::<N, T>();
    made_rooted(g, ls, ts);
    made_weights(g, ls, ts);
    let (ms, h) = (merged(ts), grammar_weights(g));
    merged_for_each(ts);
    pd_recognised(a, ts, p, w, out, all);
    pd_once(a, ts, p, w, out, all);
    assert(idle(h));
    assert forall|k: int, l: int, n: N| 0 <= k < l < out.len() && #[trigger] is_derivation(g, w, nv(out[k]), n) && #[trigger] is_derivation(g, w, nv(out[l]), n) implies told(nv(out[k]).run) != told(nv(out[l]).run) by {
        assert(accepted_as(pd_equal(), ms, p, pd_end(), w, nv(out[k])) && accepted_as(pd_equal(), ms, p, pd_end(), w, nv(out[l])));
        let y = choose|y: StateNode<N, T, W>| #[trigger] accepted_run(ms, p, pd_end(), w, y) && same_node(pd_equal(), nv(out[k]), y);
        let z = choose|y: StateNode<N, T, W>| #[trigger] accepted_run(ms, p, pd_end(), w, y) && same_node(pd_equal(), nv(out[l]), y);
        if told(y.run) == told(z.run) { if y.run.len() <= z.run.len() { one_telling(h, ms, p, w, y, z, n); } else { one_telling(h, ms, p, w, z, y, n); } }
        assert(nv(out[k]).run != nv(out[l]).run);
    }
}
proof fn accepted_not_empty<N: Ord + Clone + Hash, T: Ord + Clone + Hash, W: Mul<Output = W> + One>(ms: Seq<StateTrans<N, T, W>>, s: PushDown<PushState<N, T>>, w: Seq<T>, y: StateNode<N, T, W>)
    requires s.elements@ =~= bottom::<N, T>(), accepted_run(ms, s, pd_end(), w, y)
    ensures y.run.len() > 0
{ if y.run.len() == 0 { assert(y.conf.storage == s); assert(s.elements@.len() == 2); assert(pd_end::<PushState<N, T>>()(s)); } }
// with rules that differ in head or right side each weighs what it says, if adding nothing changes nothing
proof fn apart_weights<N, T, W: AddAssign + Zero + One>(rs: Seq<CFGRule<N, T, W>>, k: int)
    requires
        0 <= k < rs.len(), forall|w: W| #[trigger] plus(W::nought(), w) == w,
        forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).head != (#[trigger] rs[j]).head || rs[i].composition.composition@ != rs[j].composition.composition@,
    ensures rules_weight(rs, rs[k].head, rs[k].composition.composition@) == Some(rs[k].weight)
    decreases rs.len()
{
    let (n, c) = (rs[k].head, rs[k].composition.composition@);
    let r = rs.drop_last();
    if k == rs.len() - 1 {
        if rules_weight(r, n, c) is Some { has_rule(r, n, c); let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).head == n && r[i].composition.composition@ == c; assert(rs[i] == r[i]); }
    } else {
        assert(rs[rs.len() - 1] == rs.last());
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).head != (#[trigger] r[j]).head || r[i].composition.composition@ != r[j].composition.composition@ by { assert(rs[i] == r[i] && rs[j] == r[j]); }
        assert(r[k] == rs[k]);
        apart_weights(r, k);
    }
}
proof fn has_rule<N, T, W: AddAssign + Zero>(rs: Seq<CFGRule<N, T, W>>, n: N, c: Seq<LetterT<N, T>>)
    requires rules_weight(rs, n, c) is Some
    ensures exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).head == n && rs[k].composition.composition@ == c
    decreases rs.len()
{
    if rs.len() > 0 {
        if rs.last().head == n && rs.last().composition.composition@ == c { assert(rs[rs.len() - 1].head == n); }
        else { has_rule(rs.drop_last(), n, c); let k = choose|k: int| 0 <= k < rs.drop_last().len() && (#[trigger] rs.drop_last()[k]).head == n && rs.drop_last()[k].composition.composition@ == c; assert(rs[k] == rs.drop_last()[k]); }
    }
}
} // verus!
