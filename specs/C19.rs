// C19: rules imported from discodop and rparse.
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::ops::*;
use std::collections::{HashMap, HashSet, hash_map::Entry};
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::{AddAssign, DivAssign, Mul};
use std::str::FromStr;
verus! {
broadcast use group_hash_axioms;

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/rule.rs
spec fn faithful<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }

//@@ type src/grammars/lcfrs/mod.rs Lcfrs
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs <From~for~Composition>::from as composed
//@ implhead impl<T> Composition<T>
//@ params v
//@ ret r
//@ ensures r.composition@ == v@
//@@ end

// ---- reading names (assumed: what a text is read as depends on the text only) ----
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
uninterp spec fn read_as<N: FromStr>(s: Seq<char>) -> Result<N, N::Err>;
#[verifier::external_body]
fn vt_parse<N: FromStr>(s: &str) -> (r: Result<N, N::Err>) ensures r == read_as::<N>(s@) { s.parse::<N>() }

// ---- what a yield function means: which successor each variable is of, by component ----
spec fn size(y: Seq<Seq<bool>>) -> nat decreases y.len() { if y.len() == 0 { 0 } else { size(y.drop_last()) + y.last().len() } }
// how many are of the given successor
spec fn count(s: Seq<bool>, b: bool) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), b) + if s.last() == b { 1nat } else { 0nat } } }
spec fn count_all(y: Seq<Seq<bool>>, b: bool) -> nat decreases y.len() { if y.len() == 0 { 0 } else { count_all(y.drop_last(), b) + count(y.last(), b) } }
// the i-th variable of the k-th component: of the second successor if its bit is set, numbered in order of occurrence
spec fn variable<T>(y: Seq<Seq<bool>>, k: int, i: int) -> VarT<T> {
    let b = y[k][i];
    VarT::Var(if b { 1 } else { 0 }, (count_all(y.take(k), b) + count(y[k].take(i), b)) as usize)
}
spec fn lists<T>(y: Seq<Seq<bool>>, k: int, c: Seq<VarT<T>>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == variable::<T>(y, k, i) }
spec fn spells_part<T>(y: Seq<Seq<bool>>, k: int, c: Seq<VarT<T>>) -> bool { c.len() == y[k].len() && lists(y, k, c) }
spec fn spells_upto<T>(y: Seq<Seq<bool>>, c: Seq<Vec<VarT<T>>>) -> bool { forall|k: int| 0 <= k < c.len() ==> spells_part(y, k, #[trigger] c[k]@) }
spec fn spells<T>(y: Seq<Seq<bool>>, c: Seq<Vec<VarT<T>>>) -> bool { c.len() == y.len() && spells_upto(y, c) }
proof fn count_bound(s: Seq<bool>) ensures count(s, false) + count(s, true) == s.len() decreases s.len() { if s.len() > 0 { count_bound(s.drop_last()); } }
proof fn count_all_bound(y: Seq<Seq<bool>>) ensures count_all(y, false) + count_all(y, true) == size(y) decreases y.len() { if y.len() > 0 { count_all_bound(y.drop_last()); count_bound(y.last()); } }
proof fn size_take(y: Seq<Seq<bool>>, k: int) requires 0 <= k <= y.len() ensures size(y.take(k)) <= size(y) decreases y.len() - k
{
    if k < y.len() { size_take(y, k + 1); assert(y.take(k + 1).drop_last() =~= y.take(k)); } else { assert(y.take(k) =~= y); }
}
proof fn one_more(y: Seq<Seq<bool>>, k: int, i: int)
    requires 0 <= k < y.len(), 0 <= i < y[k].len(), size(y) <= usize::MAX
    ensures
        count_all(y.take(k), y[k][i]) + count(y[k].take(i), y[k][i]) < usize::MAX,
        forall|b: bool| #[trigger] count(y[k].take(i + 1), b) == count(y[k].take(i), b) + if b == y[k][i] { 1nat } else { 0nat },
{
    let s = y[k];
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
    size_take(y, k + 1);
    assert(y.take(k + 1).drop_last() =~= y.take(k));
    count_all_bound(y.take(k));
    count_bound(s.take(i));
}
proof fn next_part(y: Seq<Seq<bool>>, k: int)
    requires 0 <= k < y.len()
    ensures forall|b: bool| #[trigger] count_all(y.take(k + 1), b) == count_all(y.take(k), b) + count(y[k], b)
{ assert(y.take(k + 1).drop_last() =~= y.take(k)); assert(y.take(k + 1).last() == y[k]); }

// ---- rparse ----
//@@ type src/grammars/lcfrs/from_rparse.rs Rhs
//@@ end
//@@ type src/grammars/lcfrs/from_rparse.rs Yield
//@@ end
//@@ type src/grammars/lcfrs/from_rparse.rs RparseClauses
//@@ end
spec fn bits(y: Seq<Vec<bool>>) -> Seq<Seq<bool>> { y.map_values(|c: Vec<bool>| c@) }
spec fn rparse_tail<N>(r: Rhs<N>) -> Seq<N> { match r { Rhs::Chain(a) => seq![a], Rhs::Binary(a, b) => seq![a, b] } }
spec fn rparse_rule<N, W>(c: (W, N, Rhs<N>, Yield), r: PMCFGRule<N, (), W>) -> bool { r.weight == c.0 && r.head == c.1 && r.tail@ == rparse_tail(c.2) && spells(bits(c.3@), comp(r)) }
spec fn rparse_room<N, W>(c: (W, N, Rhs<N>, Yield)) -> bool { size(bits(c.3@)) <= usize::MAX }

//@@ fn src/grammars/lcfrs/from_rparse.rs <Into~for~RparseClauses>::into
//@ implhead impl<N: FromStr, W> RparseClauses<N, W> where <N as FromStr>::Err: Debug
//@ ret g
//@ requires
    read_as::<N>("VROOT1"@) is Ok,
    forall|k: int| 0 <= k < self.0@.len() ==> rparse_room(#[trigger] self.0@[k]),
//@ ensures
    g.init == read_as::<N>("VROOT1"@)->Ok_0,
    g.rules@.len() == self.0@.len(),
    forall|k: int| 0 <= k < g.rules@.len() ==> rparse_rule(self.0@[k], #[trigger] g.rules@[k]),
//@ attr #[verifier::loop_isolation(false)]
//@ mapmethod into Composition::composed
//@ mapmethod parse vt_parse
//@ local rules 0
//@ local tail 1
//@ local composition 2
//@ local ind1 3
//@ local ind2 4
//@ local component 5
//@ forpat 0 weight lhs rhs y
//@ forpat 1 ycomp
//@ forpat 2 snd_or_fst
//@ loop 0 for it
    invariant
        it.seq() == self.0@, rules@.len() == it.index@,
        forall|k: int| 0 <= k < rules@.len() ==> rparse_rule(self.0@[k], #[trigger] rules@[k]),
//@ loopstart 0
    let ghost clause = (weight, lhs, rhs, y);
    let ghost all = bits(y@);
    assert(clause == self.0@[it.index@]);
    assert(rparse_room(clause));
    assert(all.take(0) =~= Seq::empty());
//@ loop 1 for it1
    invariant
        it1.seq() == clause.3@, composition@.len() == it1.index@,
        ind1 == count_all(all.take(it1.index@ as int), false), ind2 == count_all(all.take(it1.index@ as int), true),
        spells_upto::<()>(all, composition@),
//@ loopstart 1
    let ghost k1 = it1.index@ as int;
    let ghost part = ycomp@;
    assert(part == all[k1]);
    assert(part.take(0) =~= Seq::empty());
//@ loop 2 for it2
    invariant
        it2.seq() == part, component@.len() == it2.index@,
        ind1 == count_all(all.take(k1), false) + count(part.take(it2.index@ as int), false), ind2 == count_all(all.take(k1), true) + count(part.take(it2.index@ as int), true),
        lists::<()>(all, k1, component@),
//@ loopstart 2
    proof { one_more(all, k1, it2.index@ as int); }
//@ after 1
    proof { assert(tail@ =~= rparse_tail(clause.2)); assert(spells(all, composition@)); }
//@ after 2
    proof { assert(part.take(part.len() as int) =~= part); next_part(all, k1); }
//@@ end

// ---- discodop: bit strings as numbers ----
// the first digit is the lowest bit
spec fn digit(c: u64, i: int) -> bool { 0 <= i < 64 && (1u64 << (i as u64)) & c != 0 }
spec fn binary(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '0' || s[i] == '1' }
spec fn reads(s: Seq<char>, c: u64) -> bool { forall|i: int| 0 <= i < 64 ==> (#[trigger] digit(c, i) <==> i < s.len() && s[i] == '1') }
#[verifier::external_body]
fn vt_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
// the length in bytes (assumed: at least one each, exactly one each if they are digits)
#[verifier::external_body]
fn vt_bytes(s: &str) -> (r: usize) ensures s@.len() <= r, binary(s@) ==> s@.len() == r { s.len() }
// powers of two (assumed contract of u64::pow)
#[verifier::external_body]
fn vt_pow(b: u64, e: u32) -> (r: u64) requires b == 2, e < 64 ensures r == 1u64 << (e as u64) { b.pow(e) }
spec fn at_place(i: int, d: Option<u64>, c: char) -> bool { if c == '0' { d == Some(0u64) } else if c == '1' { d == Some(1u64 << (i as u64)) } else { d is None } }
spec fn places(v: Seq<Option<u64>>, s: Seq<char>) -> bool { v.len() == s.len() <= 64 && forall|i: int| 0 <= i < v.len() ==> at_place(i, #[trigger] v[i], s[i]) }
spec fn digits(v: Seq<Option<u64>>) -> bool { v.len() <= 64 && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is None || v[i] == Some(0u64) || v[i] == Some(1u64 << (i as u64)) }
spec fn plus(a: Option<u64>, b: Option<u64>) -> Option<u64> { match (a, b) { (Some(x), Some(y)) => Some((x + y) as u64), _ => None } }
spec fn fits(a: Option<u64>, b: Option<u64>) -> bool { match (a, b) { (Some(x), Some(y)) => x + y <= u64::MAX, _ => true } }
spec fn below(x: u64, i: int) -> bool { i >= 64 || x < (1u64 << (i as u64)) }
// what has been added up after i digits
spec fn upto(s: Seq<char>, i: int, a: Option<u64>) -> bool { match a { None => !binary(s.take(i)), Some(x) => binary(s.take(i)) && below(x, i) && reads(s.take(i), x) } }
proof fn bit_added(x: u64, i: u64)
    requires i < 64, x < (1u64 << i)
    ensures
        x + (1u64 << i) <= u64::MAX,
        i < 63 ==> x + (1u64 << i) < (1u64 << ((i + 1) as u64)) && (1u64 << i) < (1u64 << ((i + 1) as u64)),
        forall|j: u64| j < 64 ==> (#[trigger] (1u64 << j) & ((x + (1u64 << i)) as u64) != 0 <==> j == i || (1u64 << j) & x != 0),
{
    let p = 1u64 << i;
    assert(x < p && p == 1u64 << i && i < 64 ==> x <= u64::MAX - p) by (bit_vector);
    assert(i < 63 ==> (1u64 << i) < (1u64 << ((i + 1) as u64)) && add(1u64 << i, 1u64 << i) == (1u64 << ((i + 1) as u64)) && (1u64 << i) <= 0x8000_0000_0000_0000u64) by (bit_vector);
    if i < 63 { assert((1u64 << i) < 0x8000_0000_0000_0000u64) by (bit_vector) requires i < 63; }
    assert forall|j: u64| j < 64 implies (#[trigger] (1u64 << j) & ((x + p) as u64) != 0 <==> j == i || (1u64 << j) & x != 0) by {
        assert(x < p && p == 1u64 << i && i < 64 && j < 64 ==> ((1u64 << j) & add(x, p) != 0 <==> j == i || (1u64 << j) & x != 0)) by (bit_vector);
        assert((x + p) as u64 == add(x, p));
    }
}
proof fn small_bits(x: u64, i: u64)
    requires i < 64, x < (1u64 << i)
    ensures forall|j: u64| i <= j < 64 ==> #[trigger] (1u64 << j) & x == 0, i < 63 ==> x < (1u64 << ((i + 1) as u64))
{
    assert forall|j: u64| i <= j < 64 implies #[trigger] (1u64 << j) & x == 0 by { assert(i < 64 && x < (1u64 << i) && i <= j < 64 ==> (1u64 << j) & x == 0) by (bit_vector); }
    assert(i < 63 ==> (1u64 << i) < (1u64 << ((i + 1) as u64))) by (bit_vector);
}
proof fn digit_added(s: Seq<char>, v: Seq<Option<u64>>, i: int, a: Option<u64>)
    requires places(v, s), 0 <= i < s.len(), upto(s, i, a)
    ensures fits(a, v[i]), upto(s, i + 1, plus(a, v[i]))
{
    let t = s.take(i);
    let u = s.take(i + 1);
    assert(u =~= t.push(s[i]));
    assert(at_place(i, v[i], s[i]));
    assert(u[i] == s[i]);
    assert forall|k: int| 0 <= k < i implies #[trigger] t[k] == u[k] by {}
    if binary(u) { assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == '0' || t[k] == '1' by { assert(u[k] == '0' || u[k] == '1'); } }
    if let (Some(x), Some(y)) = (a, v[i]) {
        bit_added(x, i as u64);
        small_bits(x, i as u64);
        assert(binary(u)) by { assert forall|k: int| 0 <= k < u.len() implies #[trigger] u[k] == '0' || u[k] == '1' by { if k < i { assert(t[k] == u[k]); } } }
        let z = (x + y) as u64;
        assert forall|k: int| 0 <= k < 64 implies (#[trigger] digit(z, k) <==> k < u.len() && u[k] == '1') by {
            assert(digit(x, k) <==> k < t.len() && t[k] == '1');
            assert((1u64 << (k as u64)) & z == (1u64 << (k as u64)) & z);
        }
    } else if a is Some { assert(u[i] != '0' && u[i] != '1'); }
}
fn vt_fold<F: Fn(Option<u64>, Option<u64>) -> Option<u64>>(v: Vec<Option<u64>>, init: Option<u64>, f: F) -> (r: Option<u64>)
    requires
        init == Some(0u64), digits(v@),
        forall|a: Option<u64>, b: Option<u64>| #[trigger] fits(a, b) ==> call_requires(f, (a, b)),
        forall|a: Option<u64>, b: Option<u64>, u: Option<u64>| #[trigger] call_ensures(f, (a, b), u) ==> u == plus(a, b),
    ensures forall|s: Seq<char>| places(v@, s) ==> #[trigger] upto(s, s.len() as int, r)
{
    let mut r = init;
    proof { let s = Seq::new(v@.len(), |i: int| if v@[i] is None { '2' } else if v@[i] == Some(0u64) { '0' } else { '1' }); assert(places(v@, s)); }
    assert forall|s: Seq<char>| #[trigger] places(v@, s) implies upto(s, 0, r) by {
        assert(binary(s.take(0)));
        assert(0u64 < (1u64 << 0u64)) by (bit_vector);
        assert forall|j: int| 0 <= j < 64 implies !(#[trigger] digit(0, j)) by { let q = 1u64 << (j as u64); assert(q & 0 == 0) by (bit_vector); }
    }
    for x in it: v
        invariant it.seq() == v@, forall|s: Seq<char>| #[trigger] places(v@, s) ==> upto(s, it.index@ as int, r), exists|s: Seq<char>| places(v@, s),
            forall|a: Option<u64>, b: Option<u64>| #[trigger] fits(a, b) ==> call_requires(f, (a, b)),
            forall|a: Option<u64>, b: Option<u64>, u: Option<u64>| #[trigger] call_ensures(f, (a, b), u) ==> u == plus(a, b),
    {
        let ghost k = it.index@ as int;
        let ghost r0 = r;
        proof { let s = choose|s: Seq<char>| places(v@, s); digit_added(s, v@, k, r); }
        assert(fits(r, x));
        r = f(r, x);
        assert forall|s: Seq<char>| #[trigger] places(v@, s) implies upto(s, k + 1, r) by { digit_added(s, v@, k, r0); }
    }
    r
}
//@@ fn src/grammars/lcfrs/from_discodop.rs from_binary
//@ ret r
//@ ensures
    r is Some <==> binary(s@) && s@.len() <= 64,
    r is Some ==> reads(s@, r->0),
//@ mapmethod len vt_bytes
//@ mapmethod chars vt_chars
//@ mapmethod enumerate vt_enumerate
//@ mapmethod map vt_map
//@ mapmethod fold vt_fold
//@ mapmethod pow vt_pow
//@ closure 0 (x: (usize, char)) -> (d: Option<u64>)
    requires x.0 < 64
    ensures at_place(x.0 as int, d, x.1)
//@ closure 1 (os: Option<u64>, ov: Option<u64>) -> (u: Option<u64>)
    requires fits(os, ov)
    ensures u == plus(os, ov)
//@ closure 2 (s: u64) -> (u: Option<u64>)
    requires fits(Some(s), ov)
    ensures u == plus(Some(s), ov)
//@ closure 3 (v: u64) -> (u: Option<u64>)
    requires s + v <= u64::MAX
    ensures u == Some((s + v) as u64)
//@ start
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@ tail
    assert(upto(s@, s@.len() as int, result__));
//@@ end

// ---- discodop: rules with counts ----
//@@ include lib/slot.rs
//@@ type src/grammars/lcfrs/from_discodop.rs DiscoDeriv
//@@ end
//@@ type src/grammars/lcfrs/from_discodop.rs DiscoYield
//@@ end
//@@ type src/grammars/lcfrs/from_discodop.rs DiscoConstituents
//@@ end
//@@ type src/grammars/lcfrs/from_discodop.rs DiscoLexer
//@@ end
//@@ type src/grammars/lcfrs/from_discodop.rs DiscoDopGrammar
//@@ end
// std's tables and those of the crate fnv differ in how they hash
type FnvHashMap<K, V> = HashMap<K, V>;
fn vt_table<K, V>() -> (r: HashMap<K, V>) ensures r@ == Map::<K, V>::empty() { HashMap::new() }
#[verifier::external_body]
fn vt_count<'m, N: Eq + Hash, V>(m: &'m HashMap<N, V>, n: &N) -> (r: &'m V)
    requires obeys_key_model::<N>(), m@.contains_key(*n)
    ensures *r == m@[*n]
{ &m[n] }
spec fn lhs_of<N>(d: DiscoDeriv<N>) -> N { match d { DiscoDeriv::Chain { lhs, rhs } => lhs, DiscoDeriv::Binary { lhs, rhs1, rhs2 } => lhs } }
spec fn rhs_of<N>(d: DiscoDeriv<N>) -> Seq<N> { match d { DiscoDeriv::Chain { lhs, rhs } => seq![rhs], DiscoDeriv::Binary { lhs, rhs1, rhs2 } => seq![rhs1, rhs2] } }
//@@ fn src/grammars/lcfrs/from_discodop.rs DiscoDeriv::get_lhs
//@ ret r
//@ ensures *r == lhs_of(*self)
//@@ end
spec fn constituents<N, T, W>(g: DiscoDopGrammar<N, T, W>) -> Seq<(DiscoDeriv<N>, DiscoYield, W)> { g.constituents.0@ }
spec fn lexer<N, T, W>(g: DiscoDopGrammar<N, T, W>) -> Seq<(T, N, W)> { match g.lexer { Some(l) => l.0@, None => Seq::empty() } }
// the left-hand sides and counts of all rules, those of constituents first
spec fn counts<N, T, W>(g: DiscoDopGrammar<N, T, W>) -> Seq<(N, W)> {
    constituents(g).map_values(|c: (DiscoDeriv<N>, DiscoYield, W)| (lhs_of(c.0), c.2)) + lexer(g).map_values(|l: (T, N, W)| (l.1, l.2))
}
// the counts of n's rules added up
spec fn total<N, W: AddAssign>(s: Seq<(N, W)>, n: N) -> Option<W>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        let t = total(s.drop_last(), n);
        if s.last().0 == n { Some(match t { None => s.last().1, Some(w) => *w.add_assign_spec(s.last().1) }) } else { t }
    }
}
spec fn totals<N, W: AddAssign>(m: Map<N, W>, s: Seq<(N, W)>) -> bool { forall|n: N| #![trigger m.contains_key(n)] #![trigger total(s, n)] total(s, n) == if m.contains_key(n) { Some(m[n]) } else { None } }
proof fn counted<N, W: AddAssign>(s: Seq<(N, W)>, i: int)
    requires 0 <= i < s.len()
    ensures total(s, s[i].0) is Some
    decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); counted(s.drop_last(), i); } }
// which successor each variable of a component is of
spec fn mask(c: (u8, u64)) -> Seq<bool> { Seq::new(c.0 as nat, |i: int| digit(c.1, i)) }
spec fn masks(y: Seq<(u8, u64)>) -> Seq<Seq<bool>> { y.map_values(|c: (u8, u64)| mask(c)) }
spec fn short(c: (u8, u64)) -> bool { c.0 <= 64 }
spec fn disco_room(y: Seq<(u8, u64)>) -> bool { size(masks(y)) <= usize::MAX && forall|k: int| 0 <= k < y.len() ==> short(#[trigger] y[k]) }
// the relative frequency
spec fn share<N, W: AddAssign + DivAssign>(s: Seq<(N, W)>, n: N, w: W) -> W { *w.div_assign_spec(total(s, n)->0) }
spec fn constituent_rule<N, T, W: AddAssign + DivAssign>(s: Seq<(N, W)>, c: (DiscoDeriv<N>, DiscoYield, W), r: PMCFGRule<N, T, W>) -> bool {
    r.head == lhs_of(c.0) && r.tail@ == rhs_of(c.0) && r.weight == share(s, r.head, c.2) && spells(masks(c.1@), comp(r))
}
spec fn lexer_rule<N, T, W: AddAssign + DivAssign>(s: Seq<(N, W)>, l: (T, N, W), r: PMCFGRule<N, T, W>) -> bool {
    r.head == l.1 && r.tail@.len() == 0 && r.weight == share(s, r.head, l.2) && comp(r).len() == 1 && comp(r)[0]@ == seq![VarT::T(l.0)]
}
impl<T> VtEach for Option<T> {
    type Item = T;
    spec fn parts(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    fn vt_each(&self) -> (r: Vec<&T>) { match self { Some(x) => { let mut r = Vec::new(); r.push(x); assert(r@ =~= refs(self.parts())); r } None => { let r = Vec::new(); assert(r@ =~= refs(self.parts())); r } } }
}
impl<T> VtInto for Option<T> {
    type Item = T;
    spec fn items(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    fn vt_into(self) -> (r: Vec<T>) { let ghost s = self.items(); match self { Some(x) => { let mut r = Vec::new(); r.push(x); assert(r@ =~= s); r } None => Vec::new() } }
}
fn vt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d }
{ match o { Some(x) => f(x), None => d } }
fn vt_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
spec fn upto8(n: u8) -> Seq<u8> { Seq::new(n as nat, |i: int| i as u8) }
fn vt_upto(n: core::ops::Range<u8>) -> (r: Vec<u8>)
    requires n.start == 0
    ensures r@ == upto8(n.end)
{
    let mut r: Vec<u8> = Vec::new();
    let mut i = 0u8;
    while i < n.end
        invariant i <= n.end, r@ == Seq::new(i as nat, |k: int| k as u8)
        decreases n.end - i
    { r.push(i); i += 1; assert(r@ =~= Seq::new(i as nat, |k: int| k as u8)); }
    r
}
// v lists the elements of s, their names borrowed
spec fn paired<N, W>(v: Seq<(&N, W)>, s: Seq<(N, W)>) -> bool { v.len() == s.len() && forall|k: int| #![trigger v[k]] #![trigger s[k]] 0 <= k < v.len() ==> *v[k].0 == s[k].0 && v[k].1 == s[k].1 }
proof fn disco_first<N, W: AddAssign>(cs: Seq<(DiscoDeriv<N>, DiscoYield, W)>, all: Seq<(N, W)>, k: int)
    requires 0 <= k < cs.len() <= all.len(), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] all[i]).0 == lhs_of(cs[i].0)
    ensures total(all, lhs_of(cs[k].0)) is Some
{ counted(all, k); }
broadcast proof fn concat_small<T>(s: Seq<Seq<T>>)
    requires s.len() <= 1
    ensures #[trigger] concat(s) == if s.len() == 0 { Seq::<T>::empty() } else { s[0] }
{ if s.len() == 1 { assert(s.drop_last().len() == 0); assert(concat(s.drop_last()) =~= Seq::<T>::empty()); assert(concat(s) =~= s[0]); } }
spec fn can_count<W: AddAssign + DivAssign>() -> bool {
    &&& W::obeys_add_assign_spec() && W::obeys_div_assign_spec()
    &&& forall|a: W, b: W| #[trigger] a.add_assign_req(b)
    &&& forall|a: W, b: W| #[trigger] a.div_assign_req(b)
}
//@@ fn src/grammars/lcfrs/from_discodop.rs <From~for~Lcfrs>::from
//@ implhead impl<N: FromStr + Hash + Eq + Clone, T, W: DivAssign + Copy + AddAssign> Lcfrs<N, T, W> where <N as FromStr>::Err: Debug
//@ params gmr
//@ ret g
//@ requires
    can_count::<W>(), obeys_key_model::<N>(), faithful::<N>(),
    read_as::<N>("ROOT"@) is Ok,
    constituents(gmr).len() + lexer(gmr).len() <= usize::MAX,
    forall|k: int| 0 <= k < constituents(gmr).len() ==> disco_room((#[trigger] constituents(gmr)[k]).1@),
//@ ensures
    g.init == read_as::<N>("ROOT"@)->Ok_0,
    g.rules@.len() == constituents(gmr).len() + lexer(gmr).len(),
    forall|k: int| 0 <= k < constituents(gmr).len() ==> constituent_rule(counts(gmr), constituents(gmr)[k], #[trigger] g.rules@[k]),
    forall|k: int| constituents(gmr).len() <= k < g.rules@.len() ==> lexer_rule(counts(gmr), lexer(gmr)[k - constituents(gmr).len()], #[trigger] g.rules@[k]),
//@ attr #[verifier::loop_isolation(false)]
//@ mapmethod into Composition::composed
//@ mapmethod parse vt_parse
//@ mapmethod pow vt_pow
//@ mapmethod iter . vt_each
//@ mapmethod into_iter . vt_into
//@ mapmethod map vt_map
//@ mapmethod map_or vt_map_or
//@ mapmethod flat_map vt_flat_map_into
//@ mapmethod chain vt_chain
//@ mappath HashMap::default vt_table
//@ mapindex normalization_denominators vt_count &
//@ closure 0 (l: &DiscoLexer<N, T, W>) -> (u: usize)
    ensures u == l.0@.len()
//@ closure 1 (x: &(DiscoDeriv<N>, DiscoYield, W)) -> (u: (&N, W))
    ensures *u.0 == lhs_of(x.0), u.1 == x.2
//@ closure 2 (l: &DiscoLexer<N, T, W>) -> (u: &Vec<(T, N, W)>)
    ensures u == l.0
//@ closure 3 (x: &(T, N, W)) -> (u: (&N, W))
    ensures *u.0 == x.1, u.1 == x.2
//@ closure 4 (dl: DiscoLexer<N, T, W>) -> (u: Vec<(T, N, W)>)
    ensures u == dl.0
//@ start
    let ghost all = counts(gmr);
    let ghost cs = constituents(gmr);
    let ghost ls = lexer(gmr);
    broadcast use concat_small;
//@ local rules 0
//@ local normalization_denominators 1
//@ local composition 2
//@ local sind1 3
//@ local sind2 4
//@ local component 5
//@ forpat 0 lhs weight
//@ forpat 1 nts y weight
//@ forpat 2 clen c
//@ forpat 3 i
//@ forpat 4 word pos weight
//@ foriter 3 vt_upto
//@ loop 0 for it
    invariant
        paired(it.seq(), all), totals(normalization_denominators@, all.take(it.index@ as int)),
        it.index@ == it.seq().len() ==> totals(normalization_denominators@, all),
//@ loopstart 0
    let ghost i = it.index@ as int;
    proof {
        assert(all.take(i + 1).drop_last() =~= all.take(i));
        assert(all.take(i + 1).last() == all[i]);
        assert(*lhs == all[i].0 && weight == all[i].1);
        assert(all.take(all.len() as int) =~= all);
        assert(total(all.take(i), *lhs) == if normalization_denominators@.contains_key(*lhs) { Some(normalization_denominators@[*lhs]) } else { None });
    }
//@ loop 1 for it1
    invariant
        it1.seq() == cs, rules@.len() == it1.index@,
        forall|k: int| 0 <= k < rules@.len() ==> constituent_rule(all, cs[k], #[trigger] rules@[k]),
//@ loopstart 1
    let ghost one = (nts, y, weight);
    let ghost ys = masks(y@);
    assert(one == cs[it1.index@ as int]);
    assert(disco_room(y@));
    assert(ys.take(0) =~= Seq::empty());
    proof { disco_first(cs, all, it1.index@ as int); }
//@ loop 2 for it2
    invariant
        it2.seq() == one.1@, composition@.len() == it2.index@,
        sind1 == count_all(ys.take(it2.index@ as int), false), sind2 == count_all(ys.take(it2.index@ as int), true),
        spells_upto::<T>(ys, composition@),
//@ loopstart 2
    let ghost k1 = it2.index@ as int;
    let ghost part = mask((clen, c));
    assert((clen, c) == one.1@[k1]);
    assert(short((clen, c)));
    assert(part == ys[k1]);
    assert(part.take(0) =~= Seq::empty());
//@ loop 3 for it3
    invariant
        it3.seq() == upto8(clen), component@.len() == it3.index@,
        sind1 == count_all(ys.take(k1), false) + count(part.take(it3.index@ as int), false), sind2 == count_all(ys.take(k1), true) + count(part.take(it3.index@ as int), true),
        lists::<T>(ys, k1, component@),
//@ loopstart 3
    proof { one_more(ys, k1, it3.index@ as int); }
//@ after 2
    assert(spells(ys, composition@));
    assert(lhs_of(nts) == lhs_of(one.0));
    assert(weight == share(all, lhs_of(one.0), one.2));
//@ loopend 1
    proof {
        let last = rules@.last();
        assert(last.tail@ =~= rhs_of(one.0));
        assert(constituent_rule(all, one, last));
    }
//@ after 3
    proof { assert(part.take(part.len() as int) =~= part); next_part(ys, k1); }
//@ loop 4 for it4
    invariant
        it4.seq() == ls, rules@.len() == cs.len() + it4.index@,
        forall|k: int| 0 <= k < cs.len() ==> constituent_rule(all, cs[k], #[trigger] rules@[k]),
        forall|k: int| cs.len() <= k < rules@.len() ==> lexer_rule(all, ls[k - cs.len()], #[trigger] rules@[k]),
//@ loopstart 4
    assert((word, pos, weight) == ls[it4.index@ as int]);
    let ghost one = (word, pos, weight);
    proof { assert(all[cs.len() + it4.index@ as int] == (pos, weight)); counted(all, cs.len() + it4.index@ as int); }
//@ loopend 4
    proof { let last = rules@.last(); assert(comp(last)[0]@ =~= seq![VarT::T(one.0)]); assert(lexer_rule(all, one, last)); }
//@@ end

// ---- discodop: grammars without a lexer ----
trait One: Sized + Mul<Self, Output = Self> { spec fn unit() -> Self; fn one() -> (r: Self) ensures r == Self::unit(); }
//@@ include lib/hash.rs
type Rules<N, W> = Seq<(DiscoDeriv<N>, DiscoYield, W)>;
spec fn heads<N, W>(s: Rules<N, W>, n: N) -> bool decreases s.len() { s.len() > 0 && (heads(s.drop_last(), n) || lhs_of(s.last().0) == n) }
spec fn succeeds<N, W>(s: Rules<N, W>, n: N) -> bool decreases s.len() { s.len() > 0 && (succeeds(s.drop_last(), n) || rhs_of(s.last().0).contains(n)) }
// what is known after some rules: the symbols that occur, and whether only as successors
spec fn sorted_out<N, W>(m: Map<&N, bool>, s: Rules<N, W>) -> bool {
    forall|n: &N| #![trigger m.contains_key(n)] #![trigger heads(s, *n)] #![trigger succeeds(s, *n)] (m.contains_key(n) <==> heads(s, *n) || succeeds(s, *n)) && (m.contains_key(n) ==> m[n] == !heads(s, *n))
}
spec fn preterminal<N, W>(s: Rules<N, W>, n: N) -> bool { succeeds(s, n) && !heads(s, n) }
spec fn if_noted<'a, N>(e: (&'a N, bool)) -> Option<&'a N> { if e.1 { Some(e.0) } else { None } }
spec fn noted<'a, N>(v: Seq<(&'a N, bool)>) -> Seq<&'a N> { picked(v, |e: (&'a N, bool)| if_noted(e)) }
spec fn listing<'a, N>(r: Seq<&'a N>, m: Map<&'a N, bool>) -> bool { r.no_duplicates() && forall|n: &'a N| #[trigger] r.contains(n) <==> m.contains_key(n) && m[n] }
proof fn noted_of<'a, N, F: Fn((&'a N, bool)) -> Option<&'a N>>(f: F, v: Seq<(&'a N, bool)>, m: Map<&'a N, bool>, r: Seq<&'a N>)
    requires picks(f, v, r), entries_of(v, m), forall|i: int, u: Option<&'a N>| 0 <= i < v.len() && #[trigger] call_ensures(f, (v[i],), u) ==> u == if_noted(v[i])
    ensures listing(r, m)
{
    picks_is_picked(f, |e: (&'a N, bool)| if_noted(e), v, r);
    noted_are(v);
    assert forall|n: &'a N| #[trigger] r.contains(n) implies m.contains_key(n) && m[n] by { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == (n, true); assert(v[i].0 == n); }
    assert forall|n: &'a N| m.contains_key(n) && m[n] implies #[trigger] r.contains(n) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == n; assert(v[i] == (n, true)); }
}
fn vt_note<'a, N, F: Fn((&'a N, bool)) -> Option<&'a N>>(v: Vec<(&'a N, bool)>, f: F) -> (r: Vec<&'a N>)
    requires
        forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
        forall|e: (&'a N, bool), u: Option<&'a N>| #[trigger] call_ensures(f, (e,), u) ==> u == if_noted(e),
    ensures forall|m: Map<&'a N, bool>| #[trigger] entries_of(v@, m) ==> listing(r@, m)
{
    let ghost w = v@;
    let ghost g = f;
    let r = vt_filter_map(v, f);
    assert forall|m: Map<&'a N, bool>| #[trigger] entries_of(w, m) implies listing(r@, m) by { noted_of(g, w, m, r@); }
    r
}
proof fn successors_are<N>(d: DiscoDeriv<N>)
    ensures forall|n: N| #[trigger] rhs_of(d).contains(n) <==> match d { DiscoDeriv::Chain { lhs, rhs } => n == rhs, DiscoDeriv::Binary { lhs, rhs1, rhs2 } => n == rhs1 || n == rhs2 }
{
    match d { DiscoDeriv::Chain { lhs, rhs } => { assert(rhs_of(d)[0] == rhs); } DiscoDeriv::Binary { lhs, rhs1, rhs2 } => { assert(rhs_of(d)[0] == rhs1); assert(rhs_of(d)[1] == rhs2); } }
}
spec fn preterminals<N, W>(v: Seq<&N>, s: Rules<N, W>) -> bool { v.no_duplicates() && forall|n: &N| #[trigger] v.contains(n) <==> preterminal(s, *n) }
spec fn made_of<N, W: One>(l: Seq<(N, N, W)>, v: Seq<&N>) -> bool { l.len() <= v.len() && forall|k: int| #![trigger l[k]] #![trigger v[k]] 0 <= k < l.len() ==> l[k] == itself::<N, W>(*v[k]) }
proof fn only_successors<'a, N, W>(m: Map<&'a N, bool>, s: Rules<N, W>)
    requires sorted_out(m, s)
    ensures forall|v: Seq<&'a N>| #[trigger] listing(v, m) ==> preterminals(v, s)
{ }
proof fn made_of_none<N, W: One>(s: Rules<N, W>)
    ensures forall|v: Seq<&N>| #[trigger] preterminals(v, s) && v.len() == 0 ==> made_of_list(Seq::<(N, N, W)>::empty(), s)
{ assert forall|v: Seq<&N>| #[trigger] preterminals(v, s) && v.len() == 0 implies made_of_list(Seq::<(N, N, W)>::empty(), s) by { made_of_all(Seq::<(N, N, W)>::empty(), v, s); } }
spec fn made_of_list<N, W: One>(l: Seq<(N, N, W)>, s: Rules<N, W>) -> bool { selves(l) && words(l).no_duplicates() && forall|n: N| #[trigger] words(l).contains(n) <==> preterminal(s, n) }
proof fn made_of_all<N, W: One>(l: Seq<(N, N, W)>, v: Seq<&N>, s: Rules<N, W>)
    requires made_of(l, v), preterminals(v, s)
    ensures l.len() == v.len() ==> made_of_list(l, s)
{
    if l.len() < v.len() { return; }
    assert forall|n: N| #[trigger] words(l).contains(n) <==> preterminal(s, n) by {
        if words(l).contains(n) { let k = choose|k: int| 0 <= k < l.len() && words(l)[k] == n; assert(l[k] == itself::<N, W>(*v[k])); assert(v.contains(&n)); }
        if preterminal(s, n) { assert(v.contains(&n)); let k = choose|k: int| 0 <= k < v.len() && v[k] == &n; assert(l[k] == itself::<N, W>(*v[k])); assert(words(l)[k] == n); }
    }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies words(l)[i] != words(l)[j] by { assert(l[i] == itself::<N, W>(*v[i])); assert(l[j] == itself::<N, W>(*v[j])); assert(v[i] != v[j]); }
}
proof fn noted_are<'a, N>(v: Seq<(&'a N, bool)>)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
    ensures
        noted(v).no_duplicates(),
        forall|n: &N| #[trigger] noted(v).contains(n) <==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == (n, true),
    decreases v.len()
{
    if v.len() > 0 {
        let l = v.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by { assert(v[i].0 != v[j].0); }
        noted_are(l);
        let last = v.last();
        assert(v[v.len() - 1] == last);
        if last.1 {
            assert(noted(v) == noted(l).push(last.0));
            if noted(l).contains(last.0) { let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (last.0, true); assert(v[i].0 != v[v.len() - 1].0); }
            assert forall|n: &N| #[trigger] noted(v).contains(n) implies exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == (n, true) by {
                if noted(l).contains(n) { let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i] == (n, true); assert(v[i] == l[i]); } else { assert(n == last.0); assert(v[v.len() - 1] == (n, true)); }
            }
        }
        assert forall|n: &N| (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == (n, true)) implies #[trigger] noted(v).contains(n) by {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == (n, true);
            if i < l.len() {
                assert(l[i] == (n, true));
                assert(noted(l).contains(n));
                let k = choose|k: int| 0 <= k < noted(l).len() && noted(l)[k] == n;
                assert(noted(v)[k] == n);
            } else { assert(noted(v)[noted(l).len() as int] == n); }
        }
    }
}
// the entry that a default lexer has for a symbol
spec fn itself<N, W: One>(n: N) -> (N, N, W) { (n, n, W::unit()) }
spec fn selves<N, W: One>(v: Seq<(N, N, W)>) -> bool { forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == itself::<N, W>(v[k].0) }
spec fn words<N, W: One>(v: Seq<(N, N, W)>) -> Seq<N> { v.map_values(|e: (N, N, W)| e.0) }
//@@ fn src/grammars/lcfrs/from_discodop.rs DiscoDopGrammar::with_default_lexer
//@ implhead impl<N: Clone + Hash + Eq, W: One> DiscoDopGrammar<N, (), W>
//@ ret g
//@ requires obeys_key_model::<&N>(), faithful::<N>()
//@ ensures
    constituents(g) == constituents(self),
    g.lexer is Some, selves(lexer(g)), words(lexer(g)).no_duplicates(),
    forall|n: N| #[trigger] words(lexer(g)).contains(n) <==> preterminal(constituents(self), n),
//@ attr #[verifier::loop_isolation(false)]
//@ mappath HashMap::default vt_table
//@ mapmethod entry vt_entry &mut
//@ mapmethod into_iter vt_entries
//@ mapmethod filter_map vt_note
//@ local lex 0
//@ local is_only_on_rhs 1
//@ forpat 0 deriv
//@ forpat 1 p_pos
//@ foriter 0 vt_refs
//@ closure 0 (x: (&N, bool)) -> (u: Option<&N>)
    ensures u == if_noted(x)
//@ start
    let ghost cs = constituents(self);
    assert(cs.take(cs.len() as int) =~= cs);
//@ loop 0 for it
    invariant
        it.seq() == refs(cs), sorted_out(is_only_on_rhs@, cs.take(it.index@ as int)),
//@ loopstart 0
    let ghost i = it.index@ as int;
    proof { assert(cs.take(i + 1).drop_last() =~= cs.take(i)); assert(cs.take(i + 1).last() == cs[i]); assert(*deriv == cs[i].0); successors_are(*deriv); }
//@ loop 1 for it1
    invariant
        preterminals(it1.seq(), cs), made_of(lex@, it1.seq()), lex@.len() == it1.index@,
        it1.index@ == it1.seq().len() ==> made_of_list(lex@, cs),
//@ before 1
    proof { made_of_none::<N, W>(cs); assert(sorted_out(is_only_on_rhs@, cs)); only_successors(is_only_on_rhs@, cs); }
//@ loopend 1
    proof { made_of_all(lex@, it1.seq(), cs); }
//@@ end
//@@ fn src/grammars/lcfrs/from_discodop.rs DiscoDopGrammar::with_lexer
//@ implhead impl<N, W> DiscoDopGrammar<N, (), W>
//@ params l
//@ ret g
//@ ensures constituents(g) == constituents(self), g.lexer == Some(l)
//@@ end
} // verus!
