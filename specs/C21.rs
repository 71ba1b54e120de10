// C21: exported derivations.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::hash::Hash;
use std::rc::Rc;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, group_hash_axioms};

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/btree.rs
//@@ include lib/gather.rs
//@@ include lib/eq.rs
//@@ include lib/rule.rs
//@@ include lib/gorn.rs
//@@ include lib/denotes.rs
//@@ include lib/text.rs

//@@ type src/grammars/pmcfg/negra.rs TermId
//@ derives
//@@ end
// derived: clones of the parts
impl Clone for TermId {
    fn clone(&self) -> (r: Self) ensures r == *self { proof { vec_faithful::<usize>(); } TermId { address: self.address.clone(), compos_var_pos: self.compos_var_pos } }
}
proof fn termid_faithful() ensures faithful::<TermId>() {}
type Spot = (Seq<usize>, int);
spec fn spot(id: TermId) -> Spot { (id.address@, id.compos_var_pos as int) }
// Assumed: std's BTreeMap with the derived order of `TermId` as keys is a finite map by address and position.
uninterp spec fn named<A>(m: BTreeMap<TermId, A>) -> Map<Spot, A>;
#[verifier::external_body]
fn vt_names_new<A>() -> (r: BTreeMap<TermId, A>) ensures named(r) == Map::<Spot, A>::empty() { BTreeMap::new() }
#[verifier::external_body]
fn vt_names_get<'a, A>(m: &'a BTreeMap<TermId, A>, k: &TermId) -> (r: Option<&'a A>)
    ensures match r { Some(x) => named(*m).contains_key(spot(*k)) && *x == named(*m)[spot(*k)], None => !named(*m).contains_key(spot(*k)) }
{ unimplemented!() }
#[verifier::external_body]
fn vt_names_insert<A>(m: &mut BTreeMap<TermId, A>, k: TermId, v: A) -> (r: Option<A>)
    ensures named(*final(m)) == named(*old(m)).insert(spot(k), v)
{ unimplemented!() }
trait VtTable<K, V> {
    spec fn reads(&self, k: &K) -> Option<V>;
    spec fn takes(&self, k: K, v: V, post: &Self) -> bool;
    fn vt_get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self.reads(k) == Some(*x), None => self.reads(k) is None };
    fn vt_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures old(self).takes(k, v, final(self));
}
impl<A> VtTable<TermId, A> for BTreeMap<TermId, A> {
    spec fn reads(&self, k: &TermId) -> Option<A> { if named(*self).contains_key(spot(*k)) { Some(named(*self)[spot(*k)]) } else { None } }
    spec fn takes(&self, k: TermId, v: A, post: &Self) -> bool { named(*post) == named(*self).insert(spot(k), v) }
    fn vt_get(&self, k: &TermId) -> (r: Option<&A>) { vt_names_get(self, k) }
    fn vt_insert(&mut self, k: TermId, v: A) -> (r: Option<A>) { vt_names_insert(self, k, v) }
}
impl<A> VtTable<Vec<usize>, A> for GornTree<A> {
    spec fn reads(&self, k: &Vec<usize>) -> Option<A> { looked_up(at(*self), k@) }
    spec fn takes(&self, k: Vec<usize>, v: A, post: &Self) -> bool { at(*post) == at(*self).insert(k@, v) }
    fn vt_get(&self, k: &Vec<usize>) -> (r: Option<&A>) { self.get(k) }
    fn vt_insert(&mut self, k: Vec<usize>, v: A) -> (r: Option<A>) { self.insert(k, v) }
}
//@@ fn src/grammars/pmcfg/mod.rs <IntoIterator~for~Composition<T>>::into_iter as into_each
//@ ret r
//@ newret Vec<Vec<VarT<T>>>
//@ mapmethod into_iter vt_collect
//@ ensures r@ == self.composition@
//@@ end

// ---- terminals by where they are ----
type Parts<A> = Map<Seq<usize>, Composition<A>>;
// t is s, but a terminal is replaced by where it is, and names tells what it was
spec fn tagged_symbol<A>(s: VarT<A>, t: VarT<TermId>, a: Seq<usize>, p: int, names: Map<Spot, A>) -> bool {
    match s {
        VarT::Var(i, j) => t == VarT::<TermId>::Var(i, j),
        VarT::T(x) => t matches VarT::T(id) && spot(id) == (a, p) && names.contains_key((a, p)) && names[(a, p)] == x,
    }
}
spec fn tagged_all<A>(s: Seq<VarT<A>>, t: Seq<VarT<TermId>>, a: Seq<usize>, p: int, names: Map<Spot, A>) -> bool {
    s.len() == t.len() && forall|l: int| #![trigger s[l]] #![trigger t[l]] 0 <= l < s.len() ==> tagged_symbol(s[l], t[l], a, p + l, names)
}
spec fn first_in<A>(c: Seq<Vec<VarT<A>>>, k: int) -> int { joined(c.take(k)).len() as int }
spec fn tagged_comp<A>(c: Seq<Vec<VarT<A>>>, d: Seq<Vec<VarT<TermId>>>, a: Seq<usize>, names: Map<Spot, A>) -> bool {
    c.len() == d.len() && forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < c.len() ==> tagged_all(c[k]@, d[k]@, a, first_in(c, k), names)
}
spec fn tagged<A>(m: Parts<A>, n: Parts<TermId>, names: Map<Spot, A>) -> bool {
    forall|a: Seq<usize>| #![trigger m.contains_key(a)] #![trigger n.contains_key(a)] m.contains_key(a) == n.contains_key(a) && (m.contains_key(a) ==> tagged_comp(cs(m[a]), cs(n[a]), a, names))
}
// positions can be counted
spec fn countable<A>(m: Parts<A>) -> bool { forall|a: Seq<usize>| #[trigger] m.contains_key(a) ==> joined(cs(m[a])).len() < usize::MAX }
spec fn grew<A>(o: Map<Spot, A>, n: Map<Spot, A>) -> bool { forall|k: Spot| #[trigger] o.contains_key(k) ==> n.contains_key(k) && n[k] == o[k] }
proof fn still_tagged<A>(c: Seq<Vec<VarT<A>>>, d: Seq<Vec<VarT<TermId>>>, a: Seq<usize>, o: Map<Spot, A>, n: Map<Spot, A>)
    requires tagged_comp(c, d, a, o), grew(o, n)
    ensures tagged_comp(c, d, a, n)
{
    assert forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < c.len() implies tagged_all(c[k]@, d[k]@, a, first_in(c, k), n) by {
        assert(tagged_all(c[k]@, d[k]@, a, first_in(c, k), o));
        assert forall|l: int| #![trigger c[k]@[l]] #![trigger d[k]@[l]] 0 <= l < c[k]@.len() implies tagged_symbol(c[k]@[l], d[k]@[l], a, first_in(c, k) + l, n) by { assert(tagged_symbol(c[k]@[l], d[k]@[l], a, first_in(c, k) + l, o)); }
    }
}
proof fn not_before_itself(p: Seq<usize>)
    ensures !before(p, p)
    decreases p.len()
{ if p.len() > 0 { not_before_itself(p.skip(1)); } }
proof fn listed_once<V>(v: Seq<(Seq<usize>, V)>, m: Map<Seq<usize>, V>, i: int, j: int)
    requires lists(v, m), 0 <= i < j < v.len()
    ensures v[i].0 != v[j].0
{
    let w = v.map_values(|e: (Seq<usize>, V)| e.0);
    assert(before(w[i], w[j]));
    not_before_itself(w[i]);
}
// what the first k nodes of v have become
spec fn tagged_upto<A>(v: Seq<(Seq<usize>, Composition<A>)>, k: int, n: Parts<TermId>, names: Map<Spot, A>) -> bool {
    &&& forall|i: int| 0 <= i < k ==> n.contains_key((#[trigger] v[i]).0) && tagged_comp(cs(v[i].1), cs(n[v[i].0]), v[i].0, names)
    &&& forall|a: Seq<usize>| #[trigger] n.contains_key(a) ==> exists|i: int| 0 <= i < k && (#[trigger] v[i]).0 == a
}
// names has entries of the first k nodes and of the first p positions of a only
spec fn names_upto<A>(v: Seq<(Seq<usize>, Composition<A>)>, k: int, a: Seq<usize>, p: int, names: Map<Spot, A>) -> bool {
    forall|s: Spot| #[trigger] names.contains_key(s) ==> (s.0 == a && 0 <= s.1 < p) || (exists|i: int| 0 <= i < k && (#[trigger] v[i]).0 == s.0)
}
//@@ fn src/grammars/pmcfg/negra.rs identify_terminals
//@ params tree_map
//@ ret r
//@ foriter 0 GornTree::into_entries
//@ foriter 1 Composition::into_each
//@ mapmethod insert . vt_insert
//@ mappath BTreeMap::new vt_names_new
//@ mappath Composition::from Composition::from_
//@ local identified_tree_map 0
//@ local terminal_map 1
//@ local identified_compos 3
//@ local compos_var_pos 4
//@ local identified_compon 5
//@ forpat 0 address composition
//@ forpat 1 component
//@ forpat 2 variable
//@ requires countable(at(tree_map))
//@ ensures tagged(at(tree_map), at(r.0), named(r.1))
//@ start
    let ghost m = at(tree_map);
//@ loop 0 for it
    invariant
        countable(m), lists(shown(it.seq()), m),
        tagged_upto(shown(it.seq()), it.index@, at(identified_tree_map), named(terminal_map)),
        names_upto(shown(it.seq()), it.index@, Seq::empty(), 0, named(terminal_map)),
//@ loopstart 0
    let ghost k0 = it.index@;
    let ghost v = shown(it.seq());
    let ghost n0 = at(identified_tree_map);
    let ghost names0 = named(terminal_map);
    let ghost a = address@;
    let ghost c = cs(composition);
    proof {
        assert(v[k0] == (a, composition));
        assert(m.contains_key(v[k0].0));
        assert forall|i: int| 0 <= i < k0 implies (#[trigger] v[i]).0 != a by { listed_once(v, m, i, k0); }
    }
//@ loop 1 for it1
    invariant
        it1.seq() == c, address@ == a, joined(c).len() < usize::MAX, m.contains_key(a),
        forall|i: int| 0 <= i < k0 ==> (#[trigger] v[i]).0 != a,
        at(identified_tree_map) == n0,
        identified_compos@.len() == it1.index@,
        compos_var_pos == first_in(c, it1.index@),
        tagged_comp(c.take(it1.index@), identified_compos@, a, named(terminal_map)),
        names_upto(v, k0, a, compos_var_pos as int, named(terminal_map)),
        grew(names0, named(terminal_map)),
//@ loopstart 1
    let ghost k = it1.index@;
    let ghost s = component@;
    let ghost d = identified_compos@;
    let ghost names1 = named(terminal_map);
    proof {
        assert(component == c[k]);
        joined_few(c, k);
        joined_few(c, k + 1);
        assert(c.take(k + 1).drop_last() =~= c.take(k));
        assert(c.take(k + 1).last() == c[k]);
    }
//@ loop 2 for it2
    invariant
        it2.seq() == s, address@ == a, m.contains_key(a), first_in(c, k) + s.len() < usize::MAX,
        forall|i: int| 0 <= i < k0 ==> (#[trigger] v[i]).0 != a,
        at(identified_tree_map) == n0, identified_compos@ == d,
        compos_var_pos == first_in(c, k) + it2.index@,
        tagged_all(s.take(it2.index@), identified_compon@, a, first_in(c, k), named(terminal_map)),
        names_upto(v, k0, a, compos_var_pos as int, named(terminal_map)),
        grew(names0, named(terminal_map)), grew(names1, named(terminal_map)),
//@ loopstart 2
    let ghost l = it2.index@;
    let ghost names2 = named(terminal_map);
    let ghost e = identified_compon@;
    let ghost p0 = compos_var_pos as int;
    proof {
        assert(variable == s[l]);
        if names2.contains_key((a, p0)) {
            let i = choose|i: int| 0 <= i < k0 && (#[trigger] v[i]).0 == a;
            assert(v[i].0 != a);
        }
    }
//@ loopend 2
    proof {
        let names3 = named(terminal_map);
        assert(grew(names2, names3));
        let (x, y) = (s.take(l + 1), identified_compon@);
        assert forall|j: int| #![trigger x[j]] #![trigger y[j]] 0 <= j < x.len() implies tagged_symbol(x[j], y[j], a, first_in(c, k) + j, names3) by {
            if j < l { assert(s.take(l)[j] == x[j]); assert(e[j] == y[j]); assert(tagged_symbol(s.take(l)[j], e[j], a, first_in(c, k) + j, names2)); }
        }
    }
//@ loopend 1
    proof {
        let names3 = named(terminal_map);
        assert(s.take(s.len() as int) =~= s);
        still_tagged(c.take(k), d, a, names1, names3);
        let (x, y) = (c.take(k + 1), identified_compos@);
        assert forall|j: int| #![trigger x[j]] #![trigger y[j]] 0 <= j < x.len() implies tagged_all(x[j]@, y[j]@, a, first_in(x, j), names3) by {
            assert(x.take(j) =~= c.take(j));
            if j < k { assert(c.take(k)[j] == x[j]); assert(d[j] == y[j]); assert(c.take(k).take(j) =~= c.take(j)); }
        }
    }
//@ loopend 0
    proof {
        let names3 = named(terminal_map);
        let n = at(identified_tree_map);
        assert(c.take(c.len() as int) =~= c);
        assert forall|i: int| 0 <= i < k0 + 1 implies n.contains_key((#[trigger] v[i]).0) && tagged_comp(cs(v[i].1), cs(n[v[i].0]), v[i].0, names3) by {
            if i < k0 { assert(n0.contains_key(v[i].0)); still_tagged(cs(v[i].1), cs(n0[v[i].0]), v[i].0, names0, names3); }
        }
        assert forall|b: Seq<usize>| #[trigger] n.contains_key(b) implies exists|i: int| 0 <= i < k0 + 1 && (#[trigger] v[i]).0 == b by {
            if b == a { assert(v[k0].0 == b); } else { assert(n0.contains_key(b)); let i = choose|i: int| 0 <= i < k0 && (#[trigger] v[i]).0 == b; assert(v[i].0 == b); }
        }
        assert forall|q: Spot| #[trigger] names3.contains_key(q) implies exists|i: int| 0 <= i < k0 + 1 && (#[trigger] v[i]).0 == q.0 by {
            if q.0 == a { assert(v[k0].0 == q.0); } else { let i = choose|i: int| 0 <= i < k0 && (#[trigger] v[i]).0 == q.0; assert(v[i].0 == q.0); }
        }
    }
//@ after 0
    proof {
        let n = at(identified_tree_map);
        assert forall|b: Seq<usize>| #![trigger m.contains_key(b)] #![trigger n.contains_key(b)] m.contains_key(b) == n.contains_key(b) && (m.contains_key(b) ==> tagged_comp(cs(m[b]), cs(n[b]), b, named(terminal_map))) by { }
    }
//@@ end
// ---- the word, terminal by terminal ----
// y is where the terminal x comes from
spec fn found<A>(m: Parts<A>, names: Map<Spot, A>, x: VarT<A>, y: VarT<TermId>) -> bool {
    y matches VarT::T(id) && x matches VarT::T(t) && names.contains_key(spot(id)) && names[spot(id)] == t && m.contains_key(spot(id).0) && lettered(m, spot(id).0)
}
spec fn lettered<A>(m: Parts<A>, a: Seq<usize>) -> bool { exists|k: int, l: int| 0 <= k < cs(m[a]).len() && 0 <= l < cs(m[a])[k]@.len() && (#[trigger] cs(m[a])[k]@[l]) is T }
spec fn found_all<A>(m: Parts<A>, names: Map<Spot, A>, s: Seq<VarT<A>>, t: Seq<VarT<TermId>>) -> bool {
    s.len() == t.len() && forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> found(m, names, s[i], t[i])
}
spec fn found_each<A>(m: Parts<A>, names: Map<Spot, A>, s: Seq<Seq<VarT<A>>>, t: Seq<Seq<VarT<TermId>>>) -> bool {
    s.len() == t.len() && forall|k: int| #![trigger s[k]] #![trigger t[k]] 0 <= k < s.len() ==> found_all(m, names, s[k], t[k])
}
proof fn found_more<A>(m: Parts<A>, names: Map<Spot, A>, s: Seq<VarT<A>>, t: Seq<VarT<TermId>>, x: Seq<VarT<A>>, y: Seq<VarT<TermId>>)
    requires found_all(m, names, s, t), found_all(m, names, x, y)
    ensures found_all(m, names, s + x, t + y)
{
    assert forall|i: int| #![trigger (s + x)[i]] #![trigger (t + y)[i]] 0 <= i < (s + x).len() implies found(m, names, (s + x)[i], (t + y)[i]) by {
        if i < s.len() { assert(found(m, names, s[i], t[i])); } else { assert(found(m, names, x[i - s.len()], y[i - s.len()])); }
    }
}
proof fn found_strings<A>(m: Parts<A>, n: Parts<TermId>, names: Map<Spot, A>, a: Seq<usize>, k: int, l: int)
    requires tagged(m, n, names), whole(m), m.contains_key(a), 0 <= k < cs(m[a]).len(), 0 <= l <= cs(m[a])[k]@.len()
    ensures found_all(m, names, strung(m, a, cs(m[a])[k]@.take(l)), strung(n, a, cs(n[a])[k]@.take(l)))
    decreases depth(m) - a.len(), 0nat, l
{
    depth_is(m); depth_is(n);
    assert(n.contains_key(a));
    assert(tagged_comp(cs(m[a]), cs(n[a]), a, names));
    let (s, t) = (cs(m[a])[k]@, cs(n[a])[k]@);
    assert(tagged_all(s, t, a, first_in(cs(m[a]), k), names));
    if l > 0 {
        assert(s.take(l).drop_last() =~= s.take(l - 1));
        assert(t.take(l).drop_last() =~= t.take(l - 1));
        found_strings(m, n, names, a, k, l - 1);
        let (x, y) = (s[l - 1], t[l - 1]);
        assert(tagged_symbol(x, y, a, first_in(cs(m[a]), k) + (l - 1), names));
        assert(refers(m, a, cs(m[a])[k]@[l - 1]));
        match x {
            VarT::Var(i, j) => {
                let q = a.push(i);
                assert(m.contains_key(q));
                assert(n.contains_key(q));
                assert(q.len() <= depth(m) && q.len() <= depth(n));
                found_value(m, n, names, q);
                assert(symbol(m, a, x) == value(m, q)[j as int]);
                assert(symbol(n, a, y) == value(n, q)[j as int]);
                assert(value(m, q).len() == cs(m[q]).len());
            },
            VarT::T(z) => {
                assert(symbol(m, a, x) == seq![x]);
                assert(symbol(n, a, y) == seq![y]);
                assert(cs(m[a])[k]@[l - 1] is T);
                assert(lettered(m, a));
                assert(found(m, names, x, y));
            },
        }
        assert(found_all(m, names, symbol(m, a, x), symbol(n, a, y)));
        found_more(m, names, strung(m, a, s.take(l - 1)), strung(n, a, t.take(l - 1)), symbol(m, a, x), symbol(n, a, y));
    }
}
// the components of every node: the same terminals, and where they are
proof fn found_value<A>(m: Parts<A>, n: Parts<TermId>, names: Map<Spot, A>, a: Seq<usize>)
    requires tagged(m, n, names), whole(m), m.contains_key(a)
    ensures found_each(m, names, value(m, a), value(n, a)), value(m, a).len() == cs(m[a]).len()
    decreases depth(m) - a.len(), 1nat, 0int
{
    depth_is(m); depth_is(n);
    assert(n.contains_key(a));
    assert(tagged_comp(cs(m[a]), cs(n[a]), a, names));
    let (x, y) = (value(m, a), value(n, a));
    assert forall|k: int| #![trigger x[k]] #![trigger y[k]] 0 <= k < x.len() implies found_all(m, names, x[k], y[k]) by {
        let (s, t) = (cs(m[a])[k]@, cs(n[a])[k]@);
        found_strings(m, n, names, a, k, s.len() as int);
        assert(tagged_all(s, t, a, first_in(cs(m[a]), k), names));
        assert(s.take(s.len() as int) =~= s);
        assert(t.take(t.len() as int) =~= t);
    }
}
proof fn found_concat<A>(m: Parts<A>, names: Map<Spot, A>, s: Seq<Seq<VarT<A>>>, t: Seq<Seq<VarT<TermId>>>)
    requires found_each(m, names, s, t)
    ensures found_all(m, names, concat(s), concat(t))
    decreases s.len()
{
    if s.len() > 0 {
        let k = s.len() - 1;
        assert(found_all(m, names, s[k], t[k]));
        assert(found_each(m, names, s.drop_last(), t.drop_last())) by {
            assert forall|k: int| #![trigger s.drop_last()[k]] #![trigger t.drop_last()[k]] 0 <= k < s.drop_last().len() implies found_all(m, names, s.drop_last()[k], t.drop_last()[k]) by { assert(found_all(m, names, s[k], t[k])); }
        }
        found_concat(m, names, s.drop_last(), t.drop_last());
        found_more(m, names, concat(s.drop_last()), concat(t.drop_last()), s[k], t[k]);
    }
}
proof fn tags_refer<A>(m: Parts<A>, n: Parts<TermId>, names: Map<Spot, A>)
    requires tagged(m, n, names), whole(m)
    ensures whole(n)
{
    assert forall|a: Seq<usize>, k: int, l: int| n.contains_key(a) && 0 <= k < cs(n[a]).len() && 0 <= l < cs(n[a])[k]@.len() implies refers(n, a, #[trigger] cs(n[a])[k]@[l]) by {
        assert(m.contains_key(a));
        assert(tagged_all(cs(m[a])[k]@, cs(n[a])[k]@, a, first_in(cs(m[a]), k), names));
        let x = cs(m[a])[k]@[l];
        assert(tagged_symbol(x, cs(n[a])[k]@[l], a, first_in(cs(m[a]), k) + l, names));
        assert(refers(m, a, x));
        if let VarT::Var(i, j) = x { let q = a.push(i); assert(m.contains_key(q)); assert(tagged_comp(cs(m[q]), cs(n[q]), q, names)); }
    }
}
// ---- which rules can be exported ----
spec fn variables_only<A>(c: Seq<Vec<VarT<A>>>) -> bool { forall|l: int| 0 <= l < joined(c).len() ==> #[trigger] joined(c)[l] is Var }
spec fn exportable<A>(c: Seq<Vec<VarT<A>>>) -> bool { variables_only(c) || lone(c) }
// what the flags say about the symbols seen so far
spec fn so_far<A>(s: Seq<VarT<A>>, contains_nonterminal: bool, contains_terminal: bool) -> bool {
    ||| !contains_terminal && contains_nonterminal == (s.len() > 0) && forall|l: int| 0 <= l < s.len() ==> #[trigger] s[l] is Var
    ||| contains_terminal && !contains_nonterminal && s.len() == 1 && s[0] is T
}
proof fn starts_joined<A>(c: Seq<Vec<VarT<A>>>, k: int, l: int)
    requires 0 <= k < c.len(), 0 <= l <= c[k]@.len()
    ensures (joined(c.take(k)) + c[k]@.take(l)).is_prefix_of(joined(c))
    decreases c.len()
{
    let p = joined(c.take(k)) + c[k]@.take(l);
    if k == c.len() - 1 { assert(c.take(k) =~= c.drop_last()); assert(joined(c) == joined(c.drop_last()) + c[k]@); } else {
        let d = c.drop_last();
        starts_joined(d, k, l);
        assert(d.take(k) =~= c.take(k));
        assert(d[k] == c[k]);
        assert(joined(c) == joined(d) + c.last()@);
    }
    assert forall|i: int| 0 <= i < p.len() implies p[i] == joined(c)[i] by { if k < c.len() - 1 { assert(joined(c.drop_last())[i] == p[i]); } }
    assert(p =~= joined(c).subrange(0, p.len() as int));
}
//@@ fn src/grammars/pmcfg/negra.rs meets_negra_criteria
//@ params tree_map
//@ ret r
//@ foriter 0 GornTree::entries
//@ foriter 1 VtEach::vt_each
//@ foriter 2 VtEach::vt_each
//@ local contains_nonterminal 1
//@ local contains_terminal 2
//@ forpat 0 _address rule
//@ forpat 1 component
//@ forpat 2 variable
//@ ensures r == (forall|a: Seq<usize>| #[trigger] at(*tree_map).contains_key(a) ==> exportable(comp(at(*tree_map)[a])))
//@ start
    let ghost m = at(*tree_map);
//@ loop 0 for it
    invariant
        m == at(*tree_map), lists(shown_refs(it.seq()), m),
        forall|i: int| 0 <= i < it.index@ ==> exportable(comp((#[trigger] shown_refs(it.seq())[i]).1)),
//@ loopstart 0
    let ghost k0 = it.index@;
    let ghost a = _address@;
    let ghost c = comp(*rule);
    proof { assert(shown_refs(it.seq())[k0] == (a, *rule)); assert(m.contains_key(shown_refs(it.seq())[k0].0)); assert(m.contains_key(a)); }
//@ loop 1 for it1
    invariant
        m == at(*tree_map), m.contains_key(a), c == comp(m[a]), it1.seq() == refs(c),
        so_far(joined(c.take(it1.index@)), contains_nonterminal, contains_terminal),
//@ loopstart 1
    let ghost k = it1.index@;
    proof { assert(component == c[k]); assert(c[k]@.take(0) =~= Seq::empty()); assert(joined(c.take(k)) + Seq::empty() =~= joined(c.take(k))); }
//@ loop 2 for it2
    invariant
        m == at(*tree_map), m.contains_key(a), c == comp(m[a]), 0 <= k < c.len(), it2.seq() == refs(c[k]@),
        so_far(joined(c.take(k)) + c[k]@.take(it2.index@), contains_nonterminal, contains_terminal),
//@ loopstart 2
    let ghost l = it2.index@;
    let ghost j0 = joined(c.take(k)) + c[k]@.take(l);
    proof {
        assert(*variable == c[k]@[l]);
        in_joined(c, k, l);
        assert(joined(c.take(k)) + c[k]@.take(l + 1) =~= j0.push(c[k]@[l]));
        starts_joined(c, k, l + 1);
        let (j1, w) = (j0.push(c[k]@[l]), joined(c));
        assert forall|i: int| 0 <= i < j1.len() implies w[i] == #[trigger] j1[i] by { }
        if j0.len() > 0 && (j0[0] is T || c[k]@[l] is T) {
            assert(w[0] == j1[0]);
            assert(w[j0.len() as int] == j1[j0.len() as int]);
            assert(!exportable(c));
        }
    }
//@ loopend 1
    proof { assert(c[k]@.take(c[k]@.len() as int) =~= c[k]@); assert(c.take(k + 1).drop_last() =~= c.take(k)); assert(c.take(k + 1).last() == c[k]); }
//@ loopend 0
    proof { assert(c.take(c.len() as int) =~= c); }
//@ after 0
    proof {
        assert forall|a: Seq<usize>| #[trigger] m.contains_key(a) implies exportable(comp(m[a])) by { }
    }
//@@ end
// ---- numbers ----
// addresses of the nodes below the root that wait for their line
spec fn waiting(q: Seq<(Vec<usize>, usize)>) -> Seq<Seq<usize>>
    decreases q.len()
{ if q.len() == 0 { Seq::empty() } else if q.last().0@.len() == 0 { waiting(q.drop_last()) } else { waiting(q.drop_last()).push(q.last().0@) } }
proof fn waiting_first(q: Seq<(Vec<usize>, usize)>)
    requires q.len() > 0
    ensures waiting(q) == (if q[0].0@.len() == 0 { waiting(q.skip(1)) } else { seq![q[0].0@] + waiting(q.skip(1)) })
    decreases q.len()
{
    if q.len() == 1 {
        assert(q.drop_last() =~= Seq::empty());
        assert(q.skip(1) =~= Seq::empty());
        assert(waiting(q) =~= if q[0].0@.len() == 0 { waiting(q.skip(1)) } else { seq![q[0].0@] + waiting(q.skip(1)) });
    } else {
        waiting_first(q.drop_last());
        assert(q.skip(1).drop_last() =~= q.drop_last().skip(1));
        assert(q.skip(1).last() == q.last());
        assert(waiting(q) =~= if q[0].0@.len() == 0 { waiting(q.skip(1)) } else { seq![q[0].0@] + waiting(q.skip(1)) });
    }
}
//@@ fn src/grammars/pmcfg/negra.rs get_rule_number
//@ params address rule_queue rule_number_map rule_counter
//@ ret r
//@ requires *old(rule_counter) < usize::MAX
//@ ensures
    at(*old(rule_number_map)).contains_key(address@) ==> {
        &&& r == at(*old(rule_number_map))[address@]
        &&& at(*final(rule_number_map)) == at(*old(rule_number_map))
        &&& final(rule_queue)@ == old(rule_queue)@
        &&& *final(rule_counter) == *old(rule_counter)
    },
    !at(*old(rule_number_map)).contains_key(address@) ==> {
        &&& at(*final(rule_number_map)) == at(*old(rule_number_map)).insert(address@, r)
        &&& final(rule_queue)@.len() == old(rule_queue)@.len() + 1
        &&& final(rule_queue)@.drop_last() == old(rule_queue)@
        &&& final(rule_queue)@.last().0@ == address@ && final(rule_queue)@.last().1 == r
        &&& r == (if address@.len() == 0 { 0 } else { *old(rule_counter) })
        &&& *final(rule_counter) == *old(rule_counter) + (if address@.len() == 0 { 0int } else { 1 })
    },
//@ tail
    proof { if !at(*old(rule_number_map)).contains_key(address@) { assert(final(rule_queue)@.drop_last() =~= old(rule_queue)@); } }
//@@ end
//@@ type src/grammars/pmcfg/negra.rs DumpMode
//@ derives
//@@ end
type Tree<H, T, W> = Map<Seq<usize>, PMCFGRule<H, T, W>>;
type Line = (String, String, usize);
// nodes have parents; the root's rule has no terminals; numbers and positions can be counted
spec fn proper<H, T, W>(m: Tree<H, T, W>) -> bool {
    &&& m.contains_key(Seq::empty())
    &&& whole(terms(m))
    &&& !lettered(terms(m), Seq::empty())
    &&& forall|p: Seq<usize>| #[trigger] m.contains_key(p) && p.len() > 0 ==> m.contains_key(p.drop_last())
    &&& countable(terms(m))
    &&& 500 + m.dom().len() < usize::MAX
}
// the terminals of the word the derivation denotes
spec fn word<H, T, W>(m: Tree<H, T, W>) -> Seq<VarT<T>> { concat(value(terms(m), Seq::empty())) }
// what is written for the i-th of them
spec fn text_of<H, T, W>(m: Tree<H, T, W>, mode: DumpMode<T>, i: int) -> Seq<char> {
    match mode { DumpMode::FromPos(v) => printed(&v@[i]), DumpMode::Default => match word(m)[i] { VarT::T(t) => printed(&t), VarT::Var(_, _) => Seq::empty() } }
}
spec fn unread<T>(mode: DumpMode<T>, now: DumpMode<T>, k: int) -> bool {
    match mode { DumpMode::FromPos(v) => now matches DumpMode::FromPos(u) && 0 <= k <= v@.len() && u@ == v@.skip(k), DumpMode::Default => now is Default }
}
spec fn above(p: Seq<usize>, q: Seq<usize>) -> bool { p.len() < q.len() && p == q.take(p.len() as int) }
spec fn origin(w: Seq<VarT<TermId>>, i: int) -> Seq<usize> { (w[i]->T_0).address@ }
type Numbers = Map<Seq<usize>, usize>;
// the root has number 0, the other nodes of order have the numbers from 500 on
spec fn consecutive(order: Seq<Seq<usize>>, num: Numbers) -> bool {
    &&& forall|k: int| 0 <= k < order.len() ==> (#[trigger] order[k]).len() > 0 && num.contains_key(order[k]) && num[order[k]] == 500 + k
    &&& forall|p: Seq<usize>| #[trigger] num.contains_key(p) ==> if p.len() == 0 { num[p] == 0 } else { order.contains(p) }
}
spec fn below_ids(w: Seq<VarT<TermId>>, done: int, p: Seq<usize>) -> bool { exists|i: int| 0 <= i < done && above(p, #[trigger] origin(w, i)) }
// what holds of the numbers given so far
spec fn numbering<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>, done: int, num: Numbers, order: Seq<Seq<usize>>, counter: int) -> bool {
    &&& counter == 500 + order.len()
    &&& consecutive(order, num)
    &&& order.len() <= num.dom().len()
    &&& num.dom().subset_of(m.dom())
    &&& forall|p: Seq<usize>| #[trigger] num.contains_key(p) ==> below_ids(w, done, p)
}
spec fn queued(q: Seq<(Vec<usize>, usize)>, num: Numbers, rest: Seq<Seq<usize>>) -> bool {
    waiting(q) == rest && forall|i: int| 0 <= i < q.len() ==> num.contains_key((#[trigger] q[i]).0@) && num[q[i].0@] == q[i].1
}
spec fn keeps(o: Numbers, n: Numbers) -> bool { forall|p: Seq<usize>| #[trigger] o.contains_key(p) ==> n.contains_key(p) && n[p] == o[p] }
// what asking for the number of p does
spec fn asks(p: Seq<usize>, r: usize, num0: Numbers, q0: Seq<(Vec<usize>, usize)>, counter0: int, num1: Numbers, q1: Seq<(Vec<usize>, usize)>, counter1: int) -> bool {
    if num0.contains_key(p) { r == num0[p] && num1 == num0 && q1 == q0 && counter1 == counter0 } else {
        &&& num1 == num0.insert(p, r)
        &&& q1.len() == q0.len() + 1 && q1.drop_last() == q0 && q1.last().0@ == p && q1.last().1 == r
        &&& r == (if p.len() == 0 { 0 } else { counter0 })
        &&& counter1 == counter0 + (if p.len() == 0 { 0int } else { 1 })
    }
}
spec fn ordered(order: Seq<Seq<usize>>, num: Numbers, p: Seq<usize>) -> Seq<Seq<usize>> { if num.contains_key(p) || p.len() == 0 { order } else { order.push(p) } }
proof fn asked<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>, done: int, done1: int, order: Seq<Seq<usize>>, d: int, p: Seq<usize>, r: usize, num0: Numbers, q0: Seq<(Vec<usize>, usize)>, counter0: int, num1: Numbers, q1: Seq<(Vec<usize>, usize)>, counter1: int)
    requires
        numbering(m, w, done, num0, order, counter0), 0 <= d <= order.len(), queued(q0, num0, order.skip(d)), asks(p, r, num0, q0, counter0, num1, q1, counter1),
        m.contains_key(p), done <= done1, below_ids(w, done1, p),
    ensures
        ({
            let order1 = ordered(order, num0, p);
            &&& numbering(m, w, done1, num1, order1, counter1) && queued(q1, num1, order1.skip(d)) && keeps(num0, num1) && num1.contains_key(p) && num1[p] == r
            &&& order.len() <= order1.len() && forall|k: int| 0 <= k < order.len() ==> order[k] == #[trigger] order1[k]
            &&& num1.dom().len() * 2 - q1.len() >= num0.dom().len() * 2 - q0.len()
            &&& counter1 <= 500 + num1.dom().len() <= 500 + m.dom().len()
        }),
{
    let order1 = ordered(order, num0, p);
    assert forall|x: Seq<usize>| #[trigger] num0.contains_key(x) implies below_ids(w, done1, x) by { let i = choose|i: int| 0 <= i < done && above(x, #[trigger] origin(w, i)); assert(above(x, origin(w, i))); }
    if !num0.contains_key(p) {
        assert(num1.dom() =~= num0.dom().insert(p));
        assert forall|i: int| 0 <= i < q1.len() implies num1.contains_key((#[trigger] q1[i]).0@) && num1[q1[i].0@] == q1[i].1 by { if i < q0.len() { assert(q1.drop_last()[i] == q0[i]); assert(num0.contains_key(q0[i].0@)); } }
        if p.len() > 0 {
            assert(order1.skip(d) =~= order.skip(d).push(p));
            assert forall|k: int| 0 <= k < order1.len() implies (#[trigger] order1[k]).len() > 0 && num1.contains_key(order1[k]) && num1[order1[k]] == 500 + k by { if k < order.len() { assert(order1[k] == order[k]); assert(num0.contains_key(order[k])); } }
            assert forall|x: Seq<usize>| #[trigger] num1.contains_key(x) && x.len() > 0 implies order1.contains(x) by {
                if x == p { assert(order1[order.len() as int] == p); } else { assert(num0.contains_key(x)); let k = choose|k: int| 0 <= k < order.len() && order[k] == x; assert(order1[k] == x); }
            }
        }
    }
    vstd::set_lib::lemma_len_subset(num1.dom(), m.dom());
}
// the line of the i-th terminal, the line of an inner node
spec fn terminal_line<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>, mode: DumpMode<T>, num: Numbers, i: int, line: Line) -> bool {
    let a = origin(w, i);
    &&& a.len() > 0 && m.contains_key(a) && num.contains_key(a.drop_last())
    &&& line.0@ == text_of(m, mode, i)
    &&& line.1@ == printed(&m[a].head)
    &&& line.2 == num[a.drop_last()]
}
spec fn inner_line<H, T, W>(m: Tree<H, T, W>, num: Numbers, p: Seq<usize>, line: Line) -> bool {
    &&& p.len() > 0 && m.contains_key(p) && num.contains_key(p) && num.contains_key(p.drop_last())
    &&& line.0@ == "#"@ + printed(&num[p])
    &&& line.1@ == printed(&m[p].head)
    &&& line.2 == num[p.drop_last()]
}
spec fn terminal_lines<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>, mode: DumpMode<T>, num: Numbers, n: int, v: Seq<Line>) -> bool { 0 <= n <= v.len() && forall|i: int| 0 <= i < n ==> terminal_line(m, w, mode, num, i, #[trigger] v[i]) }
spec fn inner_lines<H, T, W>(m: Tree<H, T, W>, num: Numbers, order: Seq<Seq<usize>>, from: int, n: int, v: Seq<Line>) -> bool { from + n <= v.len() && n <= order.len() && forall|i: int| from <= i < from + n ==> inner_line(m, num, order[i - from], #[trigger] v[i]) }
// where the terminals of the word are
spec fn located<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>) -> bool {
    exists|n: Parts<TermId>, names: Map<Spot, T>| #[trigger] tagged(terms(m), n, names) && w == concat(value(n, Seq::empty()))
}
// a line for each terminal of the word, in order, then one for each node above them but the root, numbered from 500 on
spec fn exports<H, T, W>(m: Tree<H, T, W>, mode: DumpMode<T>, w: Seq<VarT<TermId>>, order: Seq<Seq<usize>>, num: Numbers, v: Seq<Line>) -> bool {
    &&& located(m, w) && w.len() == word(m).len()
    &&& consecutive(order, num)
    &&& forall|p: Seq<usize>| #[trigger] num.contains_key(p) ==> below_ids(w, w.len() as int, p)
    &&& v.len() == w.len() + order.len()
    &&& terminal_lines(m, w, mode, num, w.len() as int, v)
    &&& inner_lines(m, num, order, w.len() as int, order.len() as int, v)
}
spec fn exported<H, T, W>(m: Tree<H, T, W>, mode: DumpMode<T>, v: Seq<Line>) -> bool { exists|w: Seq<VarT<TermId>>, order: Seq<Seq<usize>>, num: Numbers| exports(m, mode, w, order, num, v) }
spec fn enough<H, T, W>(m: Tree<H, T, W>, mode: DumpMode<T>) -> bool { mode matches DumpMode::FromPos(v) ==> v@.len() >= word(m).len() }
// taking the first of the queue
proof fn taken(q: Seq<(Vec<usize>, usize)>, num: Numbers, order: Seq<Seq<usize>>, d: int)
    requires q.len() > 0, queued(q, num, order.skip(d)), 0 <= d <= order.len()
    ensures
        num.contains_key(q[0].0@), num[q[0].0@] == q[0].1,
        q[0].0@.len() == 0 ==> queued(q.skip(1), num, order.skip(d)),
        q[0].0@.len() > 0 ==> d < order.len() && order[d] == q[0].0@ && queued(q.skip(1), num, order.skip(d + 1)),
{
    waiting_first(q);
    let r = q.skip(1);
    assert forall|i: int| 0 <= i < r.len() implies num.contains_key((#[trigger] r[i]).0@) && num[r[i].0@] == r[i].1 by { assert(r[i] == q[i + 1]); }
    if q[0].0@.len() > 0 {
        let v = seq![q[0].0@] + waiting(r);
        assert(v == order.skip(d));
        assert(v[0] == order[d]);
        assert(waiting(r) =~= v.skip(1));
        assert(v.skip(1) =~= order.skip(d + 1));
    }
}
proof fn parent_below(w: Seq<VarT<TermId>>, a: Seq<usize>)
    requires below_ids(w, w.len() as int, a), a.len() > 0
    ensures below_ids(w, w.len() as int, a.drop_last())
{
    let i = choose|i: int| 0 <= i < w.len() && above(a, #[trigger] origin(w, i));
    assert(a.drop_last() =~= origin(w, i).take(a.len() - 1));
    assert(above(a.drop_last(), origin(w, i)));
}
proof fn line_added<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>, mode: DumpMode<T>, num0: Numbers, num1: Numbers, order0: Seq<Seq<usize>>, order1: Seq<Seq<usize>>, d: int, v: Seq<Line>, line: Line)
    requires
        terminal_lines(m, w, mode, num0, w.len() as int, v), inner_lines(m, num0, order0, w.len() as int, d, v), v.len() == w.len() + d, 0 <= d < order0.len(),
        keeps(num0, num1), order0.len() <= order1.len(), forall|k: int| 0 <= k < order0.len() ==> order0[k] == #[trigger] order1[k],
        inner_line(m, num1, order0[d], line),
    ensures terminal_lines(m, w, mode, num1, w.len() as int, v.push(line)), inner_lines(m, num1, order1, w.len() as int, d + 1, v.push(line))
{
    let u = v.push(line);
    let n = w.len() as int;
    assert forall|i: int| 0 <= i < n implies terminal_line(m, w, mode, num1, i, #[trigger] u[i]) by { assert(terminal_line(m, w, mode, num0, i, v[i])); }
    assert forall|i: int| n <= i < n + d + 1 implies inner_line(m, num1, order1[i - n], #[trigger] u[i]) by { if i < n + d { assert(inner_line(m, num0, order0[i - n], v[i])); } else { assert(u[i] == line); assert(order0[d] == order1[d]); } }
}
spec fn state<H, T, W>(m: Tree<H, T, W>, mode0: DumpMode<T>, mode: DumpMode<T>, w: Seq<VarT<TermId>>, i: int, order: Seq<Seq<usize>>, d: int, num: Numbers, q: Seq<(Vec<usize>, usize)>, counter: int, v: Seq<Line>) -> bool {
    &&& unread(mode0, mode, i) && v.len() == i && terminal_lines(m, w, mode0, num, i, v)
    &&& numbering(m, w, i, num, order, counter) && queued(q, num, order.skip(d))
}
proof fn prefix_concat<A>(s: Seq<Seq<A>>, k: int)
    requires 0 <= k < s.len()
    ensures concat(s.take(k + 1)) == concat(s.take(k)) + s[k]
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
proof fn in_concat<A>(s: Seq<Seq<A>>, k: int, l: int)
    requires 0 <= k < s.len(), 0 <= l < s[k].len()
    ensures concat(s.take(k)).len() + l < concat(s).len(), concat(s)[concat(s.take(k)).len() + l] == s[k][l]
    decreases s.len()
{
    if k == s.len() - 1 { assert(s.take(k) =~= s.drop_last()); } else { let d = s.drop_last(); in_concat(d, k, l); assert(d.take(k) =~= s.take(k)); }
}
proof fn keeps_lines<H, T, W>(m: Tree<H, T, W>, w: Seq<VarT<TermId>>, mode: DumpMode<T>, num0: Numbers, num1: Numbers, n: int, v: Seq<Line>)
    requires terminal_lines(m, w, mode, num0, n, v), keeps(num0, num1)
    ensures terminal_lines(m, w, mode, num1, n, v)
{ assert forall|i: int| 0 <= i < n implies terminal_line(m, w, mode, num1, i, #[trigger] v[i]) by { assert(terminal_line(m, w, mode, num0, i, v[i])); } }
//@@ fn src/grammars/pmcfg/negra.rs to_negra_vector
//@ params tree_map mode
//@ ret r
//@ formats
//@ mapmethod to_string . vt_print
//@ dropbound ToString
//@ addwhere H: VtPrint, T: VtPrint
//@ mapmethod get . vt_get
//@ foriter 0 Composition::into_each
//@ local negra_vector 3
//@ local rule_queue 4
//@ local rule_number_map 5
//@ local rule_counter 6
//@ forpat 0 component
//@ forpat 1 variable
//@ requires
    faithful::<H>(), faithful::<T>(), proper(at(*tree_map)), enough(at(*tree_map), mode),
//@ ensures exported(at(*tree_map), mode, r@)
//@ start
    let ghost m = at(*tree_map);
    let ghost mode0 = mode;
    let ghost mut w: Seq<VarT<TermId>> = Seq::empty();
    let ghost mut order: Seq<Seq<usize>> = Seq::empty();
    let ghost mut names: Map<Spot, T> = Map::empty();
    let ghost mut n: Parts<TermId> = Map::empty();
    proof { termid_faithful(); }
//@ afterlet 1
    proof { n = at(identified_tree_map); names = named(terminal_map); tags_refer(terms(m), n, names); assert(n.contains_key(Seq::empty()) == terms(m).contains_key(Seq::empty())); }
//@ afterlet 2
    let ghost value0 = value(n, Seq::empty());
    proof { w = concat(value0); found_value(terms(m), n, names, Seq::empty()); found_concat(terms(m), names, value(terms(m), Seq::empty()), value0); }
//@ afterlet 6
    proof { assert(order.skip(0) =~= Seq::empty()); assert(concat(value0.take(0)) =~= Seq::empty()); if let DumpMode::FromPos(v) = mode0 { assert(v@.skip(0) =~= v@); } }
//@ loop 0 for it
    invariant
        faithful::<H>(), faithful::<T>(), proper(m), enough(m, mode0), at(nonterminal_map) == heads(m),
        named(terminal_map) == names, found_all(terms(m), names, word(m), w), value0 == views(it.seq()), w == concat(value0),
        state(m, mode0, mode, w, concat(value0.take(it.index@)).len() as int, order, 0, at(rule_number_map), rule_queue@, rule_counter as int, negra_vector@),
//@ loopstart 0
    let ghost k = it.index@;
    let ghost s = component@;
    proof { prefix_concat(value0, k); assert(s.take(0) =~= Seq::empty()); }
//@ loop 1 for it1
    invariant
        faithful::<H>(), faithful::<T>(), proper(m), enough(m, mode0), at(nonterminal_map) == heads(m), 0 <= k < value0.len(),
        named(terminal_map) == names, found_all(terms(m), names, word(m), w), s == value0[k], it1.seq() == s, w == concat(value0),
        state(m, mode0, mode, w, concat(value0.take(k)).len() + it1.index@, order, 0, at(rule_number_map), rule_queue@, rule_counter as int, negra_vector@),
//@ loopstart 1
    let ghost i = concat(value0.take(k)).len() + it1.index@;
    let ghost (num0, q0, counter0) = (at(rule_number_map), rule_queue@, rule_counter as int);
    let ghost lines0 = negra_vector@;
    let ghost order0 = order;
    proof {
        in_concat(value0, k, it1.index@);
        assert(w[i] == variable);
        assert(found(terms(m), names, word(m)[i], w[i]));
        assert(origin(w, i).len() == 0 ==> origin(w, i) =~= Seq::empty());
        vstd::set_lib::lemma_len_subset(num0.dom(), m.dom());
    }
//@ afterlet 11
    proof {
        let a = origin(w, i);
        assert(terms(m).contains_key(a));
        assert(above(a.drop_last(), a));
        assert(below_ids(w, i + 1, a.drop_last()));
        asked(m, w, i, i + 1, order0, 0, a.drop_last(), parent_number, num0, q0, counter0, at(rule_number_map), rule_queue@, rule_counter as int);
        order = ordered(order0, num0, a.drop_last());
    }
//@ loopend 1
    proof {
        keeps_lines(m, w, mode0, num0, at(rule_number_map), i, lines0);
        if let DumpMode::FromPos(v) = mode0 { assert(v@.skip(i).remove(0) =~= v@.skip(i + 1)); }
    }
//@ loopend 0
    proof { prefix_concat(value0, k); }
//@ after 0
    let ghost mut d: int = 0;
    proof { assert(value0.take(value0.len() as int) =~= value0); }
//@ loop 2 loop
    invariant
        faithful::<H>(), faithful::<T>(), proper(m), at(nonterminal_map) == heads(m),
        located(m, w), w.len() == word(m).len(),
        0 <= d <= order.len(), inner_lines(m, at(rule_number_map), order, w.len() as int, d, negra_vector@), negra_vector@.len() == w.len() + d,
        terminal_lines(m, w, mode0, at(rule_number_map), w.len() as int, negra_vector@),
        numbering(m, w, w.len() as int, at(rule_number_map), order, rule_counter as int), queued(rule_queue@, at(rule_number_map), order.skip(d)),
    ensures d == order.len()
    decreases 2 * (m.dom().len() - at(rule_number_map).dom().len()) + rule_queue@.len()
//@ loopstart 2
    let ghost (num0, q0, counter0) = (at(rule_number_map), rule_queue@, rule_counter as int);
    let ghost lines0 = negra_vector@;
    let ghost order0 = order;
    let ghost d0 = d;
    proof {
        vstd::set_lib::lemma_len_subset(num0.dom(), m.dom());
        if q0.len() > 0 { taken(q0, num0, order0, d0); } else { assert(order0.skip(d0).len() == 0); }
    }
//@ afterlet 12
    let ghost a = address@;
    proof { if a.len() > 0 { d = d0 + 1; } assert(rule_queue@ =~= q0.skip(1)); assert(parent_address@ =~= a); assert(num0.contains_key(a)); assert(m.dom().contains(a)); }
//@ afterlet 13
    let ghost num1 = at(rule_number_map);
    proof {
        parent_below(w, a);
        asked(m, w, w.len() as int, w.len() as int, order0, d0 + 1, a.drop_last(), parent_number, num0, q0.skip(1), counter0, num1, rule_queue@, rule_counter as int);
        order = ordered(order0, num0, a.drop_last());
    }
//@ afterlet 14
    proof {
        assert forall|line: Line| inner_line(m, num1, a, line) implies #[trigger] terminal_lines(m, w, mode0, num1, w.len() as int, lines0.push(line)) && inner_lines(m, num1, order, w.len() as int, d0 + 1, lines0.push(line)) by {
            line_added(m, w, mode0, num0, num1, order0, order, d0, lines0, line);
        }
    }
//@ after 2
    proof { assert(exports(m, mode0, w, order, at(rule_number_map), negra_vector@)); }
//@@ end
// ---- the text ----
spec fn line_text(l: Line) -> Seq<char> { l.0@ + "\t"@ + l.1@ + "\t--\t--\t"@ + printed(&l.2) + "\n"@ }
spec fn lines_text(v: Seq<Line>) -> Seq<char>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { lines_text(v.drop_last()) + line_text(v.last()) } }
spec fn export_text(id: usize, v: Seq<Line>) -> Seq<char> { "#BOS "@ + printed(&id) + "\n"@ + lines_text(v) + ("#EOS "@ + printed(&id)) }
// an export that panics hands nothing out
#[verifier::external_body]
fn vt_stop() ensures false { panic!() }
//@@ fn src/grammars/pmcfg/negra.rs to_negra
//@ params tree_map sentence_id mode
//@ ret r
//@ formats
//@ dropbound ToString
//@ addwhere H: VtPrint, T: VtPrint
//@ mapmethod push_str vt_push_str &mut
//@ local negra_vector 0
//@ local output 1
//@ forpat 0 word tag parent
//@ requires
    faithful::<H>(), faithful::<T>(), proper(at(*tree_map)), enough(at(*tree_map), mode),
//@ mappath vt_panic vt_stop
//@ ensures
    forall|a: Seq<usize>| #[trigger] at(*tree_map).contains_key(a) ==> exportable(comp(at(*tree_map)[a])),
    exists|v: Seq<Line>| exported(at(*tree_map), mode, v) && r@ == #[trigger] export_text(sentence_id, v)
//@ start
    broadcast use printed_string;
    let ghost m = at(*tree_map);
//@ afterlet 1
    let ghost v = negra_vector@;
    let ghost head = output@;
    proof { assert(v.take(0) =~= Seq::empty()); assert(head =~= "#BOS "@ + printed(&sentence_id) + "\n"@); assert(head + lines_text(v.take(0)) =~= head); }
//@ loop 0 for it
    invariant it.seq() == v, output@ == head + lines_text(v.take(it.index@))
//@ loopstart 0
    broadcast use printed_string;
    let ghost o = output@;
    let ghost l = (word, tag, parent);
    proof { assert(l == v[it.index@]); assert(v.take(it.index@ + 1).drop_last() =~= v.take(it.index@)); assert(v.take(it.index@ + 1).last() == l); }
//@ loopend 0
    proof {
        assert(output@ =~= o + line_text(l));
        assert(o + line_text(l) =~= head + (lines_text(v.take(it.index@)) + line_text(l)));
    }
//@ after 0
    proof { assert(v.take(v.len() as int) =~= v); }
//@ tail
    proof { assert(exists|v: Seq<Line>| #[trigger] exported(m, mode, v) && result__@ == export_text(sentence_id, v)); }
//@@ end
// the export of a sentence without parse: a line for each word below the only node
spec fn word_text<T>(sentence: Seq<T>, mode: DumpMode<T>, i: int) -> Seq<char> {
    match mode {
        DumpMode::FromPos(v) => printed(&v@[i]) + "\t"@ + printed(&sentence[i]) + "\t--\t--\t500\n"@,
        DumpMode::Default => printed(&sentence[i]) + "\t--\t--\t--\t500\n"@,
    }
}
spec fn words_text<T>(sentence: Seq<T>, mode: DumpMode<T>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { words_text(sentence, mode, n - 1) + word_text(sentence, mode, n - 1) } }
//@@ fn src/grammars/pmcfg/negra.rs noparse
//@ params sentence sentence_id mode
//@ ret r
//@ formats
//@ dropbound ToString
//@ addwhere T: VtPrint
//@ mapmethod to_string . vt_print
//@ mapmethod push_str vt_push_str &mut
//@ mapmethod iter vt_iter
//@ mapmethod zip vt_zip
//@ local output 0
//@ forpat 0 pos word
//@ forpat 1 word1
//@ requires mode matches DumpMode::FromPos(v) ==> v@.len() >= sentence@.len()
//@ ensures r@ == "#BOS "@ + printed(&sentence_id) + "\n"@ + words_text(sentence@, mode, sentence@.len() as int) + ("#500\tNOPARSE\t--\t--\t0\n#EOS "@ + printed(&sentence_id))
//@ start
    broadcast use printed_string;
//@ afterlet 0
    let ghost head = output@;
    proof { assert(head =~= "#BOS "@ + printed(&sentence_id) + "\n"@); assert(head + words_text(sentence@, mode, 0) =~= head); }
//@ loop 0 for it
    invariant
        mode == DumpMode::FromPos(poss), poss@.len() >= sentence@.len(), it.seq().len() == sentence@.len(),
        forall|i: int| 0 <= i < sentence@.len() ==> *(#[trigger] it.seq()[i]).0 == sentence@[i] && *it.seq()[i].1 == poss@[i],
        output@ == head + words_text(sentence@, mode, it.index@)
//@ loopstart 0
    broadcast use printed_string;
    let ghost o = output@;
    let ghost i = it.index@;
    proof { assert(*pos == sentence@[i] && *word == poss@[i]); }
//@ loopend 0
    proof {
        assert(output@ =~= o + word_text(sentence@, mode, i));
        assert(o + word_text(sentence@, mode, i) =~= head + (words_text(sentence@, mode, i) + word_text(sentence@, mode, i)));
    }
//@ loop 1 for it1
    invariant
        mode is Default, it1.seq().len() == sentence@.len(),
        forall|i: int| 0 <= i < sentence@.len() ==> *(#[trigger] it1.seq()[i]) == sentence@[i],
        output@ == head + words_text(sentence@, mode, it1.index@)
//@ loopstart 1
    broadcast use printed_string;
    let ghost o = output@;
    let ghost i = it1.index@;
    proof { assert(*word1 == sentence@[i]); }
//@ loopend 1
    proof {
        assert(output@ =~= o + word_text(sentence@, mode, i));
        assert(o + word_text(sentence@, mode, i) =~= head + (words_text(sentence@, mode, i) + word_text(sentence@, mode, i)));
    }
//@@ end
} // verus!
