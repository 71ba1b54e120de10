// C09: what derivations denote.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::Hash;
use std::rc::Rc;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, group_hash_axioms};

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/btree.rs
//@@ include lib/gather.rs
//@@ include lib/eq.rs
//@@ include lib/rule.rs
//@@ include lib/gorn.rs

//@@ include lib/denotes.rs
// ---- separating terminals ----
// the terminals among symbols, each once, in order of first occurrence
spec fn letters<T>(s: Seq<VarT<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let f = letters(s.drop_last());
        match s.last() { VarT::T(t) => if f.contains(t) { f } else { f.push(t) }, VarT::Var(_, _) => f }
    }
}
// t is s with terminals replaced by the children that stand for them, tabled from base on
spec fn moved<T>(s: VarT<T>, t: VarT<T>, base: int, ts: Seq<T>) -> bool {
    match s {
        VarT::Var(i, j) => t == s,
        VarT::T(x) => t matches VarT::Var(k, l) && l == 0 && base <= k < base + ts.len() && ts[k - base] == x,
    }
}
spec fn moved_all<T>(s: Seq<VarT<T>>, t: Seq<VarT<T>>, base: int, ts: Seq<T>) -> bool { s.len() == t.len() && forall|l: int| #![trigger s[l]] #![trigger t[l]] 0 <= l < s.len() ==> moved(s[l], t[l], base, ts) }
spec fn moved_comp<T>(c: Seq<Vec<VarT<T>>>, d: Seq<Vec<VarT<T>>>, base: int, ts: Seq<T>) -> bool { c.len() == d.len() && forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < c.len() ==> moved_all(c[k]@, d[k]@, base, ts) }
type Rules<T, W> = Map<Seq<usize>, PMCFGRule<T, T, W>>;
spec fn kids<T, W>(m: Rules<T, W>, a: Seq<usize>) -> int { m[a].tail@.len() as int }
spec fn own<T, W>(m: Rules<T, W>, a: Seq<usize>) -> Seq<T> { if lone(comp(m[a])) { Seq::empty() } else { letters(joined(comp(m[a]))) } }
// the rule of a terminal
spec fn leaf<T, W>(r: PMCFGRule<T, T, W>, h: T, t: T, w: W) -> bool { r.head == h && r.tail@.len() == 0 && r.weight == w && comp(r).len() == 1 && comp(r)[0]@ == seq![VarT::T(t)] }
// no node has head h
spec fn unheaded<T, W>(m: Rules<T, W>, h: T) -> bool { forall|p: Seq<usize>| #[trigger] m.contains_key(p) ==> m[p].head != h }
spec fn child(a: Seq<usize>, k: int) -> Seq<usize> { a.push(k as usize) }
spec fn letter_at<T, W>(m: Rules<T, W>, n: Rules<T, W>, a: Seq<usize>, k: int) -> bool {
    let q = child(a, kids(m, a) + k);
    let h = n[a].tail@[kids(m, a) + k];
    n.contains_key(q) && leaf(n[q], h, own(m, a)[k], m[a].weight) && unheaded(m, h)
}
spec fn separated_at<T, W>(m: Rules<T, W>, n: Rules<T, W>, a: Seq<usize>) -> bool {
    &&& n.contains_key(a)
    &&& n[a].head == m[a].head
    &&& n[a].weight == m[a].weight
    &&& n[a].tail@.len() == kids(m, a) + own(m, a).len()
    &&& n[a].tail@.take(kids(m, a)) == m[a].tail@
    &&& if lone(comp(m[a])) { views(comp(n[a])) == views(comp(m[a])) } else { moved_comp(comp(m[a]), comp(n[a]), kids(m, a), own(m, a)) }
    &&& forall|k: int| 0 <= k < own(m, a).len() ==> #[trigger] letter_at(m, n, a, k)
}
// p is a or one of the children made for a
spec fn made_for<T, W>(m: Rules<T, W>, p: Seq<usize>, a: Seq<usize>) -> bool {
    p == a || (p.len() == a.len() + 1 && p.drop_last() == a && kids(m, a) <= p.last() < kids(m, a) + own(m, a).len())
}
spec fn separated<T, W>(m: Rules<T, W>, n: Rules<T, W>) -> bool {
    &&& forall|a: Seq<usize>| #[trigger] m.contains_key(a) ==> separated_at(m, n, a)
    &&& forall|p: Seq<usize>| #[trigger] n.contains_key(p) ==> exists|a: Seq<usize>| #[trigger] m.contains_key(a) && made_for(m, p, a)
}
// nodes have at most as many children as their rules have successors; addresses do not overflow
spec fn fits<T, W>(m: Rules<T, W>) -> bool {
    &&& forall|p: Seq<usize>| #[trigger] m.contains_key(p) && p.len() > 0 && m.contains_key(p.drop_last()) ==> p.last() < kids(m, p.drop_last())
    &&& forall|p: Seq<usize>| #[trigger] m.contains_key(p) ==> kids(m, p) + joined(comp(m[p])).len() < usize::MAX
}
proof fn apart<T, W>(m: Rules<T, W>, p: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires fits(m), m.contains_key(a), m.contains_key(b), made_for(m, p, a), made_for(m, p, b)
    ensures a == b
{}
proof fn stays<T, W>(m: Rules<T, W>, n: Rules<T, W>, o: Rules<T, W>, a: Seq<usize>)
    requires
        fits(m), m.contains_key(a), separated_at(m, n, a),
        forall|p: Seq<usize>| #[trigger] n.contains_key(p) && made_for(m, p, a) ==> o.contains_key(p) && o[p] == n[p],
    ensures separated_at(m, o, a)
{
    letters_few(joined(comp(m[a])));
    assert forall|k: int| 0 <= k < own(m, a).len() implies #[trigger] letter_at(m, o, a, k) by {
        assert(letter_at(m, n, a, k));
        let q = child(a, kids(m, a) + k);
        assert(q.drop_last() =~= a);
        assert(made_for(m, q, a));
    }
}
proof fn letters_few<T>(s: Seq<VarT<T>>)
    ensures letters(s).len() <= s.len(), letters(s).no_duplicates()
    decreases s.len()
{ if s.len() > 0 { letters_few(s.drop_last()); } }
// the table of numbers during the walk over a composition
// symbols of the first k components and of the first l positions of the next one
spec fn walked<T>(c: Seq<Vec<VarT<T>>>, k: int, l: int) -> Seq<VarT<T>> { joined(c.take(k)) + c[k]@.take(l) }
proof fn walked_more<T>(c: Seq<Vec<VarT<T>>>, k: int, l: int)
    requires 0 <= k < c.len(), 0 <= l < c[k]@.len()
    ensures walked(c, k, l + 1) == walked(c, k, l).push(c[k]@[l])
{ assert(walked(c, k, l + 1) =~= walked(c, k, l).push(c[k]@[l])); }
proof fn letters_more<T>(s: Seq<VarT<T>>, x: VarT<T>)
    ensures letters(s.push(x)) == (match x { VarT::T(t) => if letters(s).contains(t) { letters(s) } else { letters(s).push(t) }, VarT::Var(_, _) => letters(s) })
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); }
spec fn tabled<T>(c: Map<T, usize>, base: int, ts: Seq<T>) -> bool {
    forall|t: T| #![trigger c.contains_key(t)] #![trigger ts.contains(t)] c.contains_key(t) == ts.contains(t) && (c.contains_key(t) ==> base <= c[t] < base + ts.len() && ts[c[t] - base] == t)
}
proof fn tabled_more<T>(c: Map<T, usize>, base: int, ts: Seq<T>, t: T, x: usize)
    requires tabled(c, base, ts), !ts.contains(t), 0 <= base, x == base + ts.len()
    ensures tabled(c.insert(t, x), base, ts.push(t))
{
    let (d, us) = (c.insert(t, x), ts.push(t));
    assert(us.last() == t);
    assert forall|y: T| #![trigger d.contains_key(y)] #![trigger us.contains(y)] d.contains_key(y) == us.contains(y) && (d.contains_key(y) ==> base <= d[y] < base + us.len() && us[d[y] - base] == y) by {
        if y != t {
            assert(c.contains_key(y) == ts.contains(y));
            if ts.contains(y) { let i = choose|i: int| 0 <= i < ts.len() && ts[i] == y; assert(us[i] == y); }
            if us.contains(y) { let i = choose|i: int| 0 <= i < us.len() && us[i] == y; assert(ts[i] == y); }
        }
    }
}
// n grew by the rules of the first k terminals
spec fn grown<T, W>(o: Rules<T, W>, n: Rules<T, W>, a: Seq<usize>, base: int, ts: Seq<T>, hs: Seq<T>, w: W) -> bool {
    &&& forall|p: Seq<usize>| #![trigger n.contains_key(p)] #![trigger o.contains_key(p)] (p.len() == a.len() + 1 && p.drop_last() == a && base <= p.last() < base + hs.len()) || (n.contains_key(p) == o.contains_key(p) && (n.contains_key(p) ==> n[p] == o[p]))
    &&& forall|j: int| 0 <= j < hs.len() ==> n.contains_key(#[trigger] child(a, base + j)) && leaf(n[child(a, base + j)], hs[j], ts[j], w)
}
proof fn grown_more<T, W>(o: Rules<T, W>, n: Rules<T, W>, n2: Rules<T, W>, a: Seq<usize>, base: int, ts: Seq<T>, hs: Seq<T>, hs2: Seq<T>, w: W)
    requires
        grown(o, n, a, base, ts, hs, w), hs2.drop_last() == hs, hs2.len() == hs.len() + 1, 0 <= base, base + hs2.len() < usize::MAX,
        n2 == n.insert(child(a, base + hs.len()), n2[child(a, base + hs.len())]),
        leaf(n2[child(a, base + hs.len())], hs2.last(), ts[hs.len() as int], w),
    ensures grown(o, n2, a, base, ts, hs2, w)
{
    let q = child(a, base + hs.len());
    assert(q.drop_last() =~= a);
    assert forall|j: int| 0 <= j < hs2.len() implies n2.contains_key(#[trigger] child(a, base + j)) && leaf(n2[child(a, base + j)], hs2[j], ts[j], w) by {
        if j < hs.len() { assert(n.contains_key(child(a, base + j))); assert(child(a, base + j).last() != q.last()); }
    }
}
proof fn placed<T, W>(m: Rules<T, W>, n0: Rules<T, W>, n1: Rules<T, W>, n2: Rules<T, W>, a: Seq<usize>, r: PMCFGRule<T, T, W>)
    requires
        fits(m), m.contains_key(a),
        n2 == n1.insert(a, r),
        r.head == m[a].head, r.weight == m[a].weight,
        r.tail@.len() == kids(m, a) + own(m, a).len(), r.tail@.take(kids(m, a)) == m[a].tail@,
        if lone(comp(m[a])) { n1 == n0 && views(comp(r)) == views(comp(m[a])) } else {
            let hs = r.tail@.skip(kids(m, a));
            &&& moved_comp(comp(m[a]), comp(r), kids(m, a), own(m, a))
            &&& grown(n0, n1, a, kids(m, a), own(m, a), hs, m[a].weight)
            &&& forall|j: int| 0 <= j < hs.len() ==> unheaded(m, #[trigger] hs[j])
        },
    ensures
        separated_at(m, n2, a),
        forall|b: Seq<usize>| m.contains_key(b) && #[trigger] separated_at(m, n0, b) ==> separated_at(m, n2, b),
        forall|p: Seq<usize>| #[trigger] n2.contains_key(p) ==> made_for(m, p, a) || n0.contains_key(p),
{
    let base = kids(m, a);
    letters_few(joined(comp(m[a])));
    let hs = r.tail@.skip(base);
    assert forall|k: int| 0 <= k < own(m, a).len() implies #[trigger] letter_at(m, n2, a, k) by {
        let q = child(a, base + k);
        assert(n1.contains_key(q) && leaf(n1[q], hs[k], own(m, a)[k], m[a].weight));
        assert(unheaded(m, hs[k]));
        assert(q != a) by { assert(q.len() == a.len() + 1); }
        assert(hs[k] == r.tail@[base + k]);
    }
    assert forall|p: Seq<usize>| #[trigger] n0.contains_key(p) && !made_for(m, p, a) implies n2.contains_key(p) && n2[p] == n0[p] by {}
    assert forall|b: Seq<usize>| m.contains_key(b) && b != a && #[trigger] separated_at(m, n0, b) implies separated_at(m, n2, b) by {
        assert forall|p: Seq<usize>| #[trigger] n0.contains_key(p) && made_for(m, p, b) implies n2.contains_key(p) && n2[p] == n0[p] by { if made_for(m, p, a) { apart(m, p, a, b); } }
        stays(m, n0, n2, b);
    }
}
// assumed: extending a symbol yields some symbol
#[verifier::external_body]
fn vt_extend<T>(t: &mut T, v: Vec<T>) { unimplemented!() }
fn vt_next(r: &mut std::ops::RangeFrom<usize>) -> (o: Option<usize>) requires old(r).start < usize::MAX ensures o == Some(old(r).start), final(r).start == old(r).start + 1 { let x = r.start; r.start = x + 1; Some(x) }
//@@ fn src/grammars/pmcfg/mod.rs separate_terminal_rules
//@ params tree_map
//@ ret r
//@ dropbound Extend
//@ foriter 0 GornTree::entries
//@ foriter 1 GornTree::entries
//@ foriter 2 VtEach::vt_each
//@ foriter 3 VtEach::vt_each
//@ mappath Composition::from Composition::from_
//@ mapmethod extend vt_extend &mut
//@ mapmethod next vt_next &mut
//@ local new_tree 0
//@ local old_heads 1
//@ local next_child_num 2
//@ local terminal_child_num 3
//@ local terminal_children 4
//@ local new_composition 5
//@ local first_variable 6
//@ local contains_only_one_terminal 7
//@ local new_component 8
//@ local new_rule 11
//@ local unique_terminal_children 12
//@ local original_terminal 13
//@ local child_address 14
//@ local new_tail 15
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ requires
    faithful::<HT>(), faithful::<W>(), lawful::<HT>(), obeys_key_model::<HT>(), fits(at(*tree_map)),
//@ ensures
    separated(at(*tree_map), at(r)),
//@ start
    let ghost m = at(*tree_map);
    proof { vec_faithful::<HT>(); }
//@ loop 0 for it
    invariant
        faithful::<HT>(), m == at(*tree_map), lists(shown_refs(it.seq()), m),
        forall|i: int| 0 <= i < it.index@ ==> old_heads@.contains((#[trigger] shown_refs(it.seq())[i]).1.head),
//@ loopstart 0
    let ghost old0 = old_heads@;
    let ghost e = it.seq()[it.index@];
    proof { assert(shown_refs(it.seq())[it.index@] == (e.0@, *e.1)); }
//@ loopend 0
    proof {
        assert(old_heads@ == old0.push(e.1.head));
        assert(old_heads@.last() == e.1.head);
        assert forall|i: int| 0 <= i < it.index@ + 1 implies old_heads@.contains((#[trigger] shown_refs(it.seq())[i]).1.head) by {
            if i < it.index@ { let x = shown_refs(it.seq())[i].1.head; let j = choose|j: int| 0 <= j < old0.len() && old0[j] == x; assert(old_heads@[j] == x); }
        }
    }
//@ loop 1 for it1
    invariant
        faithful::<HT>(), faithful::<W>(), lawful::<HT>(), obeys_key_model::<HT>(), faithful::<Vec<HT>>(), fits(m),
        m == at(*tree_map), lists(shown_refs(it1.seq()), m),
        forall|p: Seq<usize>| #[trigger] m.contains_key(p) ==> old_heads@.contains(m[p].head),
        forall|i: int| 0 <= i < it1.index@ ==> separated_at(m, at(new_tree), (#[trigger] shown_refs(it1.seq())[i]).0),
        forall|p: Seq<usize>| #[trigger] at(new_tree).contains_key(p) ==> exists|i: int| 0 <= i < it1.index@ && made_for(m, p, (#[trigger] shown_refs(it1.seq())[i]).0),
//@ loopstart 1
    let ghost e = it1.seq()[it1.index@];
    let ghost a = address@;
    let ghost c = composition.composition@;
    let ghost base = tail@.len() as int;
    let ghost n0 = at(new_tree);
    proof {
        assert(shown_refs(it1.seq())[it1.index@] == (e.0@, *e.1));
        assert(m.contains_key(a));
        assert(c == comp(m[a]) && base == kids(m, a));
        letters_few(joined(c));
    }
//@ loop 2 for it2
    invariant
        faithful::<HT>(), obeys_key_model::<HT>(), m.contains_key(a), fits(m), c == comp(m[a]), base == kids(m, a),
        it2.seq() == refs(c),
        first_variable == (joined(c.take(it2.index@)).len() == 0),
        contains_only_one_terminal == lone(c.take(it2.index@)),
        terminal_children@ == letters(joined(c.take(it2.index@))),
        next_child_num.start == base + terminal_children@.len(),
        tabled(terminal_child_num@, base, terminal_children@),
        moved_comp(c.take(it2.index@), new_composition@, base, terminal_children@),
//@ loopstart 2
    let ghost k = it2.index@;
    proof { assert(c.take(k + 1).drop_last() =~= c.take(k)); assert(c.take(k + 1).last() == c[k]); }
//@ loopend 2
    proof { assert(c[k]@.take(c[k]@.len() as int) =~= c[k]@); }
//@ loop 3 for it3
    invariant
        faithful::<HT>(), obeys_key_model::<HT>(), m.contains_key(a), fits(m), c == comp(m[a]), base == kids(m, a), 0 <= k < c.len(),
        it3.seq() == refs(c[k]@),
        first_variable == (walked(c, k, it3.index@).len() == 0),
        contains_only_one_terminal == (walked(c, k, it3.index@).len() == 1 && walked(c, k, it3.index@)[0] is T),
        terminal_children@ == letters(walked(c, k, it3.index@)),
        next_child_num.start == base + terminal_children@.len(),
        tabled(terminal_child_num@, base, terminal_children@),
        moved_comp(c.take(k), new_composition@, base, terminal_children@),
        moved_all(c[k]@.take(it3.index@), new_component@, base, terminal_children@),
//@ loopstart 3
    let ghost l = it3.index@;
    let ghost ts0 = terminal_children@;
    let ghost tcn0 = terminal_child_num@;
    proof {
        walked_more(c, k, l);
        assert(*variable == c[k]@[l]);
        letters_few(walked(c, k, l));
        letters_more(walked(c, k, l), c[k]@[l]);
        joined_few(c, k);
    }
//@ loopend 3
    proof {
        if let VarT::T(t) = c[k]@[l] { if !ts0.contains(t) { tabled_more(tcn0, base, ts0, t, (base + ts0.len()) as usize); assert(terminal_child_num@ == tcn0.insert(t, (base + ts0.len()) as usize)); } }
    }
//@ loop 4 for it4
    invariant
        faithful::<HT>(), faithful::<W>(), lawful::<HT>(), obeys_key_model::<HT>(), fits(m), m.contains_key(a), address@ == a, *weight == m[a].weight, base == kids(m, a),
        it4.seq() == ts, ts.no_duplicates(), base + ts.len() < usize::MAX,
        tabled(terminal_child_num@, base, ts),
        unique_terminal_children@.len() == it4.index@,
        forall|j: int| 0 <= j < it4.index@ ==> !old_heads@.contains(#[trigger] unique_terminal_children@[j]),
        grown(n0, at(new_tree), a, base, ts, unique_terminal_children@, *weight),
//@ before 4
    let ghost ts = terminal_children@;
    proof { letters_few(joined(c)); }
//@ after 2
    proof { assert(c.take(c.len() as int) =~= c); }
//@ loopend 4
    proof {
        let q = child(a, base + i);
        assert(q.drop_last() =~= a);
        assert(unique_terminal_children@.drop_last() =~= hs1);
        assert(comp(at(new_tree)[q])[0]@ =~= seq![VarT::T(ts[i])]);
        assert(at(new_tree) == n1.insert(q, at(new_tree)[q]));
        assert(leaf(at(new_tree)[q], unique_terminal_children@[i], ts[i], *weight));
        grown_more(n0, n1, at(new_tree), a, base, ts, hs1, unique_terminal_children@, *weight);
    }
//@ after 4
    let ghost hs = unique_terminal_children@;
    proof { assert((tail@ + hs).skip(base) =~= hs); assert((tail@ + hs).take(base) =~= tail@); }
//@ afterlet 11
    let ghost n1 = at(new_tree);
    let ghost r1 = new_rule;
    proof { if lone(c) { assert(tail@.skip(base) =~= Seq::empty()); assert(tail@.take(base) =~= tail@); } }
//@ loopend 1
    proof {
        placed(m, n0, n1, at(new_tree), a, r1);
        let s = shown_refs(it1.seq());
        assert forall|i: int| 0 <= i < it1.index@ + 1 implies separated_at(m, at(new_tree), (#[trigger] s[i]).0) by { }
        assert forall|p: Seq<usize>| #[trigger] at(new_tree).contains_key(p) implies exists|i: int| 0 <= i < it1.index@ + 1 && made_for(m, p, (#[trigger] s[i]).0) by {
            if made_for(m, p, a) { assert(s[it1.index@].0 == a); } else { assert(n0.contains_key(p)); let i = choose|i: int| 0 <= i < it1.index@ && made_for(m, p, (#[trigger] s[i]).0); assert(made_for(m, p, s[i].0)); }
        }
    }
//@ loopstart 4
    let ghost i = it4.index@;
    let ghost n1 = at(new_tree);
    let ghost hs1 = unique_terminal_children@;
    proof { assert(ts.contains(ts[i])); }
//@ afterlet 14
    let ghost child_address0 = child(child_address@, base + i);
    proof { assert(child_address@ =~= a); }
//@ loop 5 while
    invariant
        lawful::<HT>(),
//@@ end
// ---- the value stays the same ----
spec fn plain<T>(s: Seq<VarT<T>>) -> bool { forall|l: int| 0 <= l < s.len() ==> #[trigger] s[l] is T }
proof fn lone_is_plain<T>(c: Seq<Vec<VarT<T>>>, k: int)
    requires lone(c), 0 <= k < c.len()
    ensures plain(c[k]@)
{ assert forall|l: int| 0 <= l < c[k]@.len() implies #[trigger] c[k]@[l] is T by { in_joined(c, k, l); } }
// without variables, a string denotes itself wherever it is
proof fn plain_string<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>, s: Seq<VarT<T>>)
    requires plain(s)
    ensures strung(m, a, s) == s
    decreases s.len()
{
    if s.len() > 0 {
        plain_string(m, a, s.drop_last());
        assert(s.last() is T);
        assert(symbol(m, a, s.last()) == seq![s.last()]);
        assert(s.drop_last() + seq![s.last()] =~= s);
    } else { assert(s =~= Seq::empty()); }
}
proof fn leaf_value<T, W>(n: Rules<T, W>, q: Seq<usize>, h: T, t: T, w: W)
    requires n.contains_key(q), leaf(n[q], h, t, w)
    ensures value(terms(n), q).len() == 1, value(terms(n), q)[0] == seq![VarT::T(t)]
{
    let tn = terms(n);
    depth_is(tn);
    assert(tn.contains_key(q));
    plain_string(tn, q, seq![VarT::T(t)]);
}
proof fn same_string<T, W>(m: Rules<T, W>, n: Rules<T, W>, a: Seq<usize>, s: Seq<VarT<T>>, t: Seq<VarT<T>>)
    requires
        separated(m, n), fits(m), whole(terms(m)), m.contains_key(a), !lone(comp(m[a])), moved_all(s, t, kids(m, a), own(m, a)),
        forall|l: int| 0 <= l < s.len() ==> refers(terms(m), a, #[trigger] s[l]),
    ensures strung(terms(n), a, t) == strung(terms(m), a, s)
    decreases depth(terms(m)) - a.len(), 0nat, s.len()
{
    let (tm, tn) = (terms(m), terms(n));
    depth_is(tm); depth_is(tn);
    assert(tm.contains_key(a) && tn.contains_key(a)) by { assert(separated_at(m, n, a)); }
    if s.len() > 0 {
        let (x, y) = (s.last(), t.last());
        assert(moved(s[s.len() - 1], t[s.len() - 1], kids(m, a), own(m, a)));
        assert(moved_all(s.drop_last(), t.drop_last(), kids(m, a), own(m, a)));
        assert forall|l: int| 0 <= l < s.drop_last().len() implies refers(tm, a, #[trigger] s.drop_last()[l]) by { assert(refers(tm, a, s[l])); }
        same_string(m, n, a, s.drop_last(), t.drop_last());
        match x {
            VarT::Var(i, j) => {
                assert(refers(tm, a, s[s.len() - 1]));
                let q = a.push(i);
                assert(tm.contains_key(q) && m.contains_key(q));
                assert(q.len() <= depth(tm));
                same_value(m, n, q);
                assert(separated_at(m, n, q));
                assert(tn.contains_key(q));
                assert(q.len() <= depth(tn));
                assert(symbol(tm, a, x) == value(tm, q)[j as int]);
                assert(symbol(tn, a, y) == value(tn, q)[j as int]);
            },
            VarT::T(z) => {
                let k = y->Var_0 - kids(m, a);
                let q = child(a, kids(m, a) + k);
                assert(separated_at(m, n, a));
                assert(letter_at(m, n, a, k));
                leaf_value(n, q, n[q].head, z, m[a].weight);
                assert(tn.contains_key(q));
                assert(q.len() <= depth(tn));
                assert(symbol(tn, a, y) == value(tn, q)[0]);
                assert(symbol(tm, a, x) == seq![x]);
            },
        }
    }
}
// every node of the derivation denotes what it denoted before
proof fn same_value<T, W>(m: Rules<T, W>, n: Rules<T, W>, a: Seq<usize>)
    requires separated(m, n), fits(m), whole(terms(m)), m.contains_key(a)
    ensures value(terms(n), a) == value(terms(m), a)
    decreases depth(terms(m)) - a.len(), 1nat, 0nat
{
    let (tm, tn) = (terms(m), terms(n));
    depth_is(tm); depth_is(tn);
    assert(separated_at(m, n, a));
    assert(tm.contains_key(a) && tn.contains_key(a));
    let (c, d) = (comp(m[a]), comp(n[a]));
    assert(a.len() <= depth(tm) && a.len() <= depth(tn));
    assert(cs(tm[a]) == c && cs(tn[a]) == d);
    if lone(c) {
        assert(views(c).len() == c.len() && views(d).len() == d.len());
        assert forall|k: int| 0 <= k < c.len() implies strung(tn, a, #[trigger] d[k]@) == strung(tm, a, c[k]@) by {
            assert(views(c)[k] == views(d)[k]);
            lone_is_plain(c, k);
            plain_string(tm, a, c[k]@);
            plain_string(tn, a, d[k]@);
        }
    } else {
        assert forall|k: int| 0 <= k < c.len() implies strung(tn, a, #[trigger] d[k]@) == strung(tm, a, c[k]@) by {
            assert(moved_all(c[k]@, d[k]@, kids(m, a), own(m, a)));
            assert forall|l: int| 0 <= l < c[k]@.len() implies refers(tm, a, #[trigger] c[k]@[l]) by { assert(refers(tm, a, cs(tm[a])[k]@[l])); }
            same_string(m, n, a, c[k]@, d[k]@);
        }
    }
    assert(value(tn, a) =~= value(tm, a));
}
spec fn refers_at<T, W>(n: Rules<T, W>, p: Seq<usize>, s: VarT<T>) -> bool { s matches VarT::Var(i, j) ==> n.contains_key(p.push(i)) && j < comp(n[p.push(i)]).len() }
proof fn moved_refers<T, W>(m: Rules<T, W>, n: Rules<T, W>, a: Seq<usize>, s: VarT<T>, t: VarT<T>)
    requires separated(m, n), fits(m), m.contains_key(a), !lone(comp(m[a])), moved(s, t, kids(m, a), own(m, a)), refers_at(m, a, s)
    ensures refers_at(n, a, t)
{
    assert(separated_at(m, n, a));
    match s {
        VarT::Var(i, j) => {
            let q = a.push(i);
            assert(separated_at(m, n, q));
            if lone(comp(m[q])) { assert(views(comp(n[q])).len() == comp(n[q]).len() && views(comp(m[q])).len() == comp(m[q]).len()); }
        },
        VarT::T(z) => { assert(letter_at(m, n, a, t->Var_0 - kids(m, a))); },
    }
}
proof fn still_refers<T, W>(m: Rules<T, W>, n: Rules<T, W>, p: Seq<usize>, k: int, l: int)
    requires
        separated(m, n), fits(m), n.contains_key(p), 0 <= k < comp(n[p]).len(), 0 <= l < comp(n[p])[k]@.len(),
        forall|a: Seq<usize>, k: int, l: int| m.contains_key(a) && 0 <= k < comp(m[a]).len() && 0 <= l < comp(m[a])[k]@.len() ==> refers_at(m, a, #[trigger] comp(m[a])[k]@[l]),
    ensures refers_at(n, p, comp(n[p])[k]@[l])
{
    let a = choose|a: Seq<usize>| #[trigger] m.contains_key(a) && made_for(m, p, a);
    assert(separated_at(m, n, a));
    let (c, d) = (comp(m[a]), comp(n[p]));
    if p == a {
        if lone(c) {
            assert(views(c).len() == c.len() && views(d).len() == d.len());
            assert(views(c)[k] == views(d)[k]);
            lone_is_plain(c, k);
            assert(c[k]@[l] is T);
        } else {
            assert(moved_all(c[k]@, d[k]@, kids(m, a), own(m, a)));
            assert(moved(c[k]@[l], d[k]@[l], kids(m, a), own(m, a)));
            moved_refers(m, n, a, c[k]@[l], d[k]@[l]);
        }
    } else {
        let x = p.last() - kids(m, a);
        assert(letter_at(m, n, a, x));
        assert(p =~= child(a, kids(m, a) + x));
    }
}
// the separated derivation can be evaluated again
proof fn still_whole<T, W>(m: Rules<T, W>, n: Rules<T, W>)
    requires separated(m, n), fits(m), whole(terms(m))
    ensures whole(terms(n))
{
    let (tm, tn) = (terms(m), terms(n));
    assert forall|a: Seq<usize>, k: int, l: int| m.contains_key(a) && 0 <= k < comp(m[a]).len() && 0 <= l < comp(m[a])[k]@.len() implies refers_at(m, a, #[trigger] comp(m[a])[k]@[l]) by { assert(refers(tm, a, cs(tm[a])[k]@[l])); }
    assert forall|p: Seq<usize>, k: int, l: int| tn.contains_key(p) && 0 <= k < cs(tn[p]).len() && 0 <= l < cs(tn[p])[k]@.len() implies refers(tn, p, #[trigger] cs(tn[p])[k]@[l]) by {
        still_refers(m, n, p, k, l);
        if let VarT::Var(i, j) = cs(tn[p])[k]@[l] { assert(tn.contains_key(p.push(i))); }
    }
}
// rules have only variables or exactly one terminal as their only symbol
proof fn sorted_out<T, W>(m: Rules<T, W>, n: Rules<T, W>, p: Seq<usize>, k: int, l: int)
    requires separated(m, n), n.contains_key(p), 0 <= k < comp(n[p]).len(), 0 <= l < comp(n[p])[k]@.len(), fits(m)
    ensures comp(n[p])[k]@[l] is Var || (comp(n[p])[k]@ == seq![comp(n[p])[k]@[l]] && forall|j: int| 0 <= j < comp(n[p]).len() && j != k ==> (#[trigger] comp(n[p])[j])@.len() == 0)
{
    let a = choose|a: Seq<usize>| #[trigger] m.contains_key(a) && made_for(m, p, a);
    assert(separated_at(m, n, a));
    letters_few(joined(comp(m[a])));
    let (c, d) = (comp(m[a]), comp(n[p]));
    if p == a {
        if lone(c) {
            assert(views(c).len() == c.len() && views(d).len() == d.len());
            assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j])@ == c[j]@ by { assert(views(c)[j] == views(d)[j]); }
            only_one(c, k, l);
            assert(d[k]@ =~= seq![d[k]@[l]]);
            assert forall|j: int| 0 <= j < d.len() && j != k implies (#[trigger] d[j])@.len() == 0 by { assert(d[j]@ == c[j]@); }
        } else {
            assert(moved_all(c[k]@, d[k]@, kids(m, a), own(m, a)));
            assert(moved(c[k]@[l], d[k]@[l], kids(m, a), own(m, a)));
        }
    } else {
        let x = p.last() - kids(m, a);
        assert(letter_at(m, n, a, x));
        assert(p =~= child(a, kids(m, a) + x));
    }
}
} // verus!
