// C10: MCFGs as LCFRSs.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque, hash_map::Entry};
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::cmp::Ordering;
use std::rc::Rc;
use std::hash::Hash;
verus! {
broadcast use {vstd::std_specs::btree::group_btree_axioms, group_hash_axioms};

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/ord.rs
//@@ include lib/std.rs
//@@ include lib/btree.rs
//@@ include lib/gather.rs
//@@ include lib/eq.rs
//@@ include lib/rule.rs
//@@ include lib/entry.rs
//@@ include lib/fanouts.rs
//@@ include lib/agenda.rs
//@@ include lib/agenda_std.rs
//@@ include lib/search.rs FnMut=>Fn //+=>
//@@ include lib/drain.rs
//@@ type src/grammars/mcfg/mod.rs Mcfg
//@@ end
//@@ type src/grammars/lcfrs/mod.rs Lcfrs
//@@ end

// the components of successor i, out of n, that c does not use
spec fn gone<T>(c: Seq<Vec<VarT<T>>>, i: int, n: int) -> Set<usize> { range(0, n).to_set().filter(|j: usize| !vars(c).contains((i as usize, j))) }
spec fn within<T>(c: Seq<Vec<VarT<T>>>, n: int) -> bool { forall|k: int| 0 <= k < vars(c).len() ==> (#[trigger] vars(c)[k]).0 < n }
spec fn all_gone<T>(c: Seq<Vec<VarT<T>>>, fs: Seq<usize>, r: Seq<BTreeSet<usize>>) -> bool {
    r.len() == fs.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == gone(c, i, fs[i] as int)
}
// what is left after the variables vs
spec fn left(vs: Seq<(usize, usize)>, fs: Seq<usize>, r: Seq<BTreeSet<usize>>) -> bool {
    r.len() == fs.len() && r.len() <= usize::MAX && forall|i: int, j: usize| 0 <= i < r.len() ==> (#[trigger] r[i]@.contains(j) <==> j < fs[i] && !vs.contains((i as usize, j)))
}
proof fn symbols_through<'a, 'b, T>(c: Seq<&'a Vec<VarT<T>>>)
    ensures flat(refs::<'b, &'a Vec<VarT<T>>>(c), |v: &'b &'a Vec<VarT<T>>| refs::<'b, VarT<T>>((**v)@)) == symbols::<'b, T>(vals(c))
    decreases c.len()
{
    let r = refs::<'b, &'a Vec<VarT<T>>>(c);
    if c.len() > 0 {
        symbols_through(c.drop_last());
        assert(r.drop_last() =~= refs::<'b, &'a Vec<VarT<T>>>(c.drop_last()));
        assert(vals(c).drop_last() =~= vals(c.drop_last()));
        assert(refs::<'b, Vec<VarT<T>>>(vals(c)).drop_last() =~= refs::<'b, Vec<VarT<T>>>(vals(c).drop_last()));
    }
}
//@@ fn src/grammars/lcfrs/conversion.rs composition_deletes
//@ params composition fanouts
//@ ret r
//@ local deletions 0
//@ forpat 0 i j
//@ mapmethod iter vt_iter
//@ mapmethod flat_map vt_flat_map_into
//@ mapmethod filter_map vt_filter_map
//@ mapmethod map vt_map_over
//@ mapmethod collect vt_gather ::
//@ requires within(vals(composition@), fanouts@.len() as int)
//@ ensures all_gone(vals(composition@), fanouts@, r@)
//@ closure 0 (i: usize) -> (u: BTreeSet<usize>)
    requires i < fanouts@.len()
    ensures u@ == range(0, fanouts@[i as int] as int).to_set()
//@ closure 1 (component: &&Vec<VarT<T>>) -> (u: Vec<&VarT<T>>)
    ensures u@ == refs((**component)@)
//@ closure 2 (symbol: &VarT<T>) -> (u: Option<(usize, usize)>)
    ensures u == var_of(symbol)
//@ loop 0 for it
    invariant
        it.seq() == vars(vals(composition@)), left(it.seq().take(it.index@), fanouts@, deletions@), within(vals(composition@), fanouts@.len() as int),
//@ before 0
    proof {
        symbols_through(composition@);
        assert(fanouts@.len() == fanouts.len());
        assert forall|i: int, j: usize| 0 <= i < deletions@.len() implies (#[trigger] deletions@[i]@.contains(j) <==> j < fanouts@[i] && !Seq::<(usize, usize)>::empty().contains((i as usize, j))) by { in_range(fanouts@[i] as int, j); assert(range(0, fanouts@.len() as int)[i] == i); }
        assert(left(Seq::empty(), fanouts@, deletions@));
        assert(vars(vals(composition@)).take(0) =~= Seq::empty());
    }
//@ loopstart 0
    let ghost before = deletions@;
    proof {
        let k = it.index@;
        assert(it.seq()[k] == (i, j));
        assert(it.seq().take(k + 1) =~= it.seq().take(k).push((i, j)));
    }
//@ loopend 0
    proof { left_more(vars(vals(composition@)).take(it.index@), fanouts@, before, (i, j), deletions@); }
//@ after 0
    proof { assert(vars(vals(composition@)).take(vars(vals(composition@)).len() as int) =~= vars(vals(composition@))); all_left(vals(composition@), fanouts@, deletions@); }
//@@ end
proof fn left_more(vs: Seq<(usize, usize)>, fs: Seq<usize>, r: Seq<BTreeSet<usize>>, p: (usize, usize), r2: Seq<BTreeSet<usize>>)
    requires left(vs, fs, r), p.0 < r.len() == r2.len(), forall|i: int| 0 <= i < r.len() && i != p.0 ==> r2[i] == r[i], r2[p.0 as int]@ == r[p.0 as int]@.remove(p.1)
    ensures left(vs.push(p), fs, r2)
{
    assert forall|i: int, j: usize| 0 <= i < r2.len() implies (#[trigger] r2[i]@.contains(j) <==> j < fs[i] && !vs.push(p).contains((i as usize, j))) by {
        let q = (i as usize, j);
        assert(r[i]@.contains(j) <==> j < fs[i] && !vs.contains(q));
        if vs.contains(q) { let l = choose|l: int| 0 <= l < vs.len() && vs[l] == q; assert(vs.push(p)[l] == q); }
        if q == p { assert(vs.push(p)[vs.len() as int] == q); }
        if vs.push(p).contains(q) { let l = choose|l: int| 0 <= l < vs.push(p).len() && vs.push(p)[l] == q; if l < vs.len() { assert(vs[l] == q); } }
    }
}
proof fn all_left<T>(c: Seq<Vec<VarT<T>>>, fs: Seq<usize>, r: Seq<BTreeSet<usize>>)
    requires left(vars(c), fs, r)
    ensures all_gone(c, fs, r)
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@ == gone(c, i, fs[i] as int) by {
        assert forall|j: usize| r[i]@.contains(j) <==> gone(c, i, fs[i] as int).contains(j) by { in_range(fs[i] as int, j); }
        assert(r[i]@ =~= gone(c, i, fs[i] as int));
    }
}
proof fn in_range(n: int, j: usize)
    requires 0 <= n <= usize::MAX
    ensures range(0, n).to_set().contains(j) <==> j < n
{ if j < n { assert(range(0, n)[j as int] == j); } }

// c, without the components in del
spec fn keep<T>(c: Seq<T>, del: Set<usize>) -> Seq<T> { picked(numbered(c), |p: (usize, T)| if del.contains(p.0) { None } else { Some(p.1) }) }
// variables by their place among the components that are left
spec fn renumbered<T>(s: VarT<T>, c: Seq<Vec<VarT<T>>>, fs: Seq<usize>) -> VarT<T> {
    match s { VarT::Var(i, j) => VarT::Var(i, (j - under(gone(c, i as int, fs[i as int] as int), j)) as usize), VarT::T(t) => VarT::T(t) }
}
proof fn usize_keys() ensures lawful_keys::<usize>() { broadcast use vstd::laws_cmp::group_laws_cmp; }
// what is kept comes from c
proof fn kept_from<T>(c: Seq<T>, del: Set<usize>, p: Seq<(usize, T)>)
    requires p.len() <= c.len(), p == numbered(c).take(p.len() as int)
    ensures ({ let k = picked(p, |q: (usize, T)| if del.contains(q.0) { None } else { Some(q.1) }); k.len() <= p.len() && forall|i: int| 0 <= i < k.len() ==> c.contains(#[trigger] k[i]) })
    decreases p.len()
{
    if p.len() > 0 {
        let l = p.drop_last();
        assert(l =~= numbered(c).take(l.len() as int));
        kept_from(c, del, l);
        assert(p.last() == numbered(c)[p.len() - 1]);
        assert(c[p.len() - 1] == p.last().1);
        let f = |q: (usize, T)| if del.contains(q.0) { None } else { Some(q.1) };
        let k = picked(p, f);
        let k2 = picked(l, f);
        assert forall|i: int| 0 <= i < k.len() implies c.contains(#[trigger] k[i]) by { if i < k2.len() { assert(k2[i] == k[i]); } }
    }
}
proof fn in_flat<T, U>(v: Seq<T>, g: spec_fn(T) -> Seq<U>, x: U)
    ensures flat(v, g).contains(x) <==> exists|i: int| 0 <= i < v.len() && #[trigger] g(v[i]).contains(x)
    decreases v.len()
{
    if v.len() > 0 {
        let l = v.drop_last();
        in_flat(l, g, x);
        assert(v.last() == v[v.len() - 1]);
        let (a, b) = (flat(l, g), g(v.last()));
        if a.contains(x) { let j = a.index_of(x); assert((a + b)[j] == x); let i = choose|i: int| 0 <= i < l.len() && #[trigger] g(l[i]).contains(x); assert(g(v[i]).contains(x)); }
        if b.contains(x) { let j = b.index_of(x); assert((a + b)[a.len() + j] == x); assert(g(v[v.len() - 1]).contains(x)); }
        if (a + b).contains(x) { let j = (a + b).index_of(x); if j < a.len() { assert(a[j] == x); } else { assert(b[j - a.len()] == x); } }
        if exists|i: int| 0 <= i < v.len() && #[trigger] g(v[i]).contains(x) {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] g(v[i]).contains(x);
            if i < l.len() { assert(g(l[i]).contains(x)); }
        }
    } 
}
proof fn in_picked<T, U>(v: Seq<T>, g: spec_fn(T) -> Option<U>, x: U)
    ensures picked(v, g).contains(x) <==> exists|i: int| 0 <= i < v.len() && #[trigger] g(v[i]) == Some(x)
    decreases v.len()
{
    if v.len() > 0 {
        let l = v.drop_last();
        in_picked(l, g, x);
        assert(v.last() == v[v.len() - 1]);
        let a = picked(l, g);
        if a.contains(x) {
            let j = a.index_of(x);
            assert(picked(v, g)[j] == x);
            let i = choose|i: int| 0 <= i < l.len() && #[trigger] g(l[i]) == Some(x);
            assert(g(v[i]) == Some(x));
        }
        if g(v.last()) == Some(x) { assert(picked(v, g)[a.len() as int] == x); }
        if picked(v, g).contains(x) { let j = picked(v, g).index_of(x); if j < a.len() { assert(a[j] == x); } }
        if exists|i: int| 0 <= i < v.len() && #[trigger] g(v[i]) == Some(x) {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] g(v[i]) == Some(x);
            if i < l.len() { assert(g(l[i]) == Some(x)); }
        }
    }
}
// a variable of c occurs somewhere in c
spec fn occurs<T>(c: Seq<Vec<VarT<T>>>, i: usize, j: usize) -> bool { exists|k: int, l: int| 0 <= k < c.len() && 0 <= l < c[k]@.len() && #[trigger] c[k]@[l] == VarT::<T>::Var(i, j) }
proof fn var_occurs<T>(c: Seq<Vec<VarT<T>>>, i: usize, j: usize)
    ensures vars(c).contains((i, j)) <==> occurs(c, i, j)
{
    let f = |s: &VarT<T>| var_of(s);
    let g = |v: &Vec<VarT<T>>| refs::<VarT<T>>(v@);
    let r = refs::<Vec<VarT<T>>>(c);
    let s = symbols(c);
    in_picked(s, f, (i, j));
    if vars(c).contains((i, j)) {
        let m = choose|m: int| 0 <= m < s.len() && #[trigger] f(s[m]) == Some((i, j));
        assert(s.contains(s[m]));
        in_flat(r, g, s[m]);
        let k = choose|k: int| 0 <= k < r.len() && #[trigger] g(r[k]).contains(s[m]);
        let l = g(r[k]).index_of(s[m]);
        assert(c[k]@[l] == VarT::<T>::Var(i, j));
    }
    if occurs(c, i, j) {
        let (k, l) = choose|k: int, l: int| 0 <= k < c.len() && 0 <= l < c[k]@.len() && #[trigger] c[k]@[l] == VarT::<T>::Var(i, j);
        let x: &VarT<T> = &c[k]@[l];
        assert(g(r[k])[l] == x);
        assert(g(r[k]).contains(x));
        in_flat(r, g, x);
        assert(s.contains(x));
        let m = s.index_of(x);
        assert(f(s[m]) == Some((i, j)));
    }
}
proof fn keep_within<T>(c: Seq<Vec<VarT<T>>>, del: Set<usize>, n: int)
    requires within(c, n)
    ensures within(keep(c, del), n), keep(c, del).len() <= c.len(), forall|k: int, l: int| 0 <= k < keep(c, del).len() && 0 <= l < keep(c, del)[k]@.len() ==> (#[trigger] keep(c, del)[k]@[l] matches VarT::Var(i, j) ==> vars(keep(c, del)).contains((i, j)) && i < n)
{
    let d = keep(c, del);
    assert(numbered(c).take(c.len() as int) =~= numbered(c));
    kept_from(c, del, numbered(c));
    assert forall|m: int| 0 <= m < vars(d).len() implies (#[trigger] vars(d)[m]).0 < n by {
        let (i, j) = vars(d)[m];
        assert(vars(d).contains((i, j)));
        var_occurs(d, i, j);
        let (k, l) = choose|k: int, l: int| 0 <= k < d.len() && 0 <= l < d[k]@.len() && #[trigger] d[k]@[l] == VarT::<T>::Var(i, j);
        let k2 = c.index_of(d[k]);
        assert(c[k2]@[l] == VarT::<T>::Var(i, j));
        assert(occurs(c, i, j));
        var_occurs(c, i, j);
        let m2 = vars(c).index_of((i, j));
        assert(vars(c)[m2].0 < n);
    }
    assert forall|k: int, l: int| 0 <= k < d.len() && 0 <= l < d[k]@.len() implies (#[trigger] d[k]@[l] matches VarT::Var(i, j) ==> vars(d).contains((i, j)) && i < n) by {
        if let VarT::Var(i, j) = d[k]@[l] {
            assert(occurs(d, i, j));
            var_occurs(d, i, j);
            let m2 = vars(d).index_of((i, j));
            assert(vars(d)[m2].0 < n);
        }
    }
}
// what is under j, in a list of s
proof fn counted(v: Seq<&usize>, s: Set<usize>, j: usize)
    requires listing(vals(v), s)
    ensures v.filter(|x: &usize| *x < j).len() == under(s, j), under(s, j) <= j
{
    usize_keys();
    let w = vals(v);
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies w[a] != w[b] by { assert(below(w[a], w[b])); }
    assert(w.no_duplicates());
    let f = |x: &usize| *x < j;
    let g = |x: usize| x < j;
    filter_vals(v, f, g);
    let u = w.filter(g);
    filtered(w, g);
    assert(u.to_set() =~= s.filter(g)) by {
        assert forall|x: usize| u.to_set().contains(x) <==> s.filter(g).contains(x) by { assert(u.contains(x) <==> w.contains(x) && g(x)); }
    }
    u.unique_seq_to_set();
    range_small(j as int);
    assert(s.filter(g).subset_of(range(0, j as int).to_set())) by { assert forall|x: usize| s.filter(g).contains(x) implies range(0, j as int).to_set().contains(x) by { in_range(j as int, x); } }
    vstd::set_lib::lemma_len_subset(s.filter(g), range(0, j as int).to_set());
}
proof fn filtered<T>(w: Seq<T>, g: spec_fn(T) -> bool)
    ensures forall|x: T| #[trigger] w.filter(g).contains(x) <==> w.contains(x) && g(x), w.no_duplicates() ==> w.filter(g).no_duplicates()
    decreases w.len()
{
    reveal(Seq::filter);
    let u = w.filter(g);
    if w.len() > 0 {
        let l = w.drop_last();
        filtered(l, g);
        let v = l.filter(g);
        assert forall|x: T| #[trigger] u.contains(x) <==> w.contains(x) && g(x) by {
            if u.contains(x) { let i = u.index_of(x); if i < v.len() { assert(v[i] == x); assert(v.contains(x)); assert(l.contains(x)); let j = l.index_of(x); assert(w[j] == x); } else { assert(w[w.len() - 1] == x); } }
            if w.contains(x) && g(x) { let j = w.index_of(x); if j < l.len() { assert(l[j] == x); assert(v.contains(x)); let i = v.index_of(x); assert(u[i] == x); } else { assert(u[v.len() as int] == x); } }
        }
        if w.no_duplicates() {
            assert(l.no_duplicates());
            if l.contains(w.last()) { let j = l.index_of(w.last()); assert(w[j] == w[w.len() - 1]); }
            assert(!v.contains(w.last()));
            assert forall|a: int, b: int| 0 <= a < b < u.len() implies u[a] != u[b] by { assert(u[a] == v[a]); assert(v.contains(v[a])); if b < v.len() { assert(u[b] == v[b]); } }
        }
    }
}
proof fn range_small(n: int)
    requires 0 <= n <= usize::MAX
    ensures range(0, n).to_set().finite(), range(0, n).to_set().len() == n
{ assert(range(0, n).no_duplicates()); range(0, n).unique_seq_to_set(); }
proof fn filter_vals<T>(v: Seq<&T>, f: spec_fn(&T) -> bool, g: spec_fn(T) -> bool)
    requires forall|x: &T| #[trigger] f(x) == g(*x)
    ensures vals(v.filter(f)) == vals(v).filter(g)
    decreases v.len()
{
    reveal(Seq::filter);
    broadcast use seq_facts;
    if v.len() == 0 { assert(vals(v.filter(f)) =~= vals(v).filter(g)); } else { filter_vals(v.drop_last(), f, g); assert(vals(v).drop_last() == vals(v.drop_last())); }
}
spec fn under(s: Set<usize>, j: usize) -> nat { s.filter(|x: usize| x < j).len() }
// q is rule r without the components del of its left-hand side, fs are the fanouts of its right-hand side
spec fn converted<N, T, W>(r: PMCFGRule<N, T, W>, del: Set<usize>, fs: Seq<usize>, q: PMCFGRule<(N, BTreeSet<usize>), T, W>) -> bool {
    let c = keep(comp(r), del);
    &&& q.head.0 == r.head && q.head.1@ == del
    &&& q.weight == r.weight
    &&& comp(q).len() == c.len() && forall|k: int| 0 <= k < c.len() ==> (#[trigger] comp(q)[k])@ == c[k]@.map_values(|s: VarT<T>| renumbered(s, c, fs))
    &&& q.tail@.len() == r.tail@.len() && forall|i: int| 0 <= i < q.tail@.len() ==> (#[trigger] q.tail@[i]).0 == r.tail@[i] && q.tail@[i].1@ == gone(c, i, fs[i] as int)
}
//@@ fn src/grammars/lcfrs/conversion.rs to_lcfrs_rule
//@ params rule deletions fanouts
//@ ret q
//@ local rem_comp 1
//@ local succ_fanouts 2
//@ local successors_deletions 3
//@ mapmethod iter . vt_items
//@ mapmethod into_iter . vt_into
//@ mapmethod enumerate vt_enumerate
//@ mapmethod filter_map vt_filter_map
//@ mapmethod filter vt_filter
//@ mapmethod map vt_map
//@ mapmethod zip vt_zip
//@ mapmethod collect vt_gather ::
//@ mapmethod count vt_count
//@ mapmethod get vt_lookup &
//@ requires obeys_key_model::<&N>(), known(fanouts@, rule.tail@), within(comp(rule), rule.tail@.len() as int)
//@ ensures converted(rule, deletions@, fs_of(fanouts@, rule.tail@), q)
//@ closure 0 (x: (usize, Vec<VarT<T>>)) -> (u: Option<Vec<VarT<T>>>)
    ensures u == (if deletions@.contains(x.0) { None } else { Some(x.1) })
//@ closure 1 (n: &N) -> (k: usize)
    requires fanouts@.contains_key(n), obeys_key_model::<&N>()
    ensures k == fanouts@[n]
//@ closure 2 (component: Vec<VarT<T>>) -> (u: Vec<VarT<T>>)
    requires forall|l: int| 0 <= l < component@.len() ==> ((#[trigger] component@[l]) matches VarT::Var(i, j) ==> vars(rem).contains((i, j)) && i < succ_fanouts@.len()), all_gone(rem, succ_fanouts@, successors_deletions@)
    ensures u@.len() == component@.len(), forall|l: int| 0 <= l < u@.len() ==> #[trigger] u@[l] == renumbered(component@[l], rem, succ_fanouts@)
//@ closure 3 (symbol: VarT<T>) -> (u: VarT<T>)
    requires symbol matches VarT::Var(i, j) ==> vars(rem).contains((i, j)) && i < succ_fanouts@.len(), all_gone(rem, succ_fanouts@, successors_deletions@)
    ensures u == renumbered(symbol, rem, succ_fanouts@)
//@ closure 4 (j_: &&usize) -> (b: bool)
    ensures b == (**j_ < j)
//@ closurestart 3
    proof {
        usize_keys();
        if let VarT::Var(i, j) = symbol {
            let s = gone(rem, i as int, succ_fanouts@[i as int] as int);
            assert forall|v: Seq<&usize>| #[trigger] listing(vals(v), s) implies v.filter(|x: &usize| *x < j).len() == under(s, j) && under(s, j) <= j by { counted(v, s, j); }
        }
    }
//@ start
    let ghost rule0 = rule;
//@ afterlet 1
    let ghost rem = rem_comp@;
    proof { assert(rem == keep(comp(rule0), deletions@)); keep_within(comp(rule0), deletions@, rule0.tail@.len() as int); assert(vals(refs(rem)) == rem) by { vals_of_refs(rem); } }
//@ afterlet 2
    proof { assert(succ_fanouts@ =~= fs_of(fanouts@, rule0.tail@)); }
//@ afterlet 4
    proof { assert forall|k: int| 0 <= k < rem.len() implies (#[trigger] processed_composition@[k])@ == rem[k]@.map_values(|s: VarT<T>| renumbered(s, rem, succ_fanouts@)) by { assert(processed_composition@[k]@ =~= rem[k]@.map_values(|s: VarT<T>| renumbered(s, rem, succ_fanouts@))); } }
//@@ end

// ---- the grammar as a whole ----
impl<N: Clone, T: Clone, W: Clone> Clone for PMCFGRule<N, T, W> {
    // derived: clones of the parts
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures faithful::<N>() && faithful::<T>() && faithful::<W>() ==> r == *self { unimplemented!() }
}
spec fn key<N>(x: (&N, BTreeSet<usize>)) -> (N, Set<usize>) { (*x.0, x.1@) }
spec fn keys<N>(s: Seq<(&N, BTreeSet<usize>)>) -> Seq<(N, Set<usize>)> { s.map_values(|x: (&N, BTreeSet<usize>)| key(x)) }
// the rules of n
spec fn rules_of<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N) -> Seq<PMCFGRule<N, T, W>> { rs.filter(|r: PMCFGRule<N, T, W>| r.head == n) }
// those whose right-hand-side nonterminals have rules
spec fn usable<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>) -> Seq<PMCFGRule<N, T, W>> { rs.filter(|r: PMCFGRule<N, T, W>| known(m, r.tail@)) }
// what rule r needs of its right-hand side, if the components del of its left-hand side are left out
spec fn needs<N, T, W>(m: Map<&N, usize>, r: PMCFGRule<N, T, W>, del: Set<usize>) -> Seq<(N, Set<usize>)> {
    Seq::new(r.tail@.len(), |i: int| (r.tail@[i], gone(keep(comp(r), del), i, m[&r.tail@[i]] as int)))
}
spec fn all_needs<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, x: (N, Set<usize>)) -> Seq<(N, Set<usize>)> {
    flat(usable(m, rules_of(rs, x.0)), |r: PMCFGRule<N, T, W>| needs(m, r, x.1))
}
// ps lists the pairs reachable from (init, nothing deleted), each once
spec fn reachable<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, ps: Seq<(N, Set<usize>)>) -> bool {
    &&& ps.no_duplicates()
    &&& ps.contains((init, Set::<usize>::empty()))
    &&& forall|k: int, y: (N, Set<usize>)| 0 <= k < ps.len() && all_needs(m, rs, #[trigger] ps[k]).contains(y) ==> #[trigger] ps.contains(y)
    &&& forall|k: int| 0 <= k < ps.len() ==> #[trigger] ps[k] == (init, Set::<usize>::empty()) || exists|l: int| 0 <= l < k && all_needs(m, rs, #[trigger] ps[l]).contains(ps[k])
}
// qs are the rules rs without the components del of their left-hand sides
spec fn converts<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, del: Set<usize>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> bool {
    qs.len() == rs.len() && forall|l: int| 0 <= l < rs.len() ==> converted(rs[l], del, fs_of(m, rs[l].tail@), #[trigger] qs[l])
}
spec fn converted_for<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, ps: Seq<(N, Set<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> bool
    decreases ps.len()
{
    if ps.len() == 0 { qs.len() == 0 } else {
        let n = usable(m, rules_of(rs, ps.last().0)).len();
        n <= qs.len() && converted_for(m, rs, ps.drop_last(), qs.take(qs.len() - n)) && converts(m, usable(m, rules_of(rs, ps.last().0)), ps.last().1, qs.skip(qs.len() - n))
    }
}
spec fn lcfrs_of<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, init: N, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> bool {
    exists|m: Map<&N, usize>, ps: Seq<(N, Set<usize>)>| #[trigger] fans_of(m, rs) && #[trigger] reachable(m, rs, init, ps) && converted_for(m, rs, ps, qs)
}
spec fn by_head<'a, N, T, W>(m: Map<&N, Vec<&'a PMCFGRule<N, T, W>>>, rs: Seq<PMCFGRule<N, T, W>>) -> bool {
    &&& forall|n: &N| #[trigger] m.contains_key(n) ==> vals(m[n]@) == rules_of(rs, *n)
    &&& forall|n: &N| !#[trigger] m.contains_key(n) ==> rules_of(rs, *n).len() == 0
}
// variables refer to successors
spec fn fits<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>) -> bool { forall|k: int| 0 <= k < rs.len() ==> within(comp(#[trigger] rs[k]), rs[k].tail@.len() as int) }
#[verifier::opaque]
spec fn so_far<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, s: Seq<(&N, BTreeSet<usize>)>, k: int, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> bool {
    0 <= k <= s.len() && reachable(m, rs, init, keys(s)) && converted_for(m, rs, keys(s).take(k), qs)
}
proof fn so_far_none<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, s: Seq<(&N, BTreeSet<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>)
    requires reachable(m, rs, init, keys(s)), qs.len() == 0
    ensures so_far(m, rs, init, s, 0, qs)
{ reveal(so_far); assert(keys(s).take(0) =~= Seq::empty()); }
proof fn so_far_more<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, s: Seq<(&N, BTreeSet<usize>)>, k: int, qs0: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>)
    requires
        so_far(m, rs, init, s, k, qs0), k < s.len(), qs0.len() <= qs.len(), qs.take(qs0.len() as int) == qs0,
        converts(m, usable(m, rules_of(rs, *s[k].0)), s[k].1@, qs.skip(qs0.len() as int)),
    ensures so_far(m, rs, init, s, k + 1, qs)
{
    hide(reachable);
    reveal(so_far);
    let ps = keys(s).take(k + 1);
    assert(ps.drop_last() =~= keys(s).take(k));
    assert(ps.last() == key(s[k]));
    let n = usable(m, rules_of(rs, ps.last().0)).len();
    assert(n == qs.len() - qs0.len());
    assert(converted_for(m, rs, ps, qs));
}
proof fn so_far_all<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, s: Seq<(&N, BTreeSet<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>)
    requires so_far(m, rs, init, s, s.len() as int, qs), fans_of(m, rs)
    ensures lcfrs_of(rs, init, qs)
{ reveal(so_far); assert(keys(s).take(s.len() as int) =~= keys(s)); }
fn vt_clone<T: Clone>(x: &T) -> (r: T) ensures call_ensures(T::clone, (x,), r) { x.clone() }
fn vt_grow<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }

//@@ fn src/grammars/mcfg/mod.rs Mcfg::destruct
//@ ret r
//@ ensures r.0 == self.rules, r.1 == self.initial
//@@ end

proof fn listed_refs<'a, 'b, N, T, W>(m: Map<&N, Vec<&'a PMCFGRule<N, T, W>>>, rs: Seq<PMCFGRule<N, T, W>>, n: N)
    requires by_head(m, rs)
    ensures
        m.contains_key(&n) ==> vals(vals(refs::<'b, &'a PMCFGRule<N, T, W>>(m[&n]@))) == rules_of(rs, n),
        !m.contains_key(&n) ==> vals(vals(Seq::<&'b &'a PMCFGRule<N, T, W>>::empty())) == rules_of(rs, n),
{
    if m.contains_key(&n) { vals_of_refs(m[&n]@); } else { assert(vals(vals(Seq::<&'b &'a PMCFGRule<N, T, W>>::empty())) =~= rules_of(rs, n)); }
}
proof fn filter_more<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool)
    ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{ reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
proof fn filter_none<T>(s: Seq<T>, p: spec_fn(T) -> bool) requires s.len() == 0 ensures s.filter(p) == Seq::<T>::empty() { reveal(Seq::filter); assert(s.filter(p) =~= Seq::<T>::empty()); }
proof fn by_head_more<'a, N, T, W>(m: Map<&N, Vec<&'a PMCFGRule<N, T, W>>>, m2: Map<&N, Vec<&'a PMCFGRule<N, T, W>>>, rs: Seq<PMCFGRule<N, T, W>>, r: &'a PMCFGRule<N, T, W>, v: Vec<&'a PMCFGRule<N, T, W>>)
    requires
        by_head(m, rs), m2 == m.insert(&r.head, v),
        m.contains_key(&r.head) ==> v@ == m[&r.head]@.push(r), !m.contains_key(&r.head) ==> v@ == Seq::<&'a PMCFGRule<N, T, W>>::empty().push(r),
    ensures by_head(m2, rs.push(*r))
{
    broadcast use seq_facts;
    let t = rs.push(*r);
    assert forall|n: &N| true implies #[trigger] rules_of(t, *n) == (if r.head == *n { rules_of(rs, *n).push(*r) } else { rules_of(rs, *n) }) by { filter_more(rs, *r, |q: PMCFGRule<N, T, W>| q.head == *n); }
    assert forall|n: &N| #[trigger] m2.contains_key(n) implies vals(m2[n]@) == rules_of(t, *n) by {
        if *n == r.head { if !m.contains_key(n) { assert(rules_of(rs, *n) =~= Seq::empty()); assert(vals(Seq::<&'a PMCFGRule<N, T, W>>::empty()) =~= Seq::empty()); } } else { assert(m.contains_key(n)); }
    }
    assert forall|n: &N| !#[trigger] m2.contains_key(n) implies rules_of(t, *n).len() == 0 by { assert(!m.contains_key(n)); }
}
proof fn flat_more<T, U>(s: Seq<T>, x: T, g: spec_fn(T) -> Seq<U>)
    ensures flat(s.push(x), g) == flat(s, g) + g(x)
{ assert(s.push(x).drop_last() =~= s); }
// leaving out components of references
proof fn keep_refs<'a, T>(c: Seq<T>, del: Set<usize>)
    ensures vals(picked(numbered(refs::<'a, T>(c)), |p: (usize, &'a T)| if del.contains(p.0) { None } else { Some(p.1) })) == keep(c, del)
{ keep_refs_upto::<T>(c, numbered(refs::<'a, T>(c)), numbered(c), del); }
proof fn keep_refs_upto<'a, T>(c: Seq<T>, u: Seq<(usize, &'a T)>, v: Seq<(usize, T)>, del: Set<usize>)
    requires u.len() == v.len(), forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).0 == v[i].0 && *u[i].1 == v[i].1
    ensures vals(picked(u, |p: (usize, &'a T)| if del.contains(p.0) { None } else { Some(p.1) })) == picked(v, |p: (usize, T)| if del.contains(p.0) { None } else { Some(p.1) })
    decreases u.len()
{
    broadcast use seq_facts;
    let f = |p: (usize, &'a T)| if del.contains(p.0) { None } else { Some(p.1) };
    let g = |p: (usize, T)| if del.contains(p.0) { None } else { Some(p.1) };
    if u.len() == 0 { assert(vals(picked(u, f)) =~= picked(v, g)); } else {
        keep_refs_upto(c, u.drop_last(), v.drop_last(), del);
        assert(u.last() == u[u.len() - 1]);
        assert(v.last() == v[u.len() - 1]);
    }
}
proof fn zipped<N, T, W>(m: Map<&N, usize>, r: PMCFGRule<N, T, W>, del: Set<usize>, z: Seq<(&N, BTreeSet<usize>)>, gs: Seq<BTreeSet<usize>>)
    requires
        z.len() == r.tail@.len() == gs.len(), forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == (&r.tail@[i], gs[i]),
        all_gone(keep(comp(r), del), fs_of(m, r.tail@), gs),
    ensures keys(z) == needs(m, r, del)
{
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] keys(z)[i] == needs(m, r, del)[i] by { assert(gs[i]@ == gone(keep(comp(r), del), i, fs_of(m, r.tail@)[i] as int)); }
    assert(keys(z) =~= needs(m, r, del));
}
proof fn keys_join<N>(a: Seq<(&N, BTreeSet<usize>)>, b: Seq<(&N, BTreeSet<usize>)>) ensures keys(a + b) == keys(a) + keys(b) { assert(keys(a + b) =~= keys(a) + keys(b)); }
// what is in the list looked up, or nothing
fn vt_each_or_none<'a, T>(o: Option<&'a Vec<T>>, none: &Vec<T>) -> (r: Vec<&'a T>)
    requires none@.len() == 0
    ensures r@ == (match o { Some(v) => refs(v@), None => Seq::<&'a T>::empty() })
{ match o { Some(v) => vt_iter(v), None => { let r: Vec<&'a T> = Vec::new(); r } } }
// sets are their elements
#[verifier::external_body]
proof fn sets_are_elements(a: BTreeSet<usize>, b: BTreeSet<usize>) requires a@ == b@ ensures a == b {}
broadcast proof fn found_reaches<'a, N, T, W, S: Fn(&(&'a N, BTreeSet<usize>)) -> Vec<(&'a N, BTreeSet<usize>)>>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, i0: N, init: Seq<(&'a N, BTreeSet<usize>)>, g: S, r: Seq<(&'a N, BTreeSet<usize>)>, outs: Seq<Vec<(&'a N, BTreeSet<usize>)>>)
    requires
        #[trigger] found(g, init, r, outs), init.len() == 1, *init[0].0 == i0, init[0].1@ == Set::<usize>::empty(),
        forall|x: (&'a N, BTreeSet<usize>), u: Vec<(&'a N, BTreeSet<usize>)>| #[trigger] call_ensures(g, (&x,), u) ==> keys(u@) == all_needs(m, rs, key(x)),
    ensures #[trigger] so_far(m, rs, i0, r, 0, Seq::empty())
{
    let ps = keys(r);
    let start = (*init[0].0, Set::<usize>::empty());
    assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies ps[i] != ps[j] by {
        if ps[i] == ps[j] { sets_are_elements(r[i].1, r[j].1); assert(r[i] == r[j]); }
    }
    assert(init.contains(init[0]));
    assert(met(init[0], init, outs));
    let k0 = r.index_of(init[0]);
    assert(ps[k0] == start);
    assert forall|k: int, y: (N, Set<usize>)| 0 <= k < ps.len() && all_needs(m, rs, #[trigger] ps[k]).contains(y) implies #[trigger] ps.contains(y) by {
        assert(call_ensures(g, (&r[k],), outs[k]));
        let u = outs[k]@;
        let i = keys(u).index_of(y);
        assert(u.contains(u[i]));
        assert(met(u[i], init, outs));
        let l = r.index_of(u[i]);
        assert(ps[l] == y);
    }
    assert forall|k: int| 0 <= k < ps.len() implies #[trigger] ps[k] == start || exists|l: int| 0 <= l < k && all_needs(m, rs, #[trigger] ps[l]).contains(ps[k]) by {
        assert(met(r[k], init, outs.take(k)));
        if init.contains(r[k]) { assert(ps[k] == start); } else {
            let l = choose|l: int| 0 <= l < outs.take(k).len() && (#[trigger] outs.take(k)[l])@.contains(r[k]);
            assert(call_ensures(g, (&r[l],), outs[l]));
            let u = outs[l]@;
            let i = u.index_of(r[k]);
            assert(keys(u)[i] == ps[k]);
            assert(all_needs(m, rs, ps[l]).contains(ps[k]));
        }
    }
    so_far_none(m, rs, i0, r, Seq::empty());
}
//@@ fn src/grammars/lcfrs/conversion.rs <From~for~Lcfrs>::from
//@ params mcfg
//@ ret r
//@ implhead impl<N: Hash + Eq + Ord + Clone, T: Clone, W: Copy> Lcfrs<(N, BTreeSet<usize>), T, W>
//@ mapmethod entry vt_entry & mut
//@ mapmethod get vt_lookup &
//@ mapmethod iter . vt_items
//@ mapmethod enumerate vt_enumerate
//@ mapmethod filter_map vt_filter_map
//@ mapmethod map vt_map
//@ mapmethod zip vt_zip
//@ mapmethod all vt_all
//@ mapmethod contains_key vt_knows &
//@ mapmethod extend vt_grow & mut
//@ mapmethod collect vt_gather ::
//@ foriter 0 vt_iter
//@ foriter 1 vt_drain
//@ mapmethod unwrap_or vt_each_or_none
//@ forpat 0 rule
//@ forpat 1 a deletions
//@ forpat 2 rule
//@ forpat 3 rule
//@ local fanouts 1
//@ local rulemap 2
//@ local rules 3
//@ requires
    obeys_key_model::<&N>(), lawful_nodes::<(&N, BTreeSet<usize>)>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), lawful::<N>(),
    consistent(mcfg.rules@), fits(mcfg.rules@),
//@ ensures
    lcfrs_of(mcfg.rules@, mcfg.initial, r.rules@), r.init.0 == mcfg.initial, r.init.1@ == Set::<usize>::empty(),
//@ attr #[verifier::rlimit(30)]
//@ loop 0 for it
    invariant
        obeys_key_model::<&N>(), it.seq() == refs(mcfg_rules@), by_head(rulemap@, mcfg_rules@.take(it.index@)),
//@ loopstart 0
    let ghost k = it.index@;
    let ghost before = rulemap@;
    proof { assert(*rule == mcfg_rules@[k]); assert(mcfg_rules@.take(k + 1) =~= mcfg_rules@.take(k).push(*rule)); }
//@ loopend 0
    proof { by_head_more(before, rulemap@, mcfg_rules@.take(k), rule, rulemap@[&rule.head]); }
//@ before 0
    let ghost rs = mcfg_rules@;
    let ghost m = fanouts@;
    proof { assert forall|n: &N| rules_of(rs.take(0), *n).len() == 0 by { filter_none(rs.take(0), |r: PMCFGRule<N, T, W>| r.head == *n); } }
//@ after 0
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@ loop 1 for it1
    invariant
        so_far(m, rs, mcfg_initial, it1.seq(), it1.index@, rules@),
        obeys_key_model::<&N>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), m == fanouts@, rs == mcfg_rules@, fits(rs), by_head(rulemap@, rs),
//@ loopstart 1
    let ghost rules0 = rules@;
    let ghost rr = rules_of(rs, *a);
//@ loop 2 for it2
    invariant
        obeys_key_model::<&N>(), m == fanouts@, rs == mcfg_rules@, fits(rs), rr2 == rules_of(rs, *a), *deltetions == x.1,
        vals(vals(it2.seq())) == rr2, keys(successors@) == flat(usable(m, rr2.take(it2.index@)), |r: PMCFGRule<N, T, W>| needs(m, r, x.1@)),
//@ before 2
    let ghost rr2 = rules_of(rs, *a);
    proof {
        assert(keys(successors@) =~= Seq::empty());
        filter_none(rr2.take(0), |r: PMCFGRule<N, T, W>| known(m, r.tail@));
        listed_refs::<N, T, W>(rulemap@, rs, *a);
    }
//@ loopstart 2
    let ghost succ0 = successors@;
    let ghost r = **rule;
    let ghost g = |r: PMCFGRule<N, T, W>| needs(m, r, x.1@);
    proof {
        let k = it2.index@;
        assert(vals(it2.seq())[k] == *rule);
        assert(rr2[k] == r);
        assert(rr2.take(k + 1) =~= rr2.take(k).push(r));
        filter_more(rr2.take(k), r, |r: PMCFGRule<N, T, W>| known(m, r.tail@));
        flat_more(usable(m, rr2.take(k)), r, g);
        filtered(rs, |r: PMCFGRule<N, T, W>| r.head == *a);
        assert(rr2.contains(r));
        let i = rs.index_of(r);
        assert(within(comp(rs[i]), rs[i].tail@.len() as int));
        keep_refs(comp(r), x.1@);
        keep_within(comp(r), x.1@, r.tail@.len() as int);
        assert forall|i: int| 0 <= i < r.tail@.len() implies *refs::<N>(r.tail@)[i] == #[trigger] r.tail@[i] by {}
    }
//@ afterlet 5
    proof {
        if localfanouts_ is Some {
            assert forall|i: int| 0 <= i < r.tail@.len() implies m.contains_key(&#[trigger] r.tail@[i]) by { assert(*refs::<N>(r.tail@)[i] == r.tail@[i]); }
            assert(localfanouts_->0@ =~= fs_of(m, r.tail@));
        } else { assert(!known(m, r.tail@)); }
    }
//@ loopend 2
    proof {
        if known(m, r.tail@) {
            let z = successors@.skip(succ0.len() as int);
            let gs = Seq::new(z.len(), |i: int| z[i].1);
            assert(successors@ =~= succ0 + z);
            assert(z.len() == r.tail@.len());
            zipped(m, r, x.1@, z, gs);
            keys_join(succ0, z);
        } else { assert(successors@ == succ0); }
    }
//@ after 2
    proof { assert(rr2.take(rr2.len() as int) =~= rr2); assert(key(*x) == (*a, x.1@)); }
//@ loop 3 for it3
    invariant
        obeys_key_model::<&N>(), faithful::<N>(), faithful::<T>(), faithful::<W>(), m == fanouts@, rs == mcfg_rules@, fits(rs), rr == rules_of(rs, *a),
        vals(vals(it3.seq())) == rr, rules0.len() <= rules@.len(), rules@.take(rules0.len() as int) == rules0,
        converts(m, usable(m, rr.take(it3.index@)), deletions@, rules@.skip(rules0.len() as int)),
//@ before 3
    proof {
        filter_none(rr.take(0), |r: PMCFGRule<N, T, W>| known(m, r.tail@));
        assert(rules@.skip(rules0.len() as int) =~= Seq::empty());
        assert(rules@.take(rules0.len() as int) =~= rules0);
        listed_refs::<N, T, W>(rulemap@, rs, *a);
    }
//@ loopstart 3
    let ghost rules1 = rules@;
    let ghost r = **rule;
    proof {
        let k = it3.index@;
        assert(vals(it3.seq())[k] == *rule);
        assert(rr[k] == r);
        assert(rr.take(k + 1) =~= rr.take(k).push(r));
        filter_more(rr.take(k), r, |r: PMCFGRule<N, T, W>| known(m, r.tail@));
        filtered(rs, |r: PMCFGRule<N, T, W>| r.head == *a);
        assert(rr.contains(r));
        let i = rs.index_of(r);
        assert(within(comp(rs[i]), rs[i].tail@.len() as int));
        assert forall|i: int| 0 <= i < r.tail@.len() implies *refs::<N>(r.tail@)[i] == #[trigger] r.tail@[i] by {}
    }
//@ loopend 3
    proof {
        if known(m, r.tail@) {
            assert(rules@.skip(rules0.len() as int) =~= rules1.skip(rules0.len() as int).push(rules@.last()));
            assert(rules@.take(rules0.len() as int) =~= rules1.take(rules0.len() as int));
        }
    }
//@ after 3
    proof {
        assert(rr.take(rr.len() as int) =~= rr);
        so_far_more(m, rs, mcfg_initial, it1.seq(), it1.index@, rules0, rules@);
    }
//@ before 1
    broadcast use found_reaches;
    proof { assert(rules@ =~= Seq::empty()); }
//@ after 1
    proof {
        let s = choose|s: Seq<(&N, BTreeSet<usize>)>| #[trigger] so_far(m, rs, mcfg_initial, s, s.len() as int, rules@);
        so_far_all(m, rs, mcfg_initial, s, rules@);
    }
//@ closure 0 (x: &(&N, BTreeSet<usize>)) -> (u: Vec<(&N, BTreeSet<usize>)>)
    ensures keys(u@) == all_needs(fanouts@, mcfg_rules@, key(*x))
//@ closure 1 (nt: &N) -> (u: Option<usize>)
    ensures u == (if fanouts@.contains_key(nt) { Some(fanouts@[nt]) } else { None })
//@ closure 2 (y: (usize, &Vec<VarT<T>>)) -> (u: Option<&Vec<VarT<T>>>)
    ensures u == (if deltetions@.contains(y.0) { None } else { Some(y.1) })
//@ closure 3 (nt: &N) -> (b: bool)
    ensures b == fanouts@.contains_key(nt)
//@@ end

// ---- derivations: none is lost, none is added ----
ghost enum Deriv<R> { Node { rule: R, kids: Seq<Deriv<R>> } }
// the value of a composition for given values of the successors
spec fn expand<T>(s: Seq<VarT<T>>, vs: Seq<Seq<Seq<T>>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { expand(s.drop_last(), vs) + (match s.last() { VarT::T(t) => seq![t], VarT::Var(i, j) => vs[i as int][j as int] }) }
}
spec fn tuple<T>(c: Seq<Vec<VarT<T>>>, vs: Seq<Seq<Seq<T>>>) -> Seq<Seq<T>> { c.map_values(|v: Vec<VarT<T>>| expand(v@, vs)) }
spec fn value<N, T, W>(d: Deriv<PMCFGRule<N, T, W>>) -> Seq<Seq<T>>
    decreases d, 1nat
{ tuple(comp(d->rule), kid_values(d)) }
spec fn kid_values<N, T, W>(d: Deriv<PMCFGRule<N, T, W>>) -> Seq<Seq<Seq<T>>>
    decreases d, 0nat
{ Seq::new(d->kids.len(), |i: int| if 0 <= i < d->kids.len() { value(d->kids[i]) } else { Seq::empty() }) }
spec fn values<N, T, W>(ds: Seq<Deriv<PMCFGRule<N, T, W>>>) -> Seq<Seq<Seq<T>>> { ds.map_values(|d: Deriv<PMCFGRule<N, T, W>>| value(d)) }
// the weights of the rules used, from the root down
spec fn weights<N, T, W>(d: Deriv<PMCFGRule<N, T, W>>) -> Seq<W>
    decreases d, 1nat
{ seq![d->rule.weight] + concat(weights_below(d)) }
spec fn weights_below<N, T, W>(d: Deriv<PMCFGRule<N, T, W>>) -> Seq<Seq<W>>
    decreases d, 0nat
{ Seq::new(d->kids.len(), |i: int| if 0 <= i < d->kids.len() { weights(d->kids[i]) } else { Seq::empty() }) }
spec fn derives<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N, d: Deriv<PMCFGRule<N, T, W>>) -> bool
    decreases d
{
    let r = d->rule;
    &&& rs.contains(r) && r.head == n && d->kids.len() == r.tail@.len()
    &&& forall|i: int| 0 <= i < d->kids.len() ==> derives(rs, r.tail@[i], #[trigger] d->kids[i])
}
// the same in the LCFRS, whose nonterminals are pairs
spec fn derives2<N, T, W>(qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, n: N, del: Set<usize>, d: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> bool
    decreases d
{
    let r = d->rule;
    &&& qs.contains(r) && r.head.0 == n && r.head.1@ == del && d->kids.len() == r.tail@.len()
    &&& forall|i: int| 0 <= i < d->kids.len() ==> derives2(qs, r.tail@[i].0, r.tail@[i].1@, #[trigger] d->kids[i])
}
// variables refer to components of successors
spec fn grounded<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>) -> bool {
    forall|r: PMCFGRule<N, T, W>, k: int| #[trigger] rs.contains(r) && 0 <= k < vars(comp(r)).len() ==> (#[trigger] vars(comp(r))[k]).0 < r.tail@.len() && vars(comp(r))[k].1 < m[&r.tail@[vars(comp(r))[k].0 as int]]
}
// one rule for another
spec fn for_rule<N, T, W>(m: Map<&N, usize>, r: PMCFGRule<N, T, W>, del: Set<usize>, q: PMCFGRule<(N, BTreeSet<usize>), T, W>) -> bool { converted(r, del, fs_of(m, r.tail@), q) }
proof fn each_converted<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, ps: Seq<(N, Set<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, r: PMCFGRule<N, T, W>, del: Set<usize>)
    requires converted_for(m, rs, ps, qs), ps.contains((r.head, del)), rs.contains(r), known(m, r.tail@)
    ensures exists|q: PMCFGRule<(N, BTreeSet<usize>), T, W>| #[trigger] qs.contains(q) && for_rule(m, r, del, q)
    decreases ps.len()
{
    let x = ps.last();
    let us = usable(m, rules_of(rs, x.0));
    let cut = qs.len() - us.len();
    let k = ps.index_of((r.head, del));
    if k < ps.len() - 1 {
        assert(ps.drop_last()[k] == (r.head, del));
        each_converted(m, rs, ps.drop_last(), qs.take(cut), r, del);
        let q = choose|q: PMCFGRule<(N, BTreeSet<usize>), T, W>| #[trigger] qs.take(cut).contains(q) && for_rule(m, r, del, q);
        let l = qs.take(cut).index_of(q);
        assert(qs[l] == q);
        assert(qs.contains(q));
    } else {
        filtered(rs, |r: PMCFGRule<N, T, W>| r.head == x.0);
        filtered(rules_of(rs, x.0), |r: PMCFGRule<N, T, W>| known(m, r.tail@));
        assert(us.contains(r));
        let l = us.index_of(r);
        let q = qs.skip(cut)[l];
        assert(qs[cut + l] == q);
        assert(qs.contains(q));
        assert(for_rule(m, r, del, q));
    }
}
proof fn each_from<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, ps: Seq<(N, Set<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, q: PMCFGRule<(N, BTreeSet<usize>), T, W>)
    requires converted_for(m, rs, ps, qs), qs.contains(q)
    ensures exists|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) && known(m, r.tail@) && ps.contains((r.head, q.head.1@)) && for_rule(m, r, q.head.1@, q)
    decreases ps.len()
{
    let l = qs.index_of(q);
    if ps.len() > 0 {
        let x = ps.last();
        let us = usable(m, rules_of(rs, x.0));
        let cut = qs.len() - us.len();
        if l < cut {
            assert(qs.take(cut)[l] == q);
            each_from(m, rs, ps.drop_last(), qs.take(cut), q);
            let r = choose|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) && known(m, r.tail@) && ps.drop_last().contains((r.head, q.head.1@)) && for_rule(m, r, q.head.1@, q);
            let k = ps.drop_last().index_of((r.head, q.head.1@));
            assert(ps[k] == (r.head, q.head.1@));
        } else {
            filtered(rs, |r: PMCFGRule<N, T, W>| r.head == x.0);
            filtered(rules_of(rs, x.0), |r: PMCFGRule<N, T, W>| known(m, r.tail@));
            assert(qs.skip(cut)[l - cut] == q);
            let r = us[l - cut];
            assert(us.contains(r));
            assert(ps[ps.len() - 1] == (r.head, q.head.1@));
            assert(rs.contains(r) && for_rule(m, r, q.head.1@, q));
        }
    }
}
// what is kept, up to place p
spec fn kept_to<A>(c: Seq<A>, del: Set<usize>, p: int) -> Seq<A> { picked(numbered(c).take(p), |q: (usize, A)| if del.contains(q.0) { None } else { Some(q.1) }) }
proof fn kept_step<A>(c: Seq<A>, del: Set<usize>, p: int)
    requires 0 <= p < c.len() <= usize::MAX
    ensures kept_to(c, del, p + 1) == (if del.contains(p as usize) { kept_to(c, del, p) } else { kept_to(c, del, p).push(c[p]) }), kept_to(c, del, 0) == Seq::<A>::empty(), kept_to(c, del, c.len() as int) == keep(c, del)
{
    assert(numbered(c).take(p + 1).drop_last() =~= numbered(c).take(p));
    assert(numbered(c).take(c.len() as int) =~= numbered(c));
    assert(kept_to(c, del, 0) =~= Seq::<A>::empty());
}
proof fn under_step(s: Set<usize>, p: usize)
    requires p < usize::MAX
    ensures under(s, (p + 1) as usize) == under(s, p) + (if s.contains(p) { 1nat } else { 0nat }), under(s, 0) == 0
{
    let (a, b) = (s.filter(|x: usize| x < p), s.filter(|x: usize| x < p + 1));
    if s.contains(p) { assert(b =~= a.insert(p)); } else { assert(b =~= a); }
    let q = (p + 1) as usize;
    assert(s.filter(|x: usize| x < q) =~= b);
    assert(s.filter(|x: usize| x < 0) =~= Set::empty());
}
proof fn kept_len<A>(c: Seq<A>, del: Set<usize>, p: int)
    requires 0 <= p <= c.len() <= usize::MAX
    ensures kept_to(c, del, p).len() == p - under(del, p as usize), under(del, p as usize) <= p
    decreases p
{
    if p > 0 { kept_step(c, del, p - 1); kept_len(c, del, p - 1); under_step(del, (p - 1) as usize); } else { assert(numbered(c).take(0).len() == 0); under_step(del, 0); }
}
proof fn kept_prefix<A>(c: Seq<A>, del: Set<usize>, p: int, q: int)
    requires 0 <= p <= q <= c.len() <= usize::MAX
    ensures kept_to(c, del, p).len() <= kept_to(c, del, q).len(), forall|i: int| 0 <= i < kept_to(c, del, p).len() ==> #[trigger] kept_to(c, del, q)[i] == kept_to(c, del, p)[i]
    decreases q - p
{ if p < q { kept_step(c, del, q - 1); kept_prefix(c, del, p, q - 1); assert forall|i: int| 0 <= i < kept_to(c, del, p).len() implies #[trigger] kept_to(c, del, q)[i] == kept_to(c, del, p)[i] by { assert(kept_to(c, del, q - 1)[i] == kept_to(c, del, p)[i]); } } }
// component j is at its place among those that are left
proof fn kept_at<A>(c: Seq<A>, del: Set<usize>, j: usize)
    requires j < c.len() <= usize::MAX, !del.contains(j)
    ensures under(del, j) <= j, j - under(del, j) < keep(c, del).len(), keep(c, del)[j - under(del, j)] == c[j as int]
{
    kept_len(c, del, j as int);
    kept_step(c, del, j as int);
    kept_prefix(c, del, j + 1, c.len() as int);
    let k = j - under(del, j);
    assert(kept_to(c, del, j + 1)[k] == c[j as int]);
    assert(kept_to(c, del, c.len() as int)[k] == kept_to(c, del, j + 1)[k]);
}
proof fn keep_map<A, B>(c: Seq<A>, f: spec_fn(A) -> B, del: Set<usize>, p: int)
    requires 0 <= p <= c.len() <= usize::MAX
    ensures kept_to(c.map_values(f), del, p) == kept_to(c, del, p).map_values(f)
    decreases p
{
    let d = c.map_values(f);
    if p > 0 { keep_map(c, f, del, p - 1); kept_step(c, del, p - 1); kept_step(d, del, p - 1); assert(kept_to(d, del, p) =~= kept_to(c, del, p).map_values(f)); } else { assert(kept_to(d, del, p) =~= kept_to(c, del, p).map_values(f)); }
}
// renumbered variables have the values of the variables they stand for
proof fn same_expand<T>(s: Seq<VarT<T>>, c: Seq<Vec<VarT<T>>>, fs: Seq<usize>, vs: Seq<Seq<Seq<T>>>, vs2: Seq<Seq<Seq<T>>>)
    requires
        vs.len() == fs.len() <= usize::MAX, vs2.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> (#[trigger] vs[i]).len() == fs[i] && vs2[i] == keep(vs[i], gone(c, i, fs[i] as int)),
        forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l] matches VarT::Var(i, j) ==> vars(c).contains((i, j)) && i < fs.len() && j < fs[i as int]),
    ensures expand(s.map_values(|x: VarT<T>| renumbered(x, c, fs)), vs2) == expand(s, vs)
    decreases s.len()
{
    let g = |x: VarT<T>| renumbered(x, c, fs);
    let t = s.map_values(g);
    if s.len() > 0 {
        assert(t.drop_last() =~= s.drop_last().map_values(g));
        assert forall|l: int| 0 <= l < s.drop_last().len() implies (#[trigger] s.drop_last()[l] matches VarT::Var(i, j) ==> vars(c).contains((i, j)) && i < fs.len() && j < fs[i as int]) by { assert(s[l] == s.drop_last()[l]); }
        same_expand(s.drop_last(), c, fs, vs, vs2);
        assert(s.last() == s[s.len() - 1]);
        if let VarT::Var(i, j) = s.last() {
            let del = gone(c, i as int, fs[i as int] as int);
            assert(vs[i as int].len() == fs[i as int]);
            kept_at(vs[i as int], del, j);
        }
    }
}
proof fn same_tuple<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>, del: Set<usize>, q: PMCFGRule<(N, BTreeSet<usize>), T, W>, vs: Seq<Seq<Seq<T>>>, vs2: Seq<Seq<Seq<T>>>)
    requires
        rs.contains(r), grounded(m, rs), for_rule(m, r, del, q), comp(r).len() <= usize::MAX, r.tail@.len() <= usize::MAX,
        vs.len() == r.tail@.len(), vs2.len() == vs.len(),
        forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).len() == m[&r.tail@[i]] && vs2[i] == keep(vs[i], q.tail@[i].1@),
    ensures tuple(comp(q), vs2) == keep(tuple(comp(r), vs), del)
{
    let c = keep(comp(r), del);
    let fs = fs_of(m, r.tail@);
    let f = |v: Vec<VarT<T>>| expand(v@, vs);
    keep_map(comp(r), f, del, comp(r).len() as int);
    assert(numbered(comp(r)).take(comp(r).len() as int) =~= numbered(comp(r)));
    assert(numbered(tuple(comp(r), vs)).take(comp(r).len() as int) =~= numbered(tuple(comp(r), vs)));
    assert(keep(tuple(comp(r), vs), del) == c.map_values(f));
    assert forall|k: int| 0 <= k < vars(comp(r)).len() implies (#[trigger] vars(comp(r))[k]).0 < r.tail@.len() by {}
    keep_within(comp(r), del, r.tail@.len() as int);
    kept_from(comp(r), del, numbered(comp(r)));
    assert forall|k: int| 0 <= k < c.len() implies expand((#[trigger] comp(q)[k])@, vs2) == expand(c[k]@, vs) by {
        let s = c[k]@;
        assert forall|l: int| 0 <= l < s.len() implies (#[trigger] s[l] matches VarT::Var(i, j) ==> vars(c).contains((i, j)) && i < fs.len() && j < fs[i as int]) by {
            if let VarT::Var(i, j) = s[l] {
                assert(c[k]@[l] == VarT::<T>::Var(i, j));
                let k2 = comp(r).index_of(c[k]);
                assert(comp(r)[k2]@[l] == VarT::<T>::Var(i, j));
                assert(occurs(comp(r), i, j));
                var_occurs(comp(r), i, j);
                let n = vars(comp(r)).index_of((i, j));
                assert(vars(comp(r))[n] == (i, j));
            }
        }
        same_expand(s, c, fs, vs, vs2);
    }
    assert(tuple(comp(q), vs2) =~= c.map_values(f));
}
// the counterpart of a derivation in the LCFRS, and of one there in the MCFG
spec fn there<N, T, W>(m: Map<&N, usize>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, d: Deriv<PMCFGRule<N, T, W>>, del: Set<usize>) -> Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>
    decreases d
{
    let q = choose|q: PMCFGRule<(N, BTreeSet<usize>), T, W>| #[trigger] qs.contains(q) && for_rule(m, d->rule, del, q);
    Deriv::Node { rule: q, kids: Seq::new(d->kids.len(), |i: int| if 0 <= i < d->kids.len() { there(m, qs, d->kids[i], q.tail@[i].1@) } else { arbitrary() }) }
}
spec fn back<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, ps: Seq<(N, Set<usize>)>, d: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> Deriv<PMCFGRule<N, T, W>>
    decreases d
{
    let q = d->rule;
    let r = choose|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) && known(m, r.tail@) && ps.contains((r.head, q.head.1@)) && for_rule(m, r, q.head.1@, q);
    Deriv::Node { rule: r, kids: Seq::new(d->kids.len(), |i: int| if 0 <= i < d->kids.len() { back(m, rs, ps, d->kids[i]) } else { arbitrary() }) }
}
// d2 stands for d with the components del left out
spec fn stands_for<N, T, W>(d: Deriv<PMCFGRule<N, T, W>>, del: Set<usize>, d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>) -> bool {
    weights(d2) == weights(d) && value(d2) == keep(value(d), del)
}
// lengths that are machine numbers
spec fn sized<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>) -> bool {
    forall|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) ==> comp(r).len() == m[&r.head] && m.contains_key(&r.head) && r.tail@.len() <= usize::MAX
}
proof fn needed<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, ps: Seq<(N, Set<usize>)>, r: PMCFGRule<N, T, W>, del: Set<usize>, i: int)
    requires reachable(m, rs, init, ps), ps.contains((r.head, del)), rs.contains(r), known(m, r.tail@), 0 <= i < r.tail@.len()
    ensures ps.contains((r.tail@[i], gone(keep(comp(r), del), i, fs_of(m, r.tail@)[i] as int)))
{
    let x = (r.head, del);
    filtered(rs, |r: PMCFGRule<N, T, W>| r.head == x.0);
    let us = usable(m, rules_of(rs, x.0));
    filtered(rules_of(rs, x.0), |r: PMCFGRule<N, T, W>| known(m, r.tail@));
    let g = |r: PMCFGRule<N, T, W>| needs(m, r, del);
    let y = needs(m, r, del)[i];
    in_flat(us, g, y);
    assert(us.contains(r));
    let l = us.index_of(r);
    assert(us[l] == r);
    assert(g(us[l])[i] == y);
    assert(g(us[l]).contains(y));
    let k = ps.index_of(x);
    assert(all_needs(m, rs, ps[k]).contains(y));
}
spec fn kid_weights<N, T, W>(ds: Seq<Deriv<PMCFGRule<N, T, W>>>) -> Seq<Seq<W>> { ds.map_values(|d: Deriv<PMCFGRule<N, T, W>>| weights(d)) }
proof fn parts<N, T, W>(d: Deriv<PMCFGRule<N, T, W>>)
    ensures value(d) == tuple(comp(d->rule), values(d->kids)), weights(d) == seq![d->rule.weight] + concat(kid_weights(d->kids))
{
    assert(kid_values(d) =~= values(d->kids));
    assert(weights_below(d) =~= kid_weights(d->kids));
}
proof fn stands<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, d: Deriv<PMCFGRule<N, T, W>>, del: Set<usize>, d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>)
    requires
        sized(m, rs), grounded(m, rs), rs.contains(d->rule), for_rule(m, d->rule, del, d2->rule), d->kids.len() == d->rule.tail@.len() == d2->kids.len(),
        forall|i: int| 0 <= i < d->kids.len() ==> stands_for(#[trigger] d->kids[i], d2->rule.tail@[i].1@, d2->kids[i]) && value(d->kids[i]).len() == m[&d->rule.tail@[i]],
    ensures stands_for(d, del, d2)
{
    parts(d);
    parts(d2);
    let (vs, vs2) = (values(d->kids), values(d2->kids));
    assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).len() == m[&d->rule.tail@[i]] && vs2[i] == keep(vs[i], d2->rule.tail@[i].1@) by { assert(stands_for(d->kids[i], d2->rule.tail@[i].1@, d2->kids[i])); }
    assert(kid_weights(d->kids) =~= kid_weights(d2->kids)) by { assert forall|i: int| 0 <= i < vs.len() implies kid_weights(d->kids)[i] == kid_weights(d2->kids)[i] by { assert(stands_for(d->kids[i], d2->rule.tail@[i].1@, d2->kids[i])); } }
    same_tuple(m, rs, d->rule, del, d2->rule, vs, vs2);
}
proof fn there_is<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, ps: Seq<(N, Set<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, d: Deriv<PMCFGRule<N, T, W>>, del: Set<usize>)
    requires converted_for(m, rs, ps, qs), ps.contains((d->rule.head, del)), rs.contains(d->rule), known(m, d->rule.tail@)
    ensures ({
        let d2 = there(m, qs, d, del);
        &&& qs.contains(d2->rule) && for_rule(m, d->rule, del, d2->rule) && d2->kids.len() == d->kids.len()
        &&& forall|i: int| 0 <= i < d->kids.len() ==> #[trigger] d2->kids[i] == there(m, qs, d->kids[i], d2->rule.tail@[i].1@)
    })
{
    hide(converted_for);
    hide(for_rule);
    each_converted(m, rs, ps, qs, d->rule, del);
    let q = choose|q: PMCFGRule<(N, BTreeSet<usize>), T, W>| #[trigger] qs.contains(q) && for_rule(m, d->rule, del, q);
    assert(there(m, qs, d, del)->rule == q);
}
proof fn for_kid<N, T, W>(m: Map<&N, usize>, r: PMCFGRule<N, T, W>, del: Set<usize>, q: PMCFGRule<(N, BTreeSet<usize>), T, W>, i: int)
    requires for_rule(m, r, del, q), 0 <= i < r.tail@.len()
    ensures q.tail@.len() == r.tail@.len(), q.head.0 == r.head, q.head.1@ == del, q.tail@[i].0 == r.tail@[i], q.tail@[i].1@ == gone(keep(comp(r), del), i, fs_of(m, r.tail@)[i] as int)
{}
proof fn none_lost<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N, ps: Seq<(N, Set<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, n: N, del: Set<usize>, d: Deriv<PMCFGRule<N, T, W>>)
    requires
        reachable(m, rs, init, ps), converted_for(m, rs, ps, qs), sized(m, rs), grounded(m, rs),
        ps.contains((n, del)), derives(rs, n, d),
    ensures derives2(qs, n, del, there(m, qs, d, del)), stands_for(d, del, there(m, qs, d, del)), value(d).len() == m[&n]
    decreases d
{
    hide(reachable);
    hide(converted_for);
    hide(for_rule);
    hide(grounded);
    hide(stands_for);
    hide(gone);
    hide(keep);
    hide(there);
    let r = d->rule;
    parts(d);
    assert forall|i: int| 0 <= i < r.tail@.len() implies m.contains_key(&#[trigger] r.tail@[i]) by { let k = d->kids[i]; assert(derives(rs, r.tail@[i], k)); assert(rs.contains(k->rule)); }
    there_is(m, rs, ps, qs, d, del);
    let d2 = there(m, qs, d, del);
    let q = d2->rule;
    assert forall|i: int| 0 <= i < d->kids.len() implies stands_for(#[trigger] d->kids[i], q.tail@[i].1@, d2->kids[i]) && value(d->kids[i]).len() == m[&r.tail@[i]] && derives2(qs, q.tail@[i].0, q.tail@[i].1@, d2->kids[i]) by {
        let k = d->kids[i];
        assert(derives(rs, r.tail@[i], k));
        needed(m, rs, init, ps, r, del, i);
        for_kid(m, r, del, q, i);
        none_lost(m, rs, init, ps, qs, r.tail@[i], q.tail@[i].1@, d->kids[i]);
    }
    assert(q.tail@.len() == r.tail@.len() && q.head.0 == n && q.head.1@ == del) by { reveal(for_rule); }
    stands(m, rs, d, del, d2);
    assert forall|i: int| 0 <= i < d2->kids.len() implies derives2(qs, q.tail@[i].0, q.tail@[i].1@, #[trigger] d2->kids[i]) by { assert(stands_for(d->kids[i], q.tail@[i].1@, d2->kids[i])); }
}
proof fn none_added<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, ps: Seq<(N, Set<usize>)>, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>, n: N, del: Set<usize>, d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>)
    requires converted_for(m, rs, ps, qs), sized(m, rs), grounded(m, rs), derives2(qs, n, del, d2)
    ensures derives(rs, n, back(m, rs, ps, d2)), stands_for(back(m, rs, ps, d2), del, d2), value(back(m, rs, ps, d2)).len() == m[&n]
    decreases d2
{
    let q = d2->rule;
    each_from(m, rs, ps, qs, q);
    let d = back(m, rs, ps, d2);
    let r = d->rule;
    parts(d);
    assert(rs.contains(r) && for_rule(m, r, del, q));
    assert forall|i: int| 0 <= i < d->kids.len() implies stands_for(#[trigger] d->kids[i], q.tail@[i].1@, d2->kids[i]) && value(d->kids[i]).len() == m[&r.tail@[i]] && derives(rs, r.tail@[i], d->kids[i]) by {
        let k = d2->kids[i];
        assert(derives2(qs, q.tail@[i].0, q.tail@[i].1@, k));
        assert(q.tail@[i].0 == r.tail@[i]);
        none_added(m, rs, ps, qs, q.tail@[i].0, q.tail@[i].1@, d2->kids[i]);
    }
    stands(m, rs, d, del, d2);
    assert forall|i: int| 0 <= i < d->kids.len() implies derives(rs, r.tail@[i], #[trigger] d->kids[i]) by { assert(stands_for(d->kids[i], q.tail@[i].1@, d2->kids[i])); }
}
// every derivation of the MCFG has a counterpart with the same weights and value, every derivation of the LCFRS is one
proof fn same_derivations<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, init: N, qs: Seq<PMCFGRule<(N, BTreeSet<usize>), T, W>>)
    requires
        lcfrs_of(rs, init, qs), forall|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) ==> comp(r).len() <= usize::MAX && r.tail@.len() <= usize::MAX,
        exists|m: Map<&N, usize>| #[trigger] fans_of(m, rs) && grounded(m, rs),
    ensures
        forall|d: Deriv<PMCFGRule<N, T, W>>| #[trigger] derives(rs, init, d) ==> exists|d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>| #[trigger] derives2(qs, init, Set::empty(), d2) && weights(d2) == weights(d) && value(d2) == value(d),
        forall|d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>| #[trigger] derives2(qs, init, Set::empty(), d2) ==> exists|d: Deriv<PMCFGRule<N, T, W>>| #[trigger] derives(rs, init, d) && weights(d) == weights(d2) && value(d) == value(d2),
{
    let (m, ps) = choose|m: Map<&N, usize>, ps: Seq<(N, Set<usize>)>| #[trigger] fans_of(m, rs) && #[trigger] reachable(m, rs, init, ps) && converted_for(m, rs, ps, qs);
    let m2 = choose|m: Map<&N, usize>| #[trigger] fans_of(m, rs) && grounded(m, rs);
    assert(m =~= m2) by { assert forall|n: &N| m.contains_key(n) implies m[n] == m2[n] by { assert(has_rule(rs, *n)); let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).head == *n; assert(m[&rs[k].head] == m2[&rs[k].head]); } }
    assert(sized(m, rs)) by { assert forall|r: PMCFGRule<N, T, W>| #[trigger] rs.contains(r) implies comp(r).len() == m[&r.head] && m.contains_key(&r.head) by { let k = rs.index_of(r); assert(rs[k] == r); assert(has_rule(rs, rs[k].head)); } }
    let none = Set::<usize>::empty();
    assert(ps.contains((init, none)));
    assert forall|d: Deriv<PMCFGRule<N, T, W>>| #[trigger] derives(rs, init, d) implies exists|d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>| #[trigger] derives2(qs, init, none, d2) && weights(d2) == weights(d) && value(d2) == value(d) by {
        none_lost(m, rs, init, ps, qs, init, none, d);
        parts(d);
        keep_all(value(d));
    }
    assert forall|d2: Deriv<PMCFGRule<(N, BTreeSet<usize>), T, W>>| #[trigger] derives2(qs, init, none, d2) implies exists|d: Deriv<PMCFGRule<N, T, W>>| #[trigger] derives(rs, init, d) && weights(d) == weights(d2) && value(d) == value(d2) by {
        none_added(m, rs, ps, qs, init, none, d2);
        keep_all(value(back(m, rs, ps, d2)));
    }
}
proof fn keep_all<A>(c: Seq<A>)
    requires c.len() <= usize::MAX
    ensures keep(c, Set::empty()) == c
{ keep_all_to(c, c.len() as int); assert(numbered(c).take(c.len() as int) =~= numbered(c)); }
proof fn keep_all_to<A>(c: Seq<A>, p: int)
    requires 0 <= p <= c.len() <= usize::MAX
    ensures kept_to(c, Set::empty(), p) == c.take(p)
    decreases p
{ if p > 0 { keep_all_to(c, p - 1); kept_step(c, Set::empty(), p - 1); assert(c.take(p) =~= c.take(p - 1).push(c[p - 1])); } else { assert(kept_to(c, Set::empty(), 0) =~= c.take(0)); } }
} // verus!
