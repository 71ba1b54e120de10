// C06: which rule lists are LCFRSs.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, hash_map::Entry};
use std::hash::Hash;
verus! {
broadcast use group_hash_axioms;

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/eq.rs
//@@ include lib/vecmultimap.rs
//@@ include lib/rule.rs

//@@ type src/grammars/lcfrs/mod.rs Lcfrs
//@@ end

//@@ include lib/entry.rs

// ---- sorting numbers (assumed contract of slice::sort) ----
spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
#[verifier::external_body]
fn vt_sort(v: &mut Vec<usize>)
    ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset()
{ v.sort() }

//@@ include lib/fanouts.rs

// ---- what an LCFRS is ----
// every variable (i, j) with i < number of successors and j < fanout of successor i is used exactly once, no other is used
spec fn linear<T>(c: Seq<Vec<VarT<T>>>, fs: Seq<usize>) -> bool {
    forall|i: usize, j: usize| #[trigger] uses(c, i as int, j as int) == (if i < fs.len() && j < fs[i as int] { 1nat } else { 0nat })
}
// fs lists the fanouts of the nonterminals ns
spec fn fans<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, ns: Seq<N>, fs: Seq<usize>) -> bool {
    fs.len() == ns.len() && forall|i: int| 0 <= i < ns.len() ==> has_fan(rs, #[trigger] ns[i], fs[i] as int)
}
spec fn rule_ok<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>) -> bool {
    exists|fs: Seq<usize>| #[trigger] fans(rs, r.tail@, fs) && linear(comp(r), fs)
}
spec fn is_lcfrs<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, init: N) -> bool {
    &&& consistent(rs)
    &&& has_fan(rs, init, 1)
    &&& forall|k: int| 0 <= k < rs.len() ==> rule_ok(rs, #[trigger] rs[k])
}

// ---- linearity ----
spec fn padded(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, n: int) -> bool { b.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] at(b, i) == at(a, i) }
fn vt_resize(v: &mut Vec<Vec<usize>>, n: usize, x: Vec<usize>)
    requires x@.len() == 0
    ensures padded(old(v)@, final(v)@, n as int)
{
    v.resize(n, x);
    assert forall|i: int| 0 <= i < n implies #[trigger] at(v@, i) == at(old(v)@, i) by { assert(at(v@, i) =~= at(old(v)@, i)); }
}

spec fn second_of(i: usize) -> spec_fn((usize, usize)) -> Option<usize> { |p: (usize, usize)| if p.0 == i { Some(p.1) } else { None } }
// the components of successor i that occur, in order
spec fn js_of(s: Seq<(usize, usize)>, i: int) -> Seq<usize> { picked(s, second_of(i as usize)) }
spec fn exactly(s: Seq<usize>, n: int) -> bool { forall|j: usize| #[trigger] s.to_multiset().count(j) == (if j < n { 1nat } else { 0nat }) }
proof fn js_count(s: Seq<(usize, usize)>, i: usize, j: usize)
    ensures js_of(s, i as int).to_multiset().count(j) == s.to_multiset().count((i, j))
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        let l = s.drop_last();
        js_count(l, i, j);
        assert(s =~= l.push(s.last()));
        assert(s.to_multiset() =~= l.to_multiset().insert(s.last()));
    }
}
proof fn range_counts(n: int)
    requires 0 <= n <= usize::MAX
    ensures exactly(range(0, n), n), sorted(range(0, n))
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if n > 0 {
        range_counts(n - 1);
        let l = range(0, n - 1);
        assert(range(0, n) =~= l.push((n - 1) as usize));
        assert(range(0, n).to_multiset() =~= l.to_multiset().insert((n - 1) as usize));
        assert forall|j: usize| #[trigger] range(0, n).to_multiset().count(j) == (if j < n { 1nat } else { 0nat }) by { assert(l.to_multiset().count(j) == (if j < n - 1 { 1nat } else { 0nat })); }
    }
}
proof fn sorted_range(s: Seq<usize>, w: Seq<usize>, n: int)
    requires sorted(s), s.to_multiset() == w.to_multiset(), 0 <= n <= usize::MAX
    ensures s == range(0, n) <==> exactly(w, n)
{
    range_counts(n);
    if exactly(w, n) {
        let r = range(0, n);
        assert forall|j: usize| #[trigger] r.to_multiset().count(j) == s.to_multiset().count(j) by { assert(w.to_multiset().count(j) == (if j < n { 1nat } else { 0nat })); }
        assert(r.to_multiset() =~= s.to_multiset());
        let leq = |a: usize, b: usize| a <= b;
        assert(vstd::relations::sorted_by(s, leq));
        assert(vstd::relations::sorted_by(r, leq));
        vstd::seq_lib::lemma_sorted_unique(s, r, leq);
    }
}
// occ holds the components that occur among the variables s
spec fn held(occ: Seq<Vec<usize>>, s: Seq<(usize, usize)>, n: int) -> bool {
    &&& occ.len() <= n
    &&& forall|i: int| 0 <= i <= usize::MAX ==> #[trigger] at(occ, i) == js_of(s, i)
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < n
}
proof fn held_push(occ: Seq<Vec<usize>>, occ2: Seq<Vec<usize>>, s: Seq<(usize, usize)>, n: int, p: (usize, usize))
    requires held(occ, s, n), p.0 < n <= usize::MAX, upd(occ, occ2, p.0 as int, at(occ, p.0 as int).push(p.1)), occ2.len() == grown(occ.len() as int, p.0 as int)
    ensures held(occ2, s.push(p), n)
{
    assert(s.push(p).drop_last() =~= s);
    assert forall|i: int| 0 <= i <= usize::MAX implies #[trigger] at(occ2, i) == js_of(s.push(p), i) by { assert(at(occ, i) == js_of(s, i)); }
}
proof fn unused(c: Seq<(usize, usize)>, k: int)
    requires 0 <= k < c.len()
    ensures c.to_multiset().count(c[k]) > 0
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(c.contains(c[k])); }
proof fn decided<T>(c: Seq<Vec<VarT<T>>>, fs: Seq<usize>, occ: Seq<Vec<usize>>)
    requires held(occ, vars(c), fs.len() as int), occ.len() == fs.len(), fs.len() <= usize::MAX
    ensures linear(c, fs) <==> forall|i: int| 0 <= i < fs.len() ==> exactly((#[trigger] occ[i])@, fs[i] as int)
{
    let s = vars(c);
    assert forall|i: usize, j: usize| i < fs.len() implies #[trigger] uses(c, i as int, j as int) == occ[i as int]@.to_multiset().count(j) by {
        js_count(s, i, j);
        assert(at(occ, i as int) == js_of(s, i as int));
    }
    assert forall|i: usize, j: usize| i >= fs.len() implies #[trigger] uses(c, i as int, j as int) == 0 by {
        js_count(s, i, j);
        assert(at(occ, i as int) == js_of(s, i as int));
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
    }
    if linear(c, fs) {
        assert forall|i: int| 0 <= i < fs.len() implies exactly((#[trigger] occ[i])@, fs[i] as int) by {
            assert forall|j: usize| #[trigger] occ[i]@.to_multiset().count(j) == (if j < fs[i] { 1nat } else { 0nat }) by { assert(uses(c, i as usize as int, j as int) == occ[i]@.to_multiset().count(j)); }
        }
    }
    if forall|i: int| 0 <= i < fs.len() ==> exactly((#[trigger] occ[i])@, fs[i] as int) {
        assert forall|i: usize, j: usize| #[trigger] uses(c, i as int, j as int) == (if i < fs.len() && j < fs[i as int] { 1nat } else { 0nat }) by {
            if i < fs.len() { assert(exactly(occ[i as int]@, fs[i as int] as int)); assert(uses(c, i as int, j as int) == occ[i as int]@.to_multiset().count(j)); }
        }
    }
}

//@@ fn src/grammars/lcfrs/mod.rs check_composition
//@ params composition fanouts
//@ ret r
//@ ensures r == linear(composition@, fanouts@)
//@ local occurs 0
//@ forpat 0 i j
//@ mapmethod iter vt_iter
//@ mapmethod flat_map vt_flat_map_into
//@ mapmethod filter_map vt_filter_map
//@ mapmethod into_iter . vt_into
//@ mapmethod collect . vt_into
//@ mapmethod enumerate vt_enumerate
//@ mapmethod all vt_all
//@ mapmethod sort vt_sort & mut
//@ mapmethod resize vt_resize & mut
//@ mapindex VecMultiMapAdapter VecMultiMapAdapter::index_mut_ & mut
//@ eqs
//@ closure 0 (x: &Vec<VarT<T>>) -> (u: Vec<&VarT<T>>)
    ensures u@ == refs(x@)
//@ closure 1 (x: &VarT<T>) -> (u: Option<(usize, usize)>)
    ensures u == var_of(x)
//@ closure 2 (x: (usize, Vec<usize>)) -> (b: bool)
    requires x.0 < fanouts@.len()
    ensures b == exactly(x.1@, fanouts@[x.0 as int] as int)
//@ closurestart 2
    proof {
        let n = fanouts@[x.0 as int] as int;
        assert forall|s: Seq<usize>| #[trigger] sorted(s) && s.to_multiset() == x.1@.to_multiset() implies (s == range(0, n) <==> exactly(x.1@, n)) by { sorted_range(s, x.1@, n); }
    }
//@ before 0
    let ghost vs = vars(composition@);
//@ loop 0 for it
    invariant
        vs == vars(composition@), it.seq() == vs,
        held(occurs@, vs.take(it.index@), fanouts@.len() as int),
//@ loopstart 0
    let ghost occ = occurs@;
    proof {
        broadcast use seq_facts;
        let k = it.index@;
        assert(vs[k] == (i, j));
        assert(vs.take(k + 1) =~= vs.take(k).push((i, j)));
        if i >= fanouts@.len() {
            unused(vs, k);
            assert(uses(composition@, i as int, j as int) > 0);
        }
    }
//@ loopend 0
    proof { held_push(occ, occurs@, vs.take(it.index@), fanouts@.len() as int, (i, j)); }
//@ after 0
    proof {
        assert(vs.take(vs.len() as int) =~= vs);
        let occ = occurs@;
        let c = composition@;
        let fs = fanouts@;
        assert(fs.len() == fanouts.len());
        assert forall|b: Seq<Vec<usize>>| #[trigger] padded(occ, b, fs.len() as int) implies (linear(c, fs) <==> forall|i: int| 0 <= i < fs.len() ==> exactly((#[trigger] b[i])@, fs[i] as int)) by {
            assert(held(b, vs, fs.len() as int)) by {
                assert forall|i: int| 0 <= i <= usize::MAX implies #[trigger] at(b, i) == js_of(vs, i) by { assert(at(occ, i) == js_of(vs, i)); }
            }
            decided(c, fs, b);
        }
    }
//@@ end

proof fn rule_ok_by<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>)
    requires fans_of(m, rs)
    ensures rule_ok(rs, r) <==> known(m, r.tail@) && linear(comp(r), fs_of(m, r.tail@))
{
    fans_consistent(m, rs);
    let ns = r.tail@;
    if rule_ok(rs, r) {
        let fs = choose|fs: Seq<usize>| #[trigger] fans(rs, ns, fs) && linear(comp(r), fs);
        assert forall|i: int| 0 <= i < ns.len() implies m.contains_key(&#[trigger] ns[i]) && m[&ns[i]] == fs[i] by { assert(has_fan(rs, ns[i], fs[i] as int)); }
        assert(fs =~= fs_of(m, ns));
    }
    if known(m, ns) && linear(comp(r), fs_of(m, ns)) {
        let fs = fs_of(m, ns);
        assert forall|i: int| 0 <= i < ns.len() implies has_fan(rs, #[trigger] ns[i], fs[i] as int) by { assert(m.contains_key(&ns[i])); }
        assert(fans(rs, ns, fs));
    }
}

proof fn lcfrs_by<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, init: N)
    requires fans_of(m, rs)
    ensures is_lcfrs(rs, init) <==> m.contains_key(&init) && m[&init] == 1
        && (forall|k: int| 0 <= k < rs.len() ==> known(m, (#[trigger] rs[k]).tail@))
        && (forall|k: int| 0 <= k < rs.len() ==> linear(comp(#[trigger] rs[k]), fs_of(m, rs[k].tail@)))
{
    fans_consistent(m, rs);
    assert forall|k: int| 0 <= k < rs.len() implies (rule_ok(rs, #[trigger] rs[k]) <==> known(m, rs[k].tail@) && linear(comp(rs[k]), fs_of(m, rs[k].tail@))) by { rule_ok_by(m, rs, rs[k]); }
    assert(has_fan(rs, init, 1usize as int) <==> m.contains_key(&init) && m[&init] == 1);
}

//@@ fn src/grammars/lcfrs/mod.rs Lcfrs::new
//@ afterlet 0
    proof { lcfrs_by(fanouts@, rules@, init); }
    assert(forall|k: int| 0 <= k < rules@.len() ==> *#[trigger] refs(rules@)[k] == rules@[k]);
//@ params rules init
//@ ret r
//@ requires obeys_key_model::<&N>()
//@ ensures
    match r { Some(g) => is_lcfrs(rules@, init) && g.rules@ == rules@ && g.init == init, None => !is_lcfrs(rules@, init) },
//@ local fanouts 0
//@ mapmethod iter vt_iter &
//@ mapmethod map vt_map
//@ mapmethod collect vt_collect
//@ mapmethod all vt_all
//@ mapmethod any vt_any
//@ mapmethod contains_key vt_knows &
//@ mapindex fanouts vt_at &
//@ closure 0 (rule: &PMCFGRule<N, T, W>) -> (b: bool)
    requires known(fanouts@, rule.tail@)
    ensures b == linear(comp(*rule), fs_of(fanouts@, rule.tail@))
//@ closurestart 0
    proof {
        let ns = rule.tail@;
        assert forall|s: Seq<usize>| s.len() == ns.len() && (forall|i: int| 0 <= i < ns.len() ==> s[i] == fanouts@[&#[trigger] ns[i]]) implies #[trigger] linear(comp(*rule), s) == linear(comp(*rule), fs_of(fanouts@, ns)) by { assert(s =~= fs_of(fanouts@, ns)); }
        assert forall|i: int| 0 <= i < ns.len() implies fanouts@.contains_key(#[trigger] refs(ns)[i]) by { assert(fanouts@.contains_key(&ns[i])); }
    }
//@ closure 1 (nt: &N) -> (n: usize)
    requires fanouts@.contains_key(nt)
    ensures n == fanouts@[nt]
//@ closure 2 (rule: &PMCFGRule<N, T, W>) -> (b: bool)
    ensures b == !known(fanouts@, rule.tail@)
//@ closure 3 (nt: &N) -> (b: bool)
    ensures b == !fanouts@.contains_key(nt)
//@@ end

// ---- normal form: no empty component; only variables, or one component that is one terminal ----
spec fn normal<N, T, W>(r: PMCFGRule<N, T, W>) -> bool {
    let c = comp(r);
    &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k])@.len() > 0
    &&& only_vars(c) || (c.len() == 1 && c[0]@.len() == 1 && c[0]@[0] is T)
}
spec fn only_vars<T>(c: Seq<Vec<VarT<T>>>) -> bool { forall|k: int, l: int| 0 <= k < c.len() && 0 <= l < c[k]@.len() ==> #[trigger] c[k]@[l] is Var }
proof fn in_flat<'a, T>(c: Seq<Vec<VarT<T>>>, l: int)
    requires 0 <= l < symbols::<'a, T>(c).len()
    ensures exists|k: int, m: int| 0 <= k < c.len() && 0 <= m < c[k]@.len() && #[trigger] c[k]@[m] == *symbols::<'a, T>(c)[l]
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last();
        assert(refs::<'a, Vec<VarT<T>>>(c).drop_last() =~= refs::<'a, Vec<VarT<T>>>(d));
        let n = symbols::<'a, T>(d).len() as int;
        if l < n {
            in_flat(d, l);
            let (k, m) = choose|k: int, m: int| 0 <= k < d.len() && 0 <= m < d[k]@.len() && #[trigger] d[k]@[m] == *symbols::<'a, T>(d)[l];
            assert(c[k]@[m] == *symbols::<'a, T>(c)[l]);
        } else {
            assert(c[c.len() - 1]@[l - n] == *symbols::<'a, T>(c)[l]);
        }
    }
}
proof fn flat_has<'a, T>(c: Seq<Vec<VarT<T>>>, k: int, m: int)
    requires 0 <= k < c.len(), 0 <= m < c[k]@.len()
    ensures exists|l: int| 0 <= l < symbols::<'a, T>(c).len() && *#[trigger] symbols::<'a, T>(c)[l] == c[k]@[m]
    decreases c.len()
{
    let d = c.drop_last();
    assert(refs::<'a, Vec<VarT<T>>>(c).drop_last() =~= refs::<'a, Vec<VarT<T>>>(d));
    let n = symbols::<'a, T>(d).len() as int;
    if k < d.len() {
        flat_has(d, k, m);
        let l = choose|l: int| 0 <= l < symbols::<'a, T>(d).len() && *#[trigger] symbols::<'a, T>(d)[l] == d[k]@[m];
        assert(*symbols::<'a, T>(c)[l] == c[k]@[m]);
    } else {
        assert(*symbols::<'a, T>(c)[n + m] == c[k]@[m]);
    }
}
proof fn only_vars_flat<'a, T>(c: Seq<Vec<VarT<T>>>)
    ensures only_vars(c) <==> forall|l: int| 0 <= l < symbols::<'a, T>(c).len() ==> *#[trigger] symbols::<'a, T>(c)[l] is Var
{
    if only_vars(c) { assert forall|l: int| 0 <= l < symbols::<'a, T>(c).len() implies *#[trigger] symbols::<'a, T>(c)[l] is Var by { in_flat(c, l); } }
    if forall|l: int| 0 <= l < symbols::<'a, T>(c).len() ==> *#[trigger] symbols::<'a, T>(c)[l] is Var {
        assert forall|k: int, m: int| 0 <= k < c.len() && 0 <= m < c[k]@.len() implies #[trigger] c[k]@[m] is Var by { flat_has(c, k, m); }
    }
}

//@@ fn src/grammars/lcfrs/mod.rs Lcfrs::in_normal_form
//@ ret r
//@ ensures r == (forall|k: int| 0 <= k < self.rules@.len() ==> normal(#[trigger] self.rules@[k]))
//@ mapmethod iter . vt_each
//@ mapmethod flat_map vt_flat_map_into
//@ mapmethod all vt_all
//@ mapindex composition Composition::component &
//@ closure 0 (r: &PMCFGRule<N, T, W>) -> (b: bool)
    ensures b == normal(*r)
//@ closurestart 0
    proof { only_vars_flat(comp(*r)); }
//@ closure 1 (c: &Vec<VarT<T>>) -> (b: bool)
    ensures b == (c@.len() > 0)
//@ closure 2 (v: &Vec<VarT<T>>) -> (u: &Vec<VarT<T>>)
    ensures u == v
//@ closure 3 (s: &VarT<T>) -> (b: bool)
    ensures b == (*s is Var)
//@@ end

//@@ fn src/grammars/lcfrs/mod.rs Lcfrs::destruct
//@ ret r
//@ ensures r.0@ == self.rules@, r.1 == self.init
//@@ end
} // verus!
