// ---- lib/listing.rs: listing the transitions of an automaton; needs lib/filed.rs, lib/decodable.rs with Filed<Q, T, W> ----
// the list s is the entries of m
spec fn one_each<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
proof fn filter_count<X>(s: Seq<X>, p: spec_fn(X) -> bool, x: X)
    ensures s.filter(p).to_multiset().count(x) == (if p(x) { s.to_multiset().count(x) } else { 0 })
    decreases s.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    reveal(Seq::filter);
    if s.len() > 0 {
        let (r, y) = (s.drop_last(), s.last());
        filter_count(r, p, x);
        assert(s =~= r.push(y));
        assert(s.to_multiset() =~= r.to_multiset().insert(y));
        if p(y) { assert(s.filter(p) =~= r.filter(p).push(y)); assert(s.filter(p).to_multiset() =~= r.filter(p).to_multiset().insert(y)); } else { assert(s.filter(p) =~= r.filter(p)); }
    } else { assert(s.filter(p) =~= s); assert(s =~= Seq::empty()); assert(s.to_multiset() =~= Multiset::empty()); }
}
// the list v is the values of m, one for each key
spec fn valued<K, V>(m: Map<K, V>, v: Seq<&V>) -> bool { exists|s: Seq<(K, V)>| #[trigger] one_each(m, s) && seconds(s) == vals(v) }
// what the values of a table are listed as (assumed: one for each key)
#[verifier::external_body]
fn vt_values<'m, K, V>(m: &'m Rc<HashMap<K, V>>) -> (r: Vec<&'m V>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::hash::RandomState>()
    ensures valued((**m)@, r@)
{ m.values().collect() }
spec fn seconds<K, V>(s: Seq<(K, V)>) -> Seq<V> { s.map_values(|e: (K, V)| e.1) }
// everything in the heaps hs
spec fn all_of<X>(hs: Seq<BinaryHeap<X>>) -> Multiset<X>
    decreases hs.len()
{ if hs.len() == 0 { Multiset::empty() } else { all_of(hs.drop_last()).add(heap_els(hs.last())) } }
proof fn spread_count<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>, cs: Seq<Filed<usize, T, W>>, k: usize, c: Filed<usize, T, W>)
    requires spread(m, cs)
    ensures among_at(m, k).count(c) == (if source_of(c.instruction) == k { cs.to_multiset().count(c) } else { 0 })
{ assert(among_at(m, k) == cs.filter(leaves::<T, W>(k)).to_multiset()); filter_count(cs, leaves::<T, W>(k), c); }
proof fn some_of<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>, cs: Seq<Filed<usize, T, W>>, s: Seq<(usize, BinaryHeap<Filed<usize, T, W>>)>, n: int, c: Filed<usize, T, W>)
    requires spread(m, cs), one_each(m, s), 0 <= n <= s.len()
    ensures all_of(seconds(s).take(n)).count(c) == (if exists|l: int| 0 <= l < n && (#[trigger] s[l]).0 == source_of(c.instruction) { cs.to_multiset().count(c) } else { 0 })
    decreases n
{
    broadcast use group_multiset_axioms;
    if n > 0 {
        some_of(m, cs, s, n - 1, c);
        assert(seconds(s).take(n).drop_last() =~= seconds(s).take(n - 1));
        assert(seconds(s).take(n).last() == s[n - 1].1);
        spread_count(m, cs, s[n - 1].0, c);
        assert(among_at(m, s[n - 1].0) == heap_els(s[n - 1].1));
        if s[n - 1].0 == source_of(c.instruction) { assert forall|l: int| 0 <= l < n - 1 implies (#[trigger] s[l]).0 != source_of(c.instruction) by { assert(s[l].0 != s[n - 1].0); } }
    }
}
proof fn spread_all<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>, cs: Seq<Filed<usize, T, W>>, s: Seq<(usize, BinaryHeap<Filed<usize, T, W>>)>)
    requires spread(m, cs), one_each(m, s)
    ensures all_of(seconds(s)) == cs.to_multiset()
{
    broadcast use group_multiset_axioms;
    assert(seconds(s).take(s.len() as int) =~= seconds(s));
    assert forall|c: Filed<usize, T, W>| #[trigger] all_of(seconds(s)).count(c) == cs.to_multiset().count(c) by {
        some_of(m, cs, s, s.len() as int, c);
        let k = source_of(c.instruction);
        spread_count(m, cs, k, c);
        if m.contains_key(k) { let l = choose|l: int| 0 <= l < s.len() && (#[trigger] s[l]).0 == k; assert(s[l].0 == k); }
    }
    assert(all_of(seconds(s)) =~= cs.to_multiset());
}
// the transitions r are what the numbers b stand for
spec fn undone<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, b: Multiset<Filed<usize, usize, W>>, r: Seq<Filed<Q, T, W>>) -> bool {
    exists|ds: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, r, ds) && ds.to_multiset() == b
}
proof fn undone_all<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, hs: Seq<BinaryHeap<Filed<usize, usize, W>>>, s: Seq<Seq<Filed<Q, T, W>>>)
    requires s.len() == hs.len(), forall|k: int| 0 <= k < s.len() ==> undone(i, j, heap_els(hs[k]), #[trigger] s[k])
    ensures undone(i, j, all_of(hs), concat(s))
    decreases s.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if s.len() == 0 {
        let none = Seq::<Filed<usize, usize, W>>::empty();
        assert(none.to_multiset() =~= Multiset::empty());
        assert(coded(i, j, concat(s), none));
    } else {
        let (t, gs) = (s.drop_last(), hs.drop_last());
        assert forall|k: int| 0 <= k < t.len() implies undone(i, j, heap_els(gs[k]), #[trigger] t[k]) by { assert(t[k] == s[k]); }
        undone_all(i, j, gs, t);
        let a = choose|ds: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, concat(t), ds) && ds.to_multiset() == all_of(gs);
        assert(undone(i, j, heap_els(hs[s.len() - 1]), s[s.len() - 1]));
        let b = choose|ds: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, s.last(), ds) && ds.to_multiset() == heap_els(hs.last());
        vstd::seq_lib::lemma_multiset_commutative(a, b);
        assert(concat(s) =~= concat(t) + s.last());
        assert forall|k: int| 0 <= k < (a + b).len() implies #[trigger] stands_for(i, j, concat(s), a + b, k) by {
            if k < a.len() { assert(stands_for(i, j, concat(t), a, k)); } else { assert(stands_for(i, j, s.last(), b, k - a.len())); }
        }
        assert(coded(i, j, concat(s), a + b));
    }
}
// numbers stand for one transition each
proof fn coded_same<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, ts: Seq<Filed<Q, T, W>>, cs: Seq<Filed<usize, usize, W>>, r: Seq<Filed<Q, T, W>>, ds: Seq<Filed<usize, usize, W>>)
    requires coded(i, j, ts, cs), coded(i, j, r, ds), ds.to_multiset() == cs.to_multiset()
    ensures r.to_multiset() == ts.to_multiset()
    decreases r.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    assert(ds.to_multiset().len() == ds.len() && cs.to_multiset().len() == cs.len());
    if r.len() == 0 { assert(r =~= ts); } else {
        let (x, c, s, es) = (r.last(), ds.last(), r.drop_last(), ds.drop_last());
        let n = r.len() - 1;
        assert(ds[n] == c && r[n] == x);
        assert(ds.contains(c));
        assert(ds.to_multiset().count(c) > 0);
        assert(cs.contains(c));
        let k = choose|k: int| 0 <= k < cs.len() && cs[k] == c;
        assert(stands_for(i, j, ts, cs, k));
        assert(stands_for(i, j, r, ds, n));
        transition_one(i, j, ts[k], x, c);
        let (us, fs) = (ts.remove(k), cs.remove(k));
        assert forall|l: int| 0 <= l < fs.len() implies #[trigger] stands_for(i, j, us, fs, l) by { if l < k { assert(stands_for(i, j, ts, cs, l)); } else { assert(stands_for(i, j, ts, cs, l + 1)); } }
        assert forall|l: int| 0 <= l < es.len() implies #[trigger] stands_for(i, j, s, es, l) by { assert(stands_for(i, j, r, ds, l)); }
        assert(es.push(c) =~= ds);
        assert(es.to_multiset().insert(c) == ds.to_multiset());
        assert(es.to_multiset() =~= ds.to_multiset().remove(c));
        assert(fs.to_multiset() =~= cs.to_multiset().remove(cs[k]));
        assert(us.to_multiset() =~= ts.to_multiset().remove(ts[k]));
        assert(fs.to_multiset() =~= es.to_multiset());
        coded_same(i, j, us, fs, s, es);
        assert(s.push(x) =~= r);
        assert(ts.contains(x)) by { assert(ts[k] == x); }
        assert(ts.to_multiset().count(x) > 0);
        assert(r.to_multiset() =~= ts.to_multiset());
    }
}
proof fn transition_one<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, x: Filed<Q, T, W>, y: Filed<Q, T, W>, c: Filed<usize, usize, W>)
    requires x.stands(i, j, c), y.stands(i, j, c)
    ensures x == y
{ spelt_one(i, x.word@, y.word@, c.word@); same_list(x.word, y.word); x.instruction.one_stands(&y.instruction, j, c.instruction); }
spec fn is_filed<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, m: FiledTable<W>) -> bool { exists|ts: Seq<Filed<Q, T, W>>| #[trigger] filed(i, j, ts, m) }
// r lists the transitions filed in m
spec fn lists_all<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, m: FiledTable<W>, r: Seq<Filed<Q, T, W>>) -> bool { forall|ts: Seq<Filed<Q, T, W>>| #[trigger] filed(i, j, ts, m) ==> r.to_multiset() == ts.to_multiset() }
spec fn heap_known<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, b: Multiset<Filed<usize, usize, W>>) -> bool { forall|c: Filed<usize, usize, W>| #[trigger] b.contains(c) ==> exists|x: Filed<Q, T, W>| #[trigger] x.stands(i, j, c) }
proof fn filed_known<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, m: FiledTable<W>, s: Seq<(usize, BinaryHeap<Filed<usize, usize, W>>)>)
    requires is_filed::<Q, T, W>(i, j, m), one_each(m, s)
    ensures forall|l: int| 0 <= l < s.len() ==> heap_known::<Q, T, W>(i, j, heap_els(#[trigger] seconds(s)[l]))
{
    let ts = choose|ts: Seq<Filed<Q, T, W>>| #[trigger] filed(i, j, ts, m);
    let cs = choose|cs: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread(m, cs);
    assert forall|l: int| 0 <= l < s.len() implies heap_known::<Q, T, W>(i, j, heap_els(#[trigger] seconds(s)[l])) by {
        assert(m.contains_key(s[l].0) && m[s[l].0] == s[l].1);
        assert forall|c: Filed<usize, usize, W>| #[trigger] heap_els(s[l].1).contains(c) implies exists|x: Filed<Q, T, W>| #[trigger] x.stands(i, j, c) by {
            spread_at(m, cs, s[l].0, c);
            assert(among_at(m, s[l].0).contains(c));
            let k = choose|k: int| 0 <= k < cs.len() && cs[k] == c;
            assert(stands_for(i, j, ts, cs, k));
        }
    }
}
proof fn listing_all<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, m: FiledTable<W>, s: Seq<(usize, BinaryHeap<Filed<usize, usize, W>>)>, r: Seq<Filed<Q, T, W>>)
    requires one_each(m, s), undone(i, j, all_of(seconds(s)), r)
    ensures lists_all(i, j, m, r)
{
    let ds = choose|ds: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, r, ds) && ds.to_multiset() == all_of(seconds(s));
    assert forall|ts: Seq<Filed<Q, T, W>>| #[trigger] filed(i, j, ts, m) implies r.to_multiset() == ts.to_multiset() by {
        let cs = choose|cs: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread(m, cs);
        spread_all(m, cs, s);
        coded_same(i, j, ts, cs, r, ds);
    }
}

// transitions in numbers are asked for in these symbols and labels
spec fn asked<T, Q>(i: Seq<T>, j: Seq<Q>) -> bool { true }
// flat_map over the heaps of a table
fn vt_undo_each<'m, Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone, F: Fn(&'m BinaryHeap<Filed<usize, usize, W>>) -> Vec<Filed<Q, T, W>>>(v: Vec<&'m BinaryHeap<Filed<usize, usize, W>>>, f: F) -> (r: Vec<Filed<Q, T, W>>)
    requires forall|k: int| 0 <= k < v@.len() ==> call_requires(f, (#[trigger] v@[k],))
    ensures forall|i: Seq<T>, j: Seq<Q>| #[trigger] asked(i, j) && (forall|k: int, c: Vec<Filed<Q, T, W>>| 0 <= k < v@.len() && #[trigger] call_ensures(f, (v@[k],), c) ==> undone(i, j, heap_els(*v@[k]), c@)) ==> undone(i, j, all_of(vals(v@)), r@)
{
    let r = vt_flat_map_into(v, f);
    proof {
        let s = choose|s: Seq<Vec<Filed<Q, T, W>>>| s.len() == v@.len() && r@ == concat(s.map_values(|c: Vec<Filed<Q, T, W>>| c.items())) && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (v@[i],), #[trigger] s[i]);
        let t = s.map_values(|c: Vec<Filed<Q, T, W>>| c.items());
        assert forall|i: Seq<T>, j: Seq<Q>| #[trigger] asked(i, j) && (forall|k: int, c: Vec<Filed<Q, T, W>>| 0 <= k < v@.len() && #[trigger] call_ensures(f, (v@[k],), c) ==> undone(i, j, heap_els(*v@[k]), c@)) implies undone(i, j, all_of(vals(v@)), r@) by {
            assert forall|k: int| 0 <= k < t.len() implies undone(i, j, heap_els(vals(v@)[k]), #[trigger] t[k]) by { assert(call_ensures(f, (v@[k],), s[k])); }
            undone_all(i, j, vals(v@), t);
        }
    }
    r
}
proof fn valued_listed<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, m: FiledTable<W>, v: Seq<&BinaryHeap<Filed<usize, usize, W>>>)
    requires is_filed::<Q, T, W>(i, j, m), valued(m, v)
    ensures
        forall|k: int| 0 <= k < v.len() ==> heap_known::<Q, T, W>(i, j, heap_els(*#[trigger] v[k])),
        forall|r: Seq<Filed<Q, T, W>>| #[trigger] undone(i, j, all_of(vals(v)), r) ==> lists_all(i, j, m, r),
{
    let s = choose|s: Seq<(usize, BinaryHeap<Filed<usize, usize, W>>)>| #[trigger] one_each(m, s) && seconds(s) == vals(v);
    filed_known::<Q, T, W>(i, j, m, s);
    assert forall|k: int| 0 <= k < v.len() implies heap_known::<Q, T, W>(i, j, heap_els(*#[trigger] v[k])) by { assert(seconds(s).len() == s.len() && vals(v).len() == v.len()); assert(vals(v)[k] == *v[k]); assert(heap_known::<Q, T, W>(i, j, heap_els(seconds(s)[k]))); }
    assert forall|r: Seq<Filed<Q, T, W>>| #[trigger] undone(i, j, all_of(vals(v)), r) implies lists_all(i, j, m, r) by { listing_all(i, j, m, s, r); }
}
proof fn undone_each<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, b: Multiset<Filed<usize, usize, W>>, v: Seq<&Filed<usize, usize, W>>, r: Seq<Filed<Q, T, W>>)
    requires vals(v).to_multiset() == b, r.len() == v.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] r[k]).stands(i, j, *v[k])
    ensures undone(i, j, b, r)
{
    assert forall|k: int| 0 <= k < vals(v).len() implies #[trigger] stands_for(i, j, r, vals(v), k) by { assert(r[k].stands(i, j, *v[k])); }
    assert(coded(i, j, r, vals(v)));
}
