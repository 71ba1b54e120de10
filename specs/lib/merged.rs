// ---- lib/merged.rs: transitions of push-down automata, those with the same word and instruction made one; needs PdTrans, lib/listing.rs, lib/filed.rs with Filed = PdTrans ----
type PdKey<Q, T> = (Vec<T>, PushDownInstruction<Q>);
// the trait of the crate num-traits (signature as used here)
pub trait Zero: Sized { spec fn nought() -> Self; fn zero() -> (r: Self) ensures r == Self::nought(); }
spec fn key_of<Q, T, W>(t: PdTrans<Q, T, W>) -> PdKey<Q, T> { (t.word, t.instruction) }
spec fn weighing<Q, T, W>(t: PdTrans<Q, T, W>, w: W) -> PdTrans<Q, T, W> { Transition { word: t.word, weight: w, instruction: t.instruction } }
spec fn plus<W: AddAssign>(a: W, b: W) -> W { *a.add_assign_spec(b) }
spec fn addable<W: AddAssign>() -> bool { W::obeys_add_assign_spec() && forall|a: W, b: W| #[trigger] a.add_assign_req(b) }
spec fn has_key<Q, T, W>(ms: Seq<PdTrans<Q, T, W>>, k: PdKey<Q, T>) -> bool { exists|l: int| 0 <= l < ms.len() && key_of(#[trigger] ms[l]) == k }
spec fn spot<Q, T, W>(ms: Seq<PdTrans<Q, T, W>>, k: PdKey<Q, T>) -> int { choose|l: int| 0 <= l < ms.len() && key_of(#[trigger] ms[l]) == k }
// t with the others: its weight is added to that of the one with its word and instruction, if there is one, and to nought otherwise
spec fn put<Q, T, W: AddAssign + Zero>(ms: Seq<PdTrans<Q, T, W>>, t: PdTrans<Q, T, W>) -> Seq<PdTrans<Q, T, W>> {
    if has_key(ms, key_of(t)) { ms.update(spot(ms, key_of(t)), weighing(t, plus(ms[spot(ms, key_of(t))].weight, t.weight))) } else { ms.push(weighing(t, plus(W::nought(), t.weight))) }
}
spec fn merged<Q, T, W: AddAssign + Zero>(ts: Seq<PdTrans<Q, T, W>>) -> Seq<PdTrans<Q, T, W>>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { put(merged(ts.drop_last()), ts.last()) } }
// no two of ms have the same word and instruction
spec fn unmixed<Q, T, W>(ms: Seq<PdTrans<Q, T, W>>) -> bool { forall|k: int, l: int| 0 <= k < l < ms.len() ==> key_of(#[trigger] ms[k]) != key_of(#[trigger] ms[l]) }
spec fn weight_in<Q, T, W>(ms: Seq<PdTrans<Q, T, W>>, k: PdKey<Q, T>) -> Option<W> { if has_key(ms, k) { Some(ms[spot(ms, k)].weight) } else { None } }
proof fn only_spot<Q, T, W>(ms: Seq<PdTrans<Q, T, W>>, l: int)
    requires unmixed(ms), 0 <= l < ms.len()
    ensures has_key(ms, key_of(ms[l])), spot(ms, key_of(ms[l])) == l, weight_in(ms, key_of(ms[l])) == Some(ms[l].weight)
{ let s = spot(ms, key_of(ms[l])); assert(key_of(ms[s]) == key_of(ms[l])); }
proof fn put_adds<Q, T, W: AddAssign + Zero>(ms: Seq<PdTrans<Q, T, W>>, t: PdTrans<Q, T, W>)
    requires unmixed(ms)
    ensures
        unmixed(put(ms, t)),
        weight_in(put(ms, t), key_of(t)) == Some(plus(match weight_in(ms, key_of(t)) { Some(w) => w, None => W::nought() }, t.weight)),
        forall|k: PdKey<Q, T>| k != key_of(t) ==> #[trigger] weight_in(put(ms, t), k) == weight_in(ms, k),
{
    let (ns, key) = (put(ms, t), key_of(t));
    let s = if has_key(ms, key) { spot(ms, key) } else { ms.len() as int };
    assert(key_of(ns[s]) == key);
    assert forall|l: int| 0 <= l < ms.len() && l != s implies #[trigger] ns[l] == ms[l] && key_of(ms[l]) != key by { if has_key(ms, key) { assert(key_of(ms[s]) == key); } }
    assert(unmixed(ns)) by {
        assert forall|k: int, l: int| 0 <= k < l < ns.len() implies key_of(#[trigger] ns[k]) != key_of(#[trigger] ns[l]) by { if k != s { assert(ns[k] == ms[k]); } if l != s { assert(ns[l] == ms[l]); } }
    }
    only_spot(ns, s);
    assert forall|k: PdKey<Q, T>| k != key implies #[trigger] weight_in(ns, k) == weight_in(ms, k) by {
        if has_key(ms, k) { let l = spot(ms, k); only_spot(ms, l); assert(ns[l] == ms[l]); only_spot(ns, l); }
        else if has_key(ns, k) { let l = spot(ns, k); assert(l != s); assert(ns[l] == ms[l]); }
    }
}
proof fn merged_unmixed<Q, T, W: AddAssign + Zero>(ts: Seq<PdTrans<Q, T, W>>)
    ensures unmixed(merged(ts))
    decreases ts.len()
{ if ts.len() > 0 { merged_unmixed(ts.drop_last()); put_adds(merged(ts.drop_last()), ts.last()); } }
// the words and instructions are those of ts
proof fn merged_from<Q, T, W: AddAssign + Zero>(ts: Seq<PdTrans<Q, T, W>>)
    ensures
        forall|l: int| 0 <= l < merged(ts).len() ==> has_key(ts, key_of(#[trigger] merged(ts)[l])),
        forall|l: int| 0 <= l < ts.len() ==> has_key(merged(ts), key_of(#[trigger] ts[l])),
    decreases ts.len()
{
    if ts.len() > 0 {
        let (r, t) = (ts.drop_last(), ts.last());
        let (ms, ns) = (merged(r), merged(ts));
        merged_from(r);
        merged_unmixed(r);
        put_adds(ms, t);
        let s = if has_key(ms, key_of(t)) { spot(ms, key_of(t)) } else { ms.len() as int };
        assert forall|l: int| 0 <= l < ns.len() implies has_key(ts, key_of(#[trigger] ns[l])) by {
            if l == s { assert(key_of(ts[ts.len() - 1]) == key_of(ns[l])); } else { assert(ns[l] == ms[l]); let k = spot(r, key_of(ms[l])); assert(ts[k] == r[k]); }
        }
        assert forall|l: int| 0 <= l < ts.len() implies has_key(ns, key_of(#[trigger] ts[l])) by {
            if l == ts.len() - 1 { assert(key_of(ns[s]) == key_of(t)); } else { assert(ts[l] == r[l]); let k = spot(ms, key_of(r[l])); assert(key_of(ns[k]) == key_of(ts[l])); }
        }
    }
}
// numbers are merged as labels are
proof fn same_word<T>(i: Seq<T>, v: Vec<T>, u: Vec<T>, n: Vec<usize>, m: Vec<usize>)
    requires distinct(i), spelt(i, v@, n@), spelt(i, u@, m@)
    ensures v == u <==> n == m
{
    if v == u {
        assert forall|k: int| 0 <= k < n@.len() implies n@[k] == m@[k] by { assert(numbers(i, v@[k], n@[k])); assert(numbers(i, u@[k], m@[k])); }
        assert(n@ =~= m@);
        same_list(n, m);
    }
    if n == m {
        assert forall|k: int| 0 <= k < v@.len() implies v@[k] == u@[k] by { assert(numbers(i, v@[k], n@[k])); assert(numbers(i, u@[k], m@[k])); }
        assert(v@ =~= u@);
        same_list(v, u);
    }
}
proof fn same_key<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, x: PdTrans<Q, T, W>, y: PdTrans<Q, T, W>, m: PdTrans<usize, usize, W>, n: PdTrans<usize, usize, W>)
    requires distinct(i), distinct(j), x.stands(i, j, m), y.stands(i, j, n)
    ensures key_of(x) == key_of(y) <==> key_of(m) == key_of(n)
{
    same_word(i, x.word, y.word, m.word, n.word);
    match (x.instruction, y.instruction, m.instruction, n.instruction) {
        (PushDownInstruction::Replace { current_val: a, new_val: b }, PushDownInstruction::Replace { current_val: c, new_val: d }, PushDownInstruction::Replace { current_val: e, new_val: f }, PushDownInstruction::Replace { current_val: g, new_val: h }) => { same_word(j, a, c, e, g); same_word(j, b, d, f, h); }
    }
}
proof fn put_coded<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone + AddAssign + Zero>(i: Seq<T>, j: Seq<Q>, ms: Seq<PdTrans<Q, T, W>>, ns: Seq<PdTrans<usize, usize, W>>, t: PdTrans<Q, T, W>, c: PdTrans<usize, usize, W>)
    requires distinct(i), distinct(j), coded(i, j, ms, ns), unmixed(ms), unmixed(ns), t.stands(i, j, c)
    ensures coded(i, j, put(ms, t), put(ns, c))
{
    assert forall|l: int| 0 <= l < ms.len() implies (key_of(#[trigger] ms[l]) == key_of(t) <==> key_of(ns[l]) == key_of(c)) by { assert(stands_for(i, j, ms, ns, l)); same_key(i, j, ms[l], t, ns[l], c); }
    if has_key(ms, key_of(t)) { let s = spot(ms, key_of(t)); assert(key_of(ns[s]) == key_of(c)); only_spot(ns, s); assert(stands_for(i, j, ms, ns, s)); }
    else if has_key(ns, key_of(c)) { let s = spot(ns, key_of(c)); assert(key_of(ms[s]) == key_of(t)); }
    let (a, b) = (put(ms, t), put(ns, c));
    assert forall|l: int| 0 <= l < b.len() implies #[trigger] stands_for(i, j, a, b, l) by { if l < ms.len() { assert(stands_for(i, j, ms, ns, l)); } }
}
proof fn merged_coded<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone + AddAssign + Zero>(i: Seq<T>, j: Seq<Q>, ts: Seq<PdTrans<Q, T, W>>, cs: Seq<PdTrans<usize, usize, W>>)
    requires distinct(i), distinct(j), coded(i, j, ts, cs)
    ensures coded(i, j, merged(ts), merged(cs))
    decreases ts.len()
{
    if ts.len() > 0 {
        let (us, ds) = (ts.drop_last(), cs.drop_last());
        assert forall|k: int| 0 <= k < ds.len() implies #[trigger] stands_for(i, j, us, ds, k) by { assert(stands_for(i, j, ts, cs, k)); }
        merged_coded(i, j, us, ds);
        merged_unmixed(us);
        merged_unmixed(ds);
        assert(stands_for(i, j, ts, cs, ts.len() - 1));
        put_coded(i, j, merged(us), merged(ds), ts.last(), cs.last());
    }
}
// ---- the table `new` fills ----
type PdTable<W> = Map<usize, HashMap<PdKey<usize, usize>, W>>;
spec fn entry_at<W>(m: PdTable<W>, k: usize, l: PdKey<usize, usize>) -> Option<W> { if m.contains_key(k) && m[k]@.contains_key(l) { Some(m[k]@[l]) } else { None } }
spec fn nested<W>(m: PdTable<W>, ms: Seq<PdTrans<usize, usize, W>>) -> bool { forall|k: usize, l: PdKey<usize, usize>| #[trigger] entry_at(m, k, l) == (if source_of(l.1) == k { weight_in(ms, l) } else { None }) }
proof fn nested_none<W: AddAssign + Zero>(m: PdTable<W>, cs: Seq<PdTrans<usize, usize, W>>)
    requires m == PdTable::<W>::empty()
    ensures nested(m, merged(cs.take(0)))
{}
spec fn base<W>(m: PdTable<W>, s: usize) -> Map<PdKey<usize, usize>, W> { if m.contains_key(s) { m[s]@ } else { Map::empty() } }
spec fn more<W: AddAssign + Zero>(h: Map<PdKey<usize, usize>, W>, k: PdKey<usize, usize>, w: W) -> Map<PdKey<usize, usize>, W> { h.insert(k, plus(if h.contains_key(k) { h[k] } else { W::nought() }, w)) }
proof fn nested_more<W: AddAssign + Zero>(m: PdTable<W>, n: PdTable<W>, cs: Seq<PdTrans<usize, usize, W>>, k: int)
    requires
        nested(m, merged(cs.take(k))), 0 <= k < cs.len(),
        n =~= m.insert(source_of(cs[k].instruction), n[source_of(cs[k].instruction)]),
        n[source_of(cs[k].instruction)]@ =~= more(base(m, source_of(cs[k].instruction)), key_of(cs[k]), cs[k].weight),
    ensures nested(n, merged(cs.take(k + 1)))
{
    let (ms, c) = (merged(cs.take(k)), cs[k]);
    assert(cs.take(k + 1).drop_last() =~= cs.take(k));
    merged_unmixed(cs.take(k));
    put_adds(ms, c);
    let (s, key, ns) = (source_of(c.instruction), key_of(c), put(ms, c));
    assert(merged(cs.take(k + 1)) == ns);
    assert forall|k: usize, l: PdKey<usize, usize>| #[trigger] entry_at(n, k, l) == (if source_of(l.1) == k { weight_in(ns, l) } else { None }) by {
        assert(entry_at(m, k, l) == if source_of(l.1) == k { weight_in(ms, l) } else { None });
        assert(entry_at(m, s, key) == weight_in(ms, key));
        if l == key { assert(source_of(l.1) == s); if k != s { assert(entry_at(n, k, l) == entry_at(m, k, l)); } } else { assert(entry_at(n, k, l) == entry_at(m, k, l)); }
    }
}
// b has one transition for each entry of h
spec fn heaped<W>(h: Map<PdKey<usize, usize>, W>, b: Multiset<PdTrans<usize, usize, W>>) -> bool { forall|t: PdTrans<usize, usize, W>| #[trigger] b.count(t) == (if h.contains_key(key_of(t)) && h[key_of(t)] == t.weight { 1nat } else { 0 }) }
spec fn entry_of<W>(e: (PdKey<usize, usize>, W)) -> PdTrans<usize, usize, W> { Transition { word: e.0.0, instruction: e.0.1, weight: e.1 } }
proof fn no_twice<X>(s: Seq<X>, x: X)
    requires s.no_duplicates()
    ensures s.to_multiset().count(x) == (if s.contains(x) { 1nat } else { 0 })
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    s.lemma_multiset_has_no_duplicates();
    assert(s.contains(x) <==> s.to_multiset().count(x) > 0);
    if s.contains(x) { assert(s.to_multiset().contains(x)); }
}
proof fn entries_heaped<W>(h: Map<PdKey<usize, usize>, W>, s: Seq<(PdKey<usize, usize>, W)>, r: Seq<PdTrans<usize, usize, W>>)
    requires one_each(h, s), r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == entry_of(s[i])
    ensures heaped(h, r.to_multiset())
{
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { assert(r[i] == entry_of(s[i]) && r[j] == entry_of(s[j])); assert(s[i].0 != s[j].0); assert(key_of(r[i]) == s[i].0); assert(key_of(r[j]) == s[j].0); }
    assert(r.no_duplicates());
    assert forall|t: PdTrans<usize, usize, W>| #[trigger] r.to_multiset().count(t) == (if h.contains_key(key_of(t)) && h[key_of(t)] == t.weight { 1nat } else { 0 }) by {
        no_twice(r, t);
        if r.contains(t) { let i = choose|i: int| 0 <= i < r.len() && r[i] == t; assert(key_of(t) == s[i].0 && t.weight == s[i].1); }
        if h.contains_key(key_of(t)) && h[key_of(t)] == t.weight { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == key_of(t); assert(r[i] == t); }
    }
}
// each of ms is at its source
proof fn nested_spread<W>(m: PdTable<W>, n: FiledTable<W>, ms: Seq<PdTrans<usize, usize, W>>)
    requires nested(m, ms), unmixed(ms), forall|k: usize| #[trigger] n.contains_key(k) <==> m.contains_key(k), forall|k: usize| #[trigger] n.contains_key(k) ==> heaped(m[k]@, heap_els(n[k]))
    ensures spread(n, ms)
{
    broadcast use group_multiset_axioms;
    assert forall|i: int, j: int| 0 <= i < j < ms.len() implies ms[i] != ms[j] by { assert(key_of(ms[i]) != key_of(ms[j])); }
    assert(ms.no_duplicates());
    assert forall|k: usize| #[trigger] among_at(n, k) == ms.filter(leaves::<usize, W>(k)).to_multiset() by {
        let p = leaves::<usize, W>(k);
        let f = ms.filter(p);
        assert forall|t: PdTrans<usize, usize, W>| #[trigger] among_at(n, k).count(t) == f.to_multiset().count(t) by {
            filter_count(ms, p, t);
            no_twice(ms, t);
            assert(entry_at(m, k, key_of(t)) == (if source_of(t.instruction) == k { weight_in(ms, key_of(t)) } else { None }));
            if ms.contains(t) { let l = choose|l: int| 0 <= l < ms.len() && ms[l] == t; only_spot(ms, l); }
            if source_of(t.instruction) == k && weight_in(ms, key_of(t)) == Some(t.weight) { let l = spot(ms, key_of(t)); assert(ms[l] == t); }
            if n.contains_key(k) { assert(among_at(n, k).count(t) == heap_els(n[k]).count(t)); assert(heaped(m[k]@, heap_els(n[k]))); }
        }
        assert(among_at(n, k) =~= f.to_multiset());
    }
}
