// ---- lib/filed.rs: transitions filed in a table; needs lib/numbered_runs.rs, Filed<Q, T, W> (the transitions), source_of (an instruction's key) ----
type FiledTable<W> = Map<usize, BinaryHeap<Filed<usize, usize, W>>>;
spec fn among_at<K, I, T, W>(m: Map<K, BinaryHeap<Transition<I, T, W>>>, k: K) -> Multiset<Transition<I, T, W>> { if m.contains_key(k) { heap_els(m[k]) } else { Multiset::empty() } }
spec fn leaves<T, W>(k: usize) -> spec_fn(Filed<usize, T, W>) -> bool { |c: Filed<usize, T, W>| source_of(c.instruction) == k }
// each transition is at its source
spec fn spread<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>, cs: Seq<Filed<usize, T, W>>) -> bool {
    forall|k: usize| #[trigger] among_at(m, k) == cs.filter(leaves::<T, W>(k)).to_multiset()
}
proof fn spread_none<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>)
    requires m == Map::<usize, BinaryHeap<Filed<usize, T, W>>>::empty()
    ensures forall|cs: Seq<Filed<usize, T, W>>| spread(m, #[trigger] cs.take(0))
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    reveal(Seq::filter);
    assert forall|k: usize| #[trigger] among_at(m, k) == Seq::<Filed<usize, T, W>>::empty().filter(leaves::<T, W>(k)).to_multiset() by {
        let s = Seq::<Filed<usize, T, W>>::empty().filter(leaves::<T, W>(k));
        assert(s =~= Seq::empty());
        assert(s.to_multiset() =~= Multiset::empty());
    }
    assert forall|cs: Seq<Filed<usize, T, W>>| spread(m, #[trigger] cs.take(0)) by { assert(cs.take(0) =~= Seq::empty()); }
}
proof fn spread_more<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>, n: Map<usize, BinaryHeap<Filed<usize, T, W>>>, cs: Seq<Filed<usize, T, W>>, j: int)
    requires
        0 <= j < cs.len(), spread(m, cs.take(j)),
        exists|h: BinaryHeap<Filed<usize, T, W>>| n == #[trigger] m.insert(source_of(cs[j].instruction), h) && heap_els(h) == among_at(m, source_of(cs[j].instruction)).insert(cs[j]),
    ensures spread(n, cs.take(j + 1))
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    reveal(Seq::filter);
    let (a, b) = (cs.take(j), cs.take(j + 1));
    assert(b.drop_last() =~= a);
    assert(b.last() == cs[j]);
    assert forall|k: usize| #[trigger] among_at(n, k) == b.filter(leaves::<T, W>(k)).to_multiset() by {
        let p = leaves::<T, W>(k);
        assert(among_at(m, k) == a.filter(p).to_multiset());
        if p(cs[j]) { assert(b.filter(p) =~= a.filter(p).push(cs[j])); assert(b.filter(p).to_multiset() =~= a.filter(p).to_multiset().insert(cs[j])); } else { assert(b.filter(p) =~= a.filter(p)); }
    }
}
// the transitions ts are filed in m, in numbers
spec fn filed<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, ts: Seq<Filed<Q, T, W>>, m: FiledTable<W>) -> bool {
    exists|cs: Seq<Filed<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread(m, cs)
}
proof fn filed_none<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(ts: Seq<Filed<Q, T, W>>, m: FiledTable<W>)
    requires m == FiledTable::<W>::empty()
    ensures
        forall|cs: Seq<Filed<usize, usize, W>>| spread(m, #[trigger] cs.take(0)),
        forall|i: Seq<T>, j: Seq<Q>| ts.len() == 0 ==> #[trigger] filed(i, j, ts, m),
{
    spread_none(m);
    let none = Seq::<Filed<usize, usize, W>>::empty();
    assert(none.take(0) =~= none);
    assert forall|i: Seq<T>, j: Seq<Q>| ts.len() == 0 implies #[trigger] filed(i, j, ts, m) by { assert(coded(i, j, ts, none)); }
}
proof fn filed_more<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, ts: Seq<Filed<Q, T, W>>, m: FiledTable<W>, n: FiledTable<W>, cs: Seq<Filed<usize, usize, W>>, k: int)
    requires
        0 <= k < cs.len(), spread(m, cs.take(k)), coded(i, j, ts, cs),
        exists|h: BinaryHeap<Filed<usize, usize, W>>| n == #[trigger] m.insert(source_of(cs[k].instruction), h) && heap_els(h) == among_at(m, source_of(cs[k].instruction)).insert(cs[k]),
    ensures spread(n, cs.take(k + 1)), k + 1 == cs.len() ==> filed(i, j, ts, n)
{
    spread_more(m, n, cs, k);
    if k + 1 == cs.len() { assert(cs.take(k + 1) =~= cs); }
}
proof fn filter_within<A>(s: Seq<A>, p: spec_fn(A) -> bool, c: A)
    requires s.filter(p).contains(c)
    ensures s.contains(c) && p(c)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let (r, x) = (s.drop_last(), s.last());
        let k = choose|k: int| 0 <= k < s.filter(p).len() && s.filter(p)[k] == c;
        assert(s[s.len() - 1] == x);
        if p(x) && k == s.filter(p).len() - 1 { assert(c == x); } else {
            assert(r.filter(p)[k] == c);
            filter_within(r, p, c);
            let l = choose|l: int| 0 <= l < r.len() && r[l] == c;
            assert(s[l] == c);
        }
    }
}
proof fn spread_at<T, W>(m: Map<usize, BinaryHeap<Filed<usize, T, W>>>, cs: Seq<Filed<usize, T, W>>, k: usize, c: Filed<usize, T, W>)
    requires spread(m, cs)
    ensures among_at(m, k).contains(c) <==> cs.contains(c) && source_of(c.instruction) == k
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let p = leaves::<T, W>(k);
    assert(among_at(m, k) == cs.filter(p).to_multiset());
    broadcast use vstd::seq_lib::group_filter_ensures;
    if cs.contains(c) && p(c) { cs.lemma_filter_contains_rev(p, c); }
    if cs.filter(p).contains(c) { filter_within(cs, p, c); }
}
