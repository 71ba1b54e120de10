// ---- lib/single.rs: what occurs once ----
proof fn bind_once<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>, y: B)
    requires
        forall|x: A| #[trigger] m.count(x) <= 1, forall|x: A| #[trigger] m.contains(x) ==> f(x).count(y) <= 1,
        forall|x: A, z: A| #![trigger m.contains(x), m.contains(z)] m.contains(x) && m.contains(z) && f(x).contains(y) && f(z).contains(y) ==> x == z,
    ensures bind(m, f).count(y) <= 1
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    if m.len() == 0 { bind_none(f); assert(m =~= Multiset::empty()); } else {
        let z = m.choose();
        assert(m.contains(z));
        let n = m.remove(z);
        assert forall|x: A| #[trigger] n.count(x) <= 1 by { assert(m.count(x) <= 1); }
        assert forall|x: A| #[trigger] n.contains(x) implies f(x).count(y) <= 1 by { assert(m.contains(x)); }
        assert forall|x: A, z: A| #![trigger n.contains(x), n.contains(z)] n.contains(x) && n.contains(z) && f(x).contains(y) && f(z).contains(y) implies x == z by { assert(m.contains(x) && m.contains(z)); }
        bind_once(n, f, y);
        bind_remove(m, f, z);
        bind_has(n, f, y);
        if f(z).contains(y) && bind(n, f).contains(y) {
            let x = choose|x: A| #[trigger] n.contains(x) && f(x).contains(y);
            assert(m.contains(x));
            assert(m.count(z) <= 1);
        }
    }
}
proof fn few<A>(s: Seq<A>, y: A)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
    ensures s.to_multiset().count(y) <= 1
{ assert(s.no_duplicates()); s.lemma_multiset_has_no_duplicates(); broadcast use group_multiset_axioms; if !s.to_multiset().contains(y) { assert(s.to_multiset().count(y) == 0); } }
proof fn twice<A>(s: Seq<A>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j]
    ensures s.to_multiset().count(s[i]) >= 2
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let (a, b) = (s.take(j), s.skip(j));
    assert(s =~= a + b);
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    assert(a[i] == s[i] && b[0] == s[j]);
    assert(a.contains(s[i]) && b.contains(s[i]));
}
