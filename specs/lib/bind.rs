// ---- lib/bind.rs: multisets of results, one multiset for each element of a multiset ----
spec fn bind<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>) -> Multiset<B>
    decreases m.len()
{
    if m.len() == 0 { Multiset::empty() } else { let x = m.choose(); if m.contains(x) { bind(m.remove(x), f).add(f(x)) } else { Multiset::empty() } }
}
proof fn bind_remove<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>, x: A)
    requires m.contains(x)
    ensures bind(m, f) == bind(m.remove(x), f).add(f(x))
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    let y = m.choose();
    assert(m.len() > 0);
    assert(m.contains(y));
    if x != y {
        let n = m.remove(y);
        assert(n.contains(x));
        bind_remove(n, f, x);
        let k = m.remove(x);
        assert(k.contains(y));
        bind_remove(k, f, y);
        assert(n.remove(x) =~= k.remove(y));
        assert(bind(n.remove(x), f).add(f(x)).add(f(y)) =~= bind(k.remove(y), f).add(f(y)).add(f(x)));
    }
}
proof fn bind_insert<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>, x: A)
    ensures bind(m.insert(x), f) == bind(m, f).add(f(x))
{
    broadcast use group_multiset_axioms;
    assert(m.insert(x).contains(x));
    bind_remove(m.insert(x), f, x);
    assert(m.insert(x).remove(x) =~= m);
}
proof fn bind_none<A, B>(f: spec_fn(A) -> Multiset<B>) ensures bind(Multiset::<A>::empty(), f) == Multiset::<B>::empty() { broadcast use group_multiset_axioms; }
proof fn bind_add<A, B>(m: Multiset<A>, n: Multiset<A>, f: spec_fn(A) -> Multiset<B>)
    ensures bind(m.add(n), f) == bind(m, f).add(bind(n, f))
    decreases n.len()
{
    broadcast use group_multiset_axioms;
    if n.len() == 0 { assert(m.add(n) =~= m); bind_none(f); assert(n =~= Multiset::empty()); assert(bind(m, f).add(bind(n, f)) =~= bind(m, f)); } else {
        let x = n.choose();
        assert(n.contains(x));
        bind_add(m, n.remove(x), f);
        bind_remove(n, f, x);
        bind_insert(m.add(n.remove(x)), f, x);
        assert(m.add(n) =~= m.add(n.remove(x)).insert(x));
        assert(bind(m, f).add(bind(n, f)) =~= bind(m, f).add(bind(n.remove(x), f)).add(f(x)));
    }
}
proof fn bind_less<A, B>(m: Multiset<A>, n: Multiset<A>, f: spec_fn(A) -> Multiset<B>)
    requires m.subset_of(n)
    ensures bind(m, f).subset_of(bind(n, f))
{
    broadcast use group_multiset_axioms;
    let d = n.sub(m);
    assert(m.add(d) =~= n);
    bind_add(m, d, f);
}
proof fn bind_has<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>, y: B)
    ensures bind(m, f).contains(y) <==> exists|x: A| #[trigger] m.contains(x) && f(x).contains(y)
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    if m.len() > 0 {
        let z = m.choose();
        assert(m.contains(z));
        bind_has(m.remove(z), f, y);
        if bind(m, f).contains(y) {
            if !f(z).contains(y) { let x = choose|x: A| #[trigger] m.remove(z).contains(x) && f(x).contains(y); assert(m.contains(x)); }
        }
        if exists|x: A| #[trigger] m.contains(x) && f(x).contains(y) {
            let x = choose|x: A| #[trigger] m.contains(x) && f(x).contains(y);
            if x != z { assert(m.remove(z).contains(x)); }
        }
    }
}
// only the elements whose results can be y matter
proof fn bind_only<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>, p: spec_fn(A) -> bool, y: B)
    requires forall|x: A| #[trigger] m.contains(x) && f(x).contains(y) ==> p(x)
    ensures bind(m, f).count(y) == bind(m.filter(p), f).count(y)
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    if m.len() == 0 { assert(m.filter(p) =~= Multiset::empty()); bind_none(f); } else {
        let z = m.choose();
        assert(m.contains(z));
        let n = m.remove(z);
        assert forall|x: A| #[trigger] n.contains(x) && f(x).contains(y) implies p(x) by { assert(m.contains(x)); }
        bind_only(n, f, p, y);
        bind_remove(m, f, z);
        if p(z) {
            assert(m.filter(p) =~= n.filter(p).insert(z));
            bind_insert(n.filter(p), f, z);
        } else { assert(m.filter(p) =~= n.filter(p)); assert(!f(z).contains(y)); }
    }
}
proof fn bind_same<A, B>(m: Multiset<A>, f: spec_fn(A) -> Multiset<B>, g: spec_fn(A) -> Multiset<B>)
    requires forall|x: A| #[trigger] m.contains(x) ==> f(x) == g(x)
    ensures bind(m, f) == bind(m, g)
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    if m.len() > 0 {
        let z = m.choose();
        assert(m.contains(z));
        let n = m.remove(z);
        assert forall|x: A| #[trigger] n.contains(x) implies f(x) == g(x) by { assert(m.contains(x)); }
        bind_same(n, f, g);
    }
}
// the lists s of the results of the elements of v, one after the other
proof fn bind_concat<A, B>(v: Seq<A>, s: Seq<Seq<B>>, f: spec_fn(A) -> Multiset<B>)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i]).to_multiset() == f(v[i])
    ensures concat(s).to_multiset() == bind(v.to_multiset(), f)
    decreases v.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if v.len() == 0 { assert(v.to_multiset() =~= Multiset::empty()); bind_none(f); assert(concat(s).to_multiset() =~= Multiset::empty()); } else {
        let (w, t) = (v.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] t[i]).to_multiset() == f(w[i]) by { assert(t[i] == s[i]); }
        bind_concat(w, t, f);
        assert(v =~= w.push(v.last()));
        assert(v.to_multiset() =~= w.to_multiset().insert(v.last()));
        bind_insert(w.to_multiset(), f, v.last());
        assert(s[s.len() - 1].to_multiset() == f(v[v.len() - 1]));
        vstd::seq_lib::lemma_multiset_commutative(concat(t), s.last());
    }
}
// what the elements look like
spec fn image<A, B>(m: Multiset<A>, h: spec_fn(A) -> B) -> Multiset<B> { bind(m, |x: A| Multiset::singleton(h(x))) }
proof fn image_insert<A, B>(m: Multiset<A>, h: spec_fn(A) -> B, x: A)
    ensures image(m.insert(x), h) == image(m, h).insert(h(x))
{ broadcast use group_multiset_axioms; bind_insert(m, |x: A| Multiset::singleton(h(x)), x); assert(image(m.insert(x), h) =~= image(m, h).insert(h(x))); }
proof fn image_remove<A, B>(m: Multiset<A>, h: spec_fn(A) -> B, x: A)
    requires m.contains(x)
    ensures image(m, h) == image(m.remove(x), h).insert(h(x))
{ broadcast use group_multiset_axioms; bind_remove(m, |x: A| Multiset::singleton(h(x)), x); assert(image(m, h) =~= image(m.remove(x), h).insert(h(x))); }
proof fn image_seq<A, B>(s: Seq<A>, h: spec_fn(A) -> B)
    ensures image(s.to_multiset(), h) == s.map_values(h).to_multiset()
    decreases s.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let f = |x: A| Multiset::singleton(h(x));
    if s.len() == 0 { assert(s.to_multiset() =~= Multiset::empty()); bind_none(f); assert(s.map_values(h).to_multiset() =~= Multiset::empty()); } else {
        let t = s.drop_last();
        image_seq(t, h);
        assert(s =~= t.push(s.last()));
        assert(s.to_multiset() =~= t.to_multiset().insert(s.last()));
        image_insert(t.to_multiset(), h, s.last());
        assert(s.map_values(h) =~= t.map_values(h).push(h(s.last())));
        assert(s.map_values(h).to_multiset() =~= t.map_values(h).to_multiset().insert(h(s.last())));
    }
}
proof fn image_less<A, B>(m: Multiset<A>, n: Multiset<A>, h: spec_fn(A) -> B)
    requires m.subset_of(n)
    ensures image(m, h).subset_of(image(n, h))
{ bind_less(m, n, |x: A| Multiset::singleton(h(x))); }
proof fn image_add<A, B>(m: Multiset<A>, n: Multiset<A>, h: spec_fn(A) -> B)
    ensures image(m.add(n), h) == image(m, h).add(image(n, h))
{ bind_add(m, n, |x: A| Multiset::singleton(h(x))); }
