// ---- lib/denotes.rs: what derivations denote; their compositions and heads ----
spec fn cs<T>(c: Composition<T>) -> Seq<Vec<VarT<T>>> { c.composition@ }
// ---- what a derivation denotes ----
spec fn deepest<C>(m: Map<Seq<usize>, C>, h: nat) -> bool { forall|a: Seq<usize>| #[trigger] m.contains_key(a) ==> a.len() <= h }
spec fn depth<C>(m: Map<Seq<usize>, C>) -> nat { choose|h: nat| deepest(m, h) }
proof fn depth_is<C>(m: Map<Seq<usize>, C>)
    ensures deepest(m, depth(m))
    decreases m.dom().len()
{
    if m.dom().len() == 0 { assert(deepest(m, 0)); } else {
        let a = m.dom().choose();
        let n = m.remove(a);
        depth_is(n);
        let h = depth(n) + a.len();
        assert forall|b: Seq<usize>| #[trigger] m.contains_key(b) implies b.len() <= h by { if b != a { assert(n.contains_key(b)); } }
        assert(deepest(m, h));
    }
}
spec fn left<C>(m: Map<Seq<usize>, C>, a: Seq<usize>) -> int { if m.contains_key(a) { depth(m) - a.len() } else { 0 } }
// variables refer to components of children that are there
spec fn whole<T>(m: Map<Seq<usize>, Composition<T>>) -> bool {
    forall|a: Seq<usize>, k: int, l: int| m.contains_key(a) && 0 <= k < cs(m[a]).len() && 0 <= l < cs(m[a])[k]@.len() ==> refers(m, a, #[trigger] cs(m[a])[k]@[l])
}
spec fn refers<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>, s: VarT<T>) -> bool {
    s matches VarT::Var(i, j) ==> m.contains_key(a.push(i)) && j < cs(m[a.push(i)]).len()
}
// the string tuple denoted by the subtree at a: terminals as they are, a variable is the component of the child it refers to
spec fn value<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>) -> Seq<Seq<VarT<T>>>
    decreases depth(m) - a.len(), 2nat, 0nat
{
    if m.contains_key(a) && a.len() <= depth(m) { Seq::new(cs(m[a]).len(), |k: int| if 0 <= k < cs(m[a]).len() { strung(m, a, cs(m[a])[k]@) } else { Seq::empty() }) } else { Seq::empty() }
}
spec fn strung<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>, s: Seq<VarT<T>>) -> Seq<VarT<T>>
    decreases depth(m) - a.len(), 1nat, s.len()
{
    if s.len() == 0 { Seq::empty() } else { strung(m, a, s.drop_last()) + symbol(m, a, s.last()) }
}
spec fn symbol<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>, s: VarT<T>) -> Seq<VarT<T>>
    decreases depth(m) - a.len(), 0nat, 0nat
{
    match s { VarT::T(t) => seq![s], VarT::Var(i, j) => if a.len() < depth(m) { value(m, a.push(i))[j as int] } else { Seq::empty() } }
}
// derived: clones of the parts
impl<T: Clone> Clone for VarT<T> {
    fn clone(&self) -> (r: Self) ensures faithful::<T>() ==> r == *self { match self { VarT::Var(i, j) => VarT::Var(*i, *j), VarT::T(t) => VarT::T(t.clone()) } }
}
impl<T: Clone> Clone for Composition<T> {
    fn clone(&self) -> (r: Self) ensures faithful::<T>() ==> r == *self { proof { vart_faithful::<T>(); vec_faithful::<VarT<T>>(); vec_faithful::<Vec<VarT<T>>>(); } Composition { composition: self.composition.clone() } }
}
// assumed: the clone of a list is the list of the clones (and lists are their contents)
#[verifier::external_body]
proof fn vec_faithful<T: Clone>() ensures faithful::<T>() ==> faithful::<Vec<T>>() {}
proof fn vart_faithful<T: Clone>() ensures faithful::<T>() ==> faithful::<VarT<T>>() {}
spec fn expanded<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>, v: Seq<Vec<VarT<T>>>) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k])@ == strung(m, a, cs(m[a])[k]@) }
proof fn usize_keys() ensures vstd::laws_cmp::obeys_cmp::<usize>() { broadcast use vstd::laws_cmp::group_laws_cmp; }
// the memo holds the values of children
spec fn cached<T>(m: Map<Seq<usize>, Composition<T>>, a: Seq<usize>, c: Map<usize, Vec<Vec<VarT<T>>>>) -> bool {
    forall|i: usize| #[trigger] c.contains_key(i) ==> m.contains_key(a.push(i)) && views(c[i]@) == value(m, a.push(i))
}
//@@ fn src/grammars/pmcfg/mod.rs <From<Vec<Vec<VarT<T>>>>~for~Composition>::from as from_
//@ params encapsulated_value
//@ ret r
//@ ensures r.composition == encapsulated_value
//@@ end

//@@ fn src/grammars/pmcfg/mod.rs evaluate_pos
//@ params term_map address
//@ dropbound Display
//@ ret r
//@ mappath Composition::from Composition::from_
//@ foriter 0 VtEach::vt_each
//@ foriter 1 VtEach::vt_each
//@ foriter 2 VtEach::vt_each
//@ local expanded_nonterminals 1
//@ local expanded_composition 2
//@ local expanded_component 3
//@ forpat 0 component
//@ forpat 1 variable
//@ forpat 2 terminal
//@ requires
    at(*term_map).contains_key(address@), whole(at(*term_map)), faithful::<T>(),
//@ ensures
    views(r.composition@) == value(at(*term_map), address@),
//@ decreases left(at(*term_map), address@)
//@ start
    let ghost m = at(*term_map);
    let ghost a = address@;
    proof { depth_is(m); usize_keys(); }
//@ loop 0 for it
    invariant
        m == at(*term_map), a == address@, m.contains_key(a), whole(m), faithful::<T>(), deepest(m, depth(m)), vstd::laws_cmp::obeys_cmp::<usize>(),
        it.seq() == refs(cs(m[a])),
        cached(m, a, expanded_nonterminals@),
        expanded_composition@.len() == it.index@,
        expanded(m, a, expanded_composition@),
//@ loop 1 for it2
    invariant
        m == at(*term_map), a == address@, m.contains_key(a), whole(m), faithful::<T>(), deepest(m, depth(m)), vstd::laws_cmp::obeys_cmp::<usize>(),
        0 <= it.index@ < cs(m[a]).len(),
        it2.seq() == refs(cs(m[a])[it.index@]@),
        cached(m, a, expanded_nonterminals@),
        expanded_component@ == strung(m, a, cs(m[a])[it.index@]@.take(it2.index@)),
//@ loopstart 1
    let ghost s = cs(m[a])[it.index@]@;
    let ghost n = it2.index@;
    proof {
        assert(a.len() <= depth(m));
        assert(refers(m, a, s[n]));
        if let VarT::Var(i, j) = s[n] {
            assert(m.contains_key(a.push(i)));
            assert(a.push(i).len() <= depth(m));
            assert(value(m, a.push(i)).len() == cs(m[a.push(i)]).len());
            assert(symbol(m, a, s[n]) == value(m, a.push(i))[j as int]);
        }
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        assert(s.take(n + 1).last() == s[n]);
        assert(strung(m, a, s.take(n + 1)) == strung(m, a, s.take(n)) + symbol(m, a, s[n]));
    }
//@ afterlet 4
    proof { assert(child_address@ =~= a); }
//@ afterlet 6
    proof { assert(views(nonter_compos@) == value(m, a.push(num_nonter))); assert(views(nonter_compos@).len() == nonter_compos@.len()); }
//@ loopend 1
    proof { assert(expanded_component@ =~= strung(m, a, s.take(n + 1))); }
//@ loopend 0
    proof { assert(cs(m[a])[it.index@]@.take(cs(m[a])[it.index@]@.len() as int) =~= cs(m[a])[it.index@]@); }
//@ loop 2 for it3
    invariant
        faithful::<T>(),
        it3.seq() == refs(compon@),
        expanded_component@ == strung(m, a, s.take(n)) + compon@.take(it3.index@),
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs evaluate
//@ params term_map
//@ dropbound Display
//@ ret r
//@ requires
    at(*term_map).contains_key(Seq::empty()), whole(at(*term_map)), faithful::<T>(),
//@ ensures
    views(r.composition@) == value(at(*term_map), Seq::empty()),
//@@ end

// the compositions, the heads of a derivation
spec fn terms<H, T, W>(m: Map<Seq<usize>, PMCFGRule<H, T, W>>) -> Map<Seq<usize>, Composition<T>> { m.map_values(|r: PMCFGRule<H, T, W>| r.composition) }
spec fn heads<H, T, W>(m: Map<Seq<usize>, PMCFGRule<H, T, W>>) -> Map<Seq<usize>, H> { m.map_values(|r: PMCFGRule<H, T, W>| r.head) }
//@@ fn src/grammars/pmcfg/mod.rs to_term
//@ params tree_map
//@ ret r
//@ foriter 0 GornTree::entries
//@ local term_map 0
//@ local head_map 1
//@ forpat 0 address head composition
//@ requires
    faithful::<H>(), faithful::<T>(),
//@ ensures
    at(r.0) == terms(at(*tree_map)), at(r.1) == heads(at(*tree_map)),
//@ start
    let ghost m = at(*tree_map);
//@ loop 0 for it
    invariant
        faithful::<H>(), faithful::<T>(),
        m == at(*tree_map), lists(shown_refs(it.seq()), m),
        forall|p: Seq<usize>| #[trigger] at(term_map).contains_key(p) ==> m.contains_key(p) && at(term_map)[p] == m[p].composition,
        forall|p: Seq<usize>| #[trigger] at(head_map).contains_key(p) ==> m.contains_key(p) && at(head_map)[p] == m[p].head,
        forall|i: int| 0 <= i < it.index@ ==> at(term_map).contains_key((#[trigger] shown_refs(it.seq())[i]).0) && at(head_map).contains_key(shown_refs(it.seq())[i].0),
//@ loopstart 0
    let ghost e = it.seq()[it.index@];
    proof { assert(shown_refs(it.seq())[it.index@] == (e.0@, *e.1)); }
//@ after 0
    proof { assert(at(term_map) =~= terms(m)); assert(at(head_map) =~= heads(m)); }
//@@ end
// all symbols of a composition, in order of occurrence
spec fn joined<T>(c: Seq<Vec<VarT<T>>>) -> Seq<VarT<T>>
    decreases c.len()
{ if c.len() == 0 { Seq::empty() } else { joined(c.drop_last()) + c.last()@ } }
// exactly one symbol, a terminal
spec fn lone<T>(c: Seq<Vec<VarT<T>>>) -> bool { joined(c).len() == 1 && joined(c)[0] is T }
proof fn joined_few<T>(c: Seq<Vec<VarT<T>>>, k: int)
    requires 0 <= k <= c.len()
    ensures joined(c.take(k)).len() <= joined(c).len(), 0 <= k < c.len() ==> joined(c.take(k)).len() + c[k]@.len() <= joined(c).len()
    decreases c.len() - k
{
    if k == c.len() { assert(c.take(k) =~= c); } else {
        joined_few(c, k + 1);
        assert(c.take(k + 1).drop_last() =~= c.take(k));
        assert(c.take(k + 1).last() == c[k]);
    }
}
proof fn in_joined<T>(c: Seq<Vec<VarT<T>>>, k: int, l: int)
    requires 0 <= k < c.len(), 0 <= l < c[k]@.len()
    ensures joined(c).contains(c[k]@[l])
    decreases c.len()
{
    let d = joined(c.drop_last());
    if k == c.len() - 1 { assert(joined(c)[d.len() + l] == c[k]@[l]); } else {
        in_joined(c.drop_last(), k, l);
        let i = choose|i: int| 0 <= i < d.len() && d[i] == c[k]@[l];
        assert(joined(c)[i] == c[k]@[l]);
    }
}
proof fn only_one<T>(c: Seq<Vec<VarT<T>>>, k: int, l: int)
    requires joined(c).len() == 1, 0 <= k < c.len(), 0 <= l < c[k]@.len()
    ensures c[k]@.len() == 1, forall|j: int| 0 <= j < c.len() && j != k ==> (#[trigger] c[j])@.len() == 0
    decreases c.len()
{
    let d = c.drop_last();
    if k == c.len() - 1 {
        assert forall|j: int| 0 <= j < c.len() && j != k implies (#[trigger] c[j])@.len() == 0 by { joined_few(d, j); assert(d[j] == c[j]); }
    } else {
        in_joined(d, k, l);
        only_one(d, k, l);
        assert forall|j: int| 0 <= j < c.len() && j != k implies (#[trigger] c[j])@.len() == 0 by { if j < d.len() { assert(d[j] == c[j]); } }
        assert(d[k] == c[k]);
    }
}
