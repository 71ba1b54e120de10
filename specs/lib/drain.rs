// ---- lib/drain.rs: everything a search hands out; needs lib/search.rs with Fn for FnMut ----
// y is where the search starts or among the given successors of the first n nodes
spec fn met<I>(y: I, init: Seq<I>, outs: Seq<Vec<I>>) -> bool { init.contains(y) || exists|l: int| 0 <= l < outs.len() && (#[trigger] outs[l])@.contains(y) }
// r: each node once, all initial nodes, all successors, and no others
spec fn found<I, S: Fn(&I) -> Vec<I>>(g: S, init: Seq<I>, r: Seq<I>, outs: Seq<Vec<I>>) -> bool {
    &&& r.no_duplicates() && outs.len() == r.len()
    &&& forall|k: int| 0 <= k < r.len() ==> call_ensures(g, (& #[trigger] r[k],), outs[k])
    &&& forall|k: int| 0 <= k < r.len() ==> met(#[trigger] r[k], init, outs.take(k))
    &&& forall|y: I| #[trigger] met(y, init, outs) ==> r.contains(y)
}
spec fn finding<I, S: Fn(&I) -> Vec<I>>(g: S, init: Seq<I>, seen: Set<I>, a: VecDeque<I>, r: Seq<I>, outs: Seq<Vec<I>>) -> bool {
    &&& r.no_duplicates() && outs.len() == r.len() && a.ok()
    &&& forall|y: I| #[trigger] seen.contains(y) <==> r.contains(y)
    &&& forall|k: int| 0 <= k < r.len() ==> call_ensures(g, (& #[trigger] r[k],), outs[k])
    &&& forall|k: int| 0 <= k < r.len() ==> met(#[trigger] r[k], init, outs.take(k))
    &&& forall|y: I| #[trigger] met(y, init, outs) ==> r.contains(y) || a.held().contains(y)
    &&& forall|y: I| #[trigger] a.held().contains(y) ==> met(y, init, outs)
}
proof fn finding_more<I, S: Fn(&I) -> Vec<I>>(g: S, init: Seq<I>, seen: Set<I>, a0: VecDeque<I>, r: Seq<I>, outs: Seq<Vec<I>>, a: VecDeque<I>, x: I, succ: Vec<I>, b: VecDeque<I>)
    requires
        finding(g, init, seen, a0, r, outs), !seen.contains(x), call_ensures(g, (&x,), succ),
        skips(a0, seen, a), step(a, x, fresh(succ@, seen.insert(x)), b), b.ok(),
    ensures finding(g, init, seen.insert(x), b, r.push(x), outs.push(succ))
{
    skips_law(a0, seen, a);
    step_held(a, x, fresh(succ@, seen.insert(x)), b);
    let (r2, outs2) = (r.push(x), outs.push(succ));
    assert(a0.held().count(x) >= a.held().count(x));
    assert(a0.held().contains(x));
    assert(outs2[outs.len() as int] == succ);
    assert forall|y: I| #[trigger] seen.insert(x).contains(y) <==> r2.contains(y) by {
        if r.contains(y) { let i = r.index_of(y); assert(r2[i] == y); }
        if y == x { assert(r2[r.len() as int] == y); }
        if r2.contains(y) { let i = r2.index_of(y); if i < r.len() { assert(r[i] == y); } }
    }
    assert(!r.contains(x));
    assert forall|k: int| 0 <= k < r2.len() implies met(#[trigger] r2[k], init, outs2.take(k)) by {
        assert(outs2.take(k) =~= outs.take(k));
        if k == r.len() { assert(outs.take(k) =~= outs); } else { assert(met(r[k], init, outs.take(k))); }
    }
    assert forall|y: I| met(y, init, outs) implies #[trigger] met(y, init, outs2) by {
        if !init.contains(y) { let l = choose|l: int| 0 <= l < outs.len() && (#[trigger] outs[l])@.contains(y); assert(outs2[l]@.contains(y)); }
    }
    assert forall|y: I| succ@.contains(y) implies #[trigger] met(y, init, outs2) by { assert(outs2[outs.len() as int]@.contains(y)); }
    assert forall|y: I| #[trigger] met(y, init, outs2) implies r2.contains(y) || b.held().contains(y) by {
        if !seen.insert(x).contains(y) {
            if met(y, init, outs) {
                assert(a0.held().contains(y));
                assert(a0.held().count(y) == a.held().count(y));
                assert(a.held().contains(y));
            } else {
                let l = choose|l: int| 0 <= l < outs2.len() && (#[trigger] outs2[l])@.contains(y);
                if l < outs.len() { assert(outs[l]@.contains(y)); }
                fresh_has(succ@, seen.insert(x), y);
            }
        } else { assert(r2.contains(y)); }
    }
    assert forall|y: I| #[trigger] b.held().contains(y) implies met(y, init, outs2) by {
        if a.held().contains(y) { assert(a0.held().count(y) >= a.held().count(y)); assert(a0.held().contains(y)); assert(met(y, init, outs)); } else { fresh_has(succ@, seen.insert(x), y); }
    }
}
// `for x in search` with a body that does not touch what the search uses: the nodes it hands out, in
// order (running the search to its end first changes nothing but the cost; it need not end)
#[verifier::exec_allows_no_decreases_clause]
fn vt_drain<I: Ord + Clone, S: Fn(&I) -> Vec<I>>(u: UniqueSearch<VecDeque<I>, S>) -> (r: Vec<I>)
    requires
        lawful_nodes::<I>(), u.search.agenda.ok(), u.elements@ == Set::<I>::empty(),
        forall|x: I| call_requires(u.search.successors, (&x,)),
    ensures exists|outs: Seq<Vec<I>>| #[trigger] found(u.search.successors, u.search.agenda@, r@, outs)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let ghost g = u.search.successors;
    let ghost init = u.search.agenda@;
    let mut w = u;
    let mut r: Vec<I> = Vec::new();
    let ghost mut outs: Seq<Vec<I>> = Seq::empty();
    proof {
        assert forall|y: I| #[trigger] w.search.agenda.held().contains(y) implies met(y, init, outs) by { assert(init.contains(y)); }
        assert forall|y: I| #[trigger] met(y, init, outs) implies w.search.agenda.held().contains(y) by { assert(init.contains(y)); }
    }
    loop
        invariant
            w.search.successors == g, g == u.search.successors, init == u.search.agenda@, lawful_nodes::<I>(), forall|x: I| call_requires(g, (&x,)),
            finding(g, init, w.elements@, w.search.agenda, r@, outs),
    {
        let ghost (seen, a0) = (w.elements@, w.search.agenda);
        match w.next() {
            None => {
                proof { assert forall|y: I| #[trigger] met(y, init, outs) implies r@.contains(y) by { if !r@.contains(y) { assert(a0.held().contains(y)); assert(seen.contains(y)); } } assert(found(g, init, r@, outs)); }
                return r;
            }
            Some(x) => {
                proof {
                    let (a, succ) = choose|a: VecDeque<I>, succ: Vec<I>| #[trigger] skips(a0, seen, a) && #[trigger] call_ensures(g, (&x,), succ) && step(a, x, fresh(succ@, w.elements@), w.search.agenda);
                    finding_more(g, init, seen, a0, r@, outs, a, x, succ, w.search.agenda);
                    outs = outs.push(succ);
                }
                r.push(x);
            }
        }
    }
}
