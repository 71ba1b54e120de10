// ---- lib/search.rs: graph search; needs lib/agenda.rs, lib/agenda_std.rs ----
// with FnMut=>Fn //+=> the lines after //+ count: successor functions without effects stay as they are
//@@ type search/src/search.rs self::Search
//@ attr
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(S)]
//@ subst S , II > =>> S>
//@ subst -> II =>> -> Vec<A::Item>
//@ subst II : IntoIterator < Item = A :: Item > =>>
//@@ end

// one answer of a search: x is the agenda's first element, and exactly its successors are put on the agenda
spec fn step<A: Agenda>(a: A, x: A::Item, succ: Seq<A::Item>, b: A) -> bool {
    a.first() == Some(x) && exists|m: A| #[trigger] extended(m, succ, b) && m.ok() && a.popped(&m)
}

//@@ fn search/src/search.rs self::Search::with_agenda
//@ params agenda successors
//@ newparams agenda: A, successors: S
//@ implhead impl<A: Agenda, S: FnMut(&A::Item) -> Vec<A::Item>> Search<A, S>
//@ ret r
//@ ensures r.agenda == agenda, r.successors == successors
//@@ end

//@@ fn search/src/search.rs <Iterator~for~self::Search>::next
//@ implhead impl<A: Agenda, S: FnMut(&A::Item) -> Vec<A::Item>> Search<A, S>
//@ newret Option<A::Item>
//@ mapmethod extend vt_extend &mut
//@ ret r
//@ requires
    old(self).agenda.ok(),
    match old(self).agenda.first() { None => true, Some(x) => call_requires(old(self).successors, (&x,)) },
//@ ensures
    final(self).agenda.ok(),
    match r {
        None => old(self).agenda.held().len() == 0 && final(self).agenda.held() == old(self).agenda.held(),
        Some(x) => exists|succ: Vec<A::Item>| #[trigger] call_ensures(old(self).successors, (&x,), succ) && step(old(self).agenda, x, succ@, final(self).agenda),
    },
//+ final(self).successors == old(self).successors,
//@ start
    proof {
        self.agenda.first_law();
        assert forall|post: A| #[trigger] self.agenda.popped(&post) && self.agenda.first() is None implies post.held() == self.agenda.held() by { self.agenda.pop_law(&post); }
    }
//@@ end

//@@ type search/src/search.rs unique::Search
//@ attr
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(S)]
//@ subst struct Search =>> struct UniqueSearch
//@ subst Search < A , S , II > =>> Search<A, S>
//@ subst S , II > =>> S>
//@ subst -> II =>> -> Vec<A::Item>
//@ subst II : IntoIterator < Item = A :: Item > =>>
//@@ end

// what the set of nodes handed out relies on: a lawful order, clones equal to their originals
spec fn lawful_nodes<I: Ord + Clone>() -> bool { vstd::laws_cmp::obeys_cmp::<I>() && forall|a: I, b: I| #[trigger] call_ensures(I::clone, (&a,), b) ==> a == b }

// b is left when the agenda takes elements off that are in `seen`
spec fn skip_chain<A: Agenda>(t: Seq<A>, seen: Set<A::Item>) -> bool {
    &&& t.len() > 0 && t[0].ok()
    &&& forall|i: int| 0 < i < t.len() ==> #[trigger] skipped_at(t, seen, i)
}
spec fn skipped_at<A: Agenda>(t: Seq<A>, seen: Set<A::Item>, i: int) -> bool { t[i].ok() && (t[i - 1].first() matches Some(y) && seen.contains(y)) && t[i - 1].popped(&t[i]) }
spec fn skips<A: Agenda>(a: A, seen: Set<A::Item>, b: A) -> bool { exists|t: Seq<A>| #[trigger] skip_chain(t, seen) && t[0] == a && t.last() == b }
proof fn skips_law<A: Agenda>(a: A, seen: Set<A::Item>, b: A)
    requires skips(a, seen, b)
    ensures
        b.ok(),
        forall|y: A::Item| #[trigger] a.held().count(y) >= b.held().count(y),
        forall|y: A::Item| !seen.contains(y) ==> #[trigger] a.held().count(y) == b.held().count(y),
{
    let t = choose|t: Seq<A>| #[trigger] skip_chain(t, seen) && t[0] == a && t.last() == b;
    skip_chain_law(t, seen);
}
proof fn skip_chain_law<A: Agenda>(t: Seq<A>, seen: Set<A::Item>)
    requires skip_chain(t, seen)
    ensures
        t.last().ok(),
        forall|y: A::Item| #[trigger] t[0].held().count(y) >= t.last().held().count(y),
        forall|y: A::Item| !seen.contains(y) ==> #[trigger] t[0].held().count(y) == t.last().held().count(y),
    decreases t.len()
{
    broadcast use group_multiset_axioms;
    if t.len() > 1 {
        let n = t.len() - 1;
        assert(skipped_at(t, seen, n));
        assert forall|i: int| 0 < i < n implies #[trigger] skipped_at(t.drop_last(), seen, i) by { assert(skipped_at(t, seen, i)); }
        if n > 1 { assert(skipped_at(t, seen, n - 1)); }
        skip_chain_law(t.drop_last(), seen);
        let (a, m, z) = (t[0], t[n - 1], t[n]);
        assert(t.drop_last().last() == m && t.drop_last()[0] == a && t.last() == z);
        assert(m.ok());
        m.pop_law(&z);
    }
}

// the elements of s that have not been handed out
spec fn fresh<T>(s: Seq<T>, seen: Set<T>) -> Seq<T> { s.filter(|y: T| !seen.contains(y)) }

//@@ fn search/src/search.rs unique::Search::from_search
//@ params search
//@ newparams search: Search<A, S>
//@ newret UniqueSearch<A, S>
//@ ret r
//@ implhead impl<A: Agenda, S: FnMut(&A::Item) -> Vec<A::Item>> UniqueSearch<A, S>
//@ subst Search =>> UniqueSearch
//@ ensures r.search == search, r.elements@ == Set::<A::Item>::empty()
//@@ end

//@@ fn search/src/search.rs <Iterator~for~unique::Search>::next
//@ implhead impl<A: Agenda, S: FnMut(&A::Item) -> Vec<A::Item>> UniqueSearch<A, S> where A::Item: Ord + Clone
//@ newret Option<A::Item>
//@ subst Search =>> UniqueSearch
//@ mapmethod extend vt_extend &mut
//@ mapmethod into_iter vt_collect
//@ mapmethod filter vt_filter
//@ ret r
//@ requires
    lawful_nodes::<A::Item>(),
    old(self).search.agenda.ok(),
    forall|x: A::Item| call_requires(old(self).search.successors, (&x,)),
//@ ensures
    final(self).search.agenda.ok(),
    match r {
        None => final(self).elements@ == old(self).elements@ && final(self).search.agenda.held().len() == 0
            && forall|y: A::Item| #[trigger] old(self).search.agenda.held().contains(y) ==> old(self).elements@.contains(y),
        Some(x) => !old(self).elements@.contains(x) && final(self).elements@ == old(self).elements@.insert(x)
            && exists|a: A, succ: Vec<A::Item>| #[trigger] skips(old(self).search.agenda, old(self).elements@, a)
                && #[trigger] call_ensures(old(self).search.successors, (&x,), succ)
                && step(a, x, fresh(succ@, final(self).elements@), final(self).search.agenda),
    },
//+ final(self).search.successors == old(self).search.successors,
//@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ loop 0 loop
    invariant search.agenda.ok(), elements@ == old(self).elements@, search.successors == old(self).search.successors,
        skip_chain(t, old(self).elements@), t[0] == old(self).search.agenda, t.last() == search.agenda,
    ensures search.agenda.held().len() == 0
    decreases search.agenda.held().len()
//@ loopstart 0
    let ghost here = search.agenda;
    proof {
        here.first_law();
        assert forall|post: A| #[trigger] here.popped(&post) implies match here.first() { None => post.held() == here.held(), Some(x) => here.held().contains(x) && post.held() == here.held().remove(x) } by { here.pop_law(&post); }
        assert(skips(old(self).search.agenda, old(self).elements@, here));
    }
//@ loopend 0
    proof {
        let u = t.push(search.agenda);
        assert forall|i: int| 0 < i < u.len() implies #[trigger] skipped_at(u, old(self).elements@, i) by { if i < t.len() { assert(skipped_at(t, old(self).elements@, i)); } }
        assert(skip_chain(u, old(self).elements@));
        t = u;
    }
//@ before 0
    broadcast use group_multiset_axioms;
    let ghost mut t: Seq<A> = seq![search.agenda];
//@ after 0
    proof {
        skip_chain_law(t, old(self).elements@);
        assert forall|y: A::Item| #[trigger] old(self).search.agenda.held().contains(y) implies old(self).elements@.contains(y) by {
            if !old(self).elements@.contains(y) { assert(t.last().held().count(y) == old(self).search.agenda.held().count(y)); }
        }
    }
//@ closure 0 (i: &A::Item) -> (b: bool)
    ensures b == !elements@.contains(*i)
//@@ end

//@@ fn search/src/search.rs self::Search::uniques
//@ implhead impl<A: Agenda, S: FnMut(&A::Item) -> Vec<A::Item>> Search<A, S>
//@ newret UniqueSearch<A, S>
//@ subst unique :: Search =>> UniqueSearch
//@ ret r
//@ ensures r.search == self, r.elements@ == Set::<A::Item>::empty()
//@@ end

// ---- where a search starts: exactly the given nodes are on the agenda ----
//@@ fn search/src/search.rs self::Search::dfs
//@ params initials successors
//@ newparams initials: Vec<I>, successors: S
//@ dropgeneric II2
//@ implhead impl<I, S: FnMut(&I) -> Vec<I>> Search<Vec<I>, S>
//@ mapmethod into_iter vt_collect
//@ mapmethod collect vt_collect
//@ ret r
//@ ensures r.agenda@ == initials@, r.agenda.ok(), r.agenda.held() == initials@.to_multiset(), r.successors == successors
//@@ end
//@@ fn search/src/search.rs self::Search::bfs
//@ params initials successors
//@ newparams initials: Vec<I>, successors: S
//@ dropgeneric II2
//@ implhead impl<I, S: FnMut(&I) -> Vec<I>> Search<VecDeque<I>, S>
//@ mapmethod into_iter vt_collect
//@ mapmethod collect vt_deque
//@ ret r
//@ ensures r.agenda@ == initials@, r.agenda.ok(), r.agenda.held() == initials@.to_multiset(), r.successors == successors
//@@ end
// what a run does; g is the successor relation
// every initial node and every successor of a node handed out is handed out or on the agenda
spec fn accounted<A: Agenda>(out: Set<A::Item>, a: A, init: Set<A::Item>, g: spec_fn(A::Item) -> Seq<A::Item>) -> bool {
    &&& a.ok()
    &&& forall|y: A::Item| #[trigger] init.contains(y) ==> out.contains(y) || a.held().contains(y)
    &&& forall|x: A::Item, y: A::Item| out.contains(x) && #[trigger] g(x).contains(y) ==> out.contains(y) || a.held().contains(y)
}
// everything handed out or on the agenda is in `within`
spec fn confined<A: Agenda>(out: Set<A::Item>, a: A, within: Set<A::Item>) -> bool {
    a.ok() && out.subset_of(within) && forall|y: A::Item| #[trigger] a.held().contains(y) ==> within.contains(y)
}
proof fn answer_accounts<A: Agenda>(out: Set<A::Item>, a: A, x: A::Item, b: A, init: Set<A::Item>, g: spec_fn(A::Item) -> Seq<A::Item>)
    requires accounted(out, a, init, g), A::lossless(), step(a, x, g(x), b), b.ok()
    ensures accounted(out.insert(x), b, init, g)
{ step_held(a, x, g(x), b); }
proof fn answer_confined<A: Agenda>(out: Set<A::Item>, a: A, x: A::Item, b: A, g: spec_fn(A::Item) -> Seq<A::Item>, within: Set<A::Item>)
    requires
        confined(out, a, within), step(a, x, g(x), b), b.ok(),
        forall|x: A::Item, y: A::Item| within.contains(x) && #[trigger] g(x).contains(y) ==> within.contains(y),
    ensures confined(out.insert(x), b, within)
{ step_held(a, x, g(x), b); }
proof fn unique_answer_accounts<A: Agenda>(out: Set<A::Item>, a0: A, a: A, x: A::Item, b: A, init: Set<A::Item>, g: spec_fn(A::Item) -> Seq<A::Item>)
    requires accounted(out, a0, init, g), A::lossless(), skips(a0, out, a), step(a, x, fresh(g(x), out.insert(x)), b), b.ok()
    ensures accounted(out.insert(x), b, init, g)
{
    skips_law(a0, out, a);
    step_held(a, x, fresh(g(x), out.insert(x)), b);
    assert forall|y: A::Item| a0.held().contains(y) implies out.insert(x).contains(y) || b.held().contains(y) by {
        if !out.insert(x).contains(y) { assert(a0.held().count(y) == a.held().count(y)); }
    }
    assert forall|y: A::Item| #[trigger] g(x).contains(y) implies out.insert(x).contains(y) || b.held().contains(y) by {
        if !out.insert(x).contains(y) { fresh_has(g(x), out.insert(x), y); }
    }
}
proof fn unique_answer_confined<A: Agenda>(out: Set<A::Item>, a0: A, a: A, x: A::Item, b: A, g: spec_fn(A::Item) -> Seq<A::Item>, within: Set<A::Item>)
    requires
        confined(out, a0, within), skips(a0, out, a), step(a, x, fresh(g(x), out.insert(x)), b), b.ok(),
        forall|x: A::Item, y: A::Item| within.contains(x) && #[trigger] g(x).contains(y) ==> within.contains(y),
    ensures confined(out.insert(x), b, within)
{
    skips_law(a0, out, a);
    step_held(a, x, fresh(g(x), out.insert(x)), b);
    assert forall|y: A::Item| a.held().contains(y) implies within.contains(y) by { assert(a0.held().count(y) >= a.held().count(y)); assert(a0.held().contains(y)); }
    assert(within.contains(x));
    assert forall|y: A::Item| #[trigger] fresh(g(x), out.insert(x)).contains(y) implies within.contains(y) by { fresh_has(g(x), out.insert(x), y); }
}
// a run that ended has handed out every node reachable from an initial node
proof fn ended_run_reaches<A: Agenda>(out: Set<A::Item>, a: A, init: Set<A::Item>, g: spec_fn(A::Item) -> Seq<A::Item>, path: Seq<A::Item>)
    requires
        accounted(out, a, init, g), forall|y: A::Item| #[trigger] a.held().contains(y) ==> out.contains(y),
        path.len() > 0, init.contains(path[0]), forall|i: int| 0 < i < path.len() ==> g(path[i - 1]).contains(#[trigger] path[i]),
    ensures out.contains(path.last())
    decreases path.len()
{
    if path.len() > 1 {
        let l = path.drop_last();
        assert forall|i: int| 0 < i < l.len() implies g(l[i - 1]).contains(#[trigger] l[i]) by { assert(l[i] == path[i] && l[i - 1] == path[i - 1]); }
        ended_run_reaches(out, a, init, g, l);
        assert(path[path.len() - 1] == path.last() && l.last() == path[path.len() - 2]);
    }
}
proof fn fresh_has<T>(s: Seq<T>, seen: Set<T>, y: T)
    ensures fresh(s, seen).contains(y) <==> s.contains(y) && !seen.contains(y)
    decreases s.len()
{
    reveal(Seq::filter);
    let p = |y: T| !seen.contains(y);
    if s.len() > 0 {
        fresh_has(s.drop_last(), seen, y);
        let f = s.drop_last().filter(p);
        assert(s =~= s.drop_last().push(s.last()));
        assert(s.contains(y) <==> s.drop_last().contains(y) || s.last() == y) by {
            if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < s.len() - 1 { assert(s.drop_last()[i] == y); } }
            if s.drop_last().contains(y) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == y; assert(s[i] == y); }
            if s.last() == y { assert(s[s.len() - 1] == y); }
        }
        assert(f.push(s.last()).contains(y) <==> f.contains(y) || s.last() == y) by {
            let q = f.push(s.last());
            if q.contains(y) { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; if i < f.len() { assert(f[i] == y); } }
            if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; assert(q[i] == y); }
            if s.last() == y { assert(q[f.len() as int] == y); }
        }
    }
}
// what a step does to the elements held
proof fn step_held<A: Agenda>(a: A, x: A::Item, succ: Seq<A::Item>, b: A)
    requires a.ok(), step(a, x, succ, b)
    ensures
        a.held().contains(x),
        forall|y: A::Item| #[trigger] b.held().contains(y) ==> a.held().contains(y) || succ.contains(y),
        A::lossless() ==> forall|y: A::Item| y != x && a.held().contains(y) ==> #[trigger] b.held().contains(y),
        A::lossless() ==> forall|y: A::Item| #[trigger] succ.contains(y) ==> b.held().contains(y),
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let m = choose|m: A| #[trigger] extended(m, succ, b) && m.ok() && a.popped(&m);
    a.pop_law(&m);
    extend_law(m, succ, b);
    assert forall|y: A::Item| #[trigger] b.held().contains(y) implies a.held().contains(y) || succ.contains(y) by {
        assert(b.held().count(y) <= m.held().add(succ.to_multiset()).count(y));
    }
}
