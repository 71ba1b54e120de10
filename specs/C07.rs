// C07: PMCFGs, MCFGs and LCFRSs into one another.
use vstd::prelude::*;
use std::collections::BTreeSet;
verus! {
broadcast use vstd::std_specs::btree::group_btree_axioms;

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/rule.rs

//@@ type src/grammars/pmcfg/mod.rs PMCFG
//@@ end
//@@ type src/grammars/mcfg/mod.rs Mcfg
//@@ end
//@@ type src/grammars/lcfrs/mod.rs Lcfrs
//@@ end

// the lexicographic order of pairs of numbers is a lawful one (assumed)
#[verifier::external_body]
proof fn pairs_are_ordered() ensures vstd::laws_cmp::obeys_cmp::<(usize, usize)>() {}

// no variable is used more than once
spec fn uncopied<T>(c: Seq<Vec<VarT<T>>>) -> bool { forall|i: usize, j: usize| #[trigger] uses(c, i as int, j as int) <= 1 }
spec fn is_mcfg<N, T, W>(g: PMCFG<N, T, W>) -> bool {
    &&& forall|k: int| 0 <= k < g.rules@.len() ==> uncopied(comp(#[trigger] g.rules@[k]))
    &&& g.initial@.len() == 1
}
// listing the variables component by component
proof fn vars_by_component<'a, T>(c: Seq<Vec<VarT<T>>>)
    ensures flat(refs::<'a, Vec<VarT<T>>>(c), |v: &'a Vec<VarT<T>>| picked(refs::<'a, VarT<T>>(v@), |s: &'a VarT<T>| var_of(s))) == vars(c)
    decreases c.len()
{
    let each = |v: &'a Vec<VarT<T>>| refs::<'a, VarT<T>>(v@);
    let some = |v: &'a Vec<VarT<T>>| picked(refs::<'a, VarT<T>>(v@), |s: &'a VarT<T>| var_of(s));
    let r = refs::<'a, Vec<VarT<T>>>(c);
    if c.len() > 0 {
        vars_by_component::<T>(c.drop_last());
        assert(r.drop_last() =~= refs::<'a, Vec<VarT<T>>>(c.drop_last()));
        picked_add(flat(r.drop_last(), each), each(r.last()), |s: &'a VarT<T>| var_of(s));
        assert(symbols::<'a, T>(c) == flat(r.drop_last(), each) + each(r.last()));
    } else {
        assert(r =~= Seq::empty());
    }
}
proof fn picked_add<A, U>(a: Seq<A>, b: Seq<A>, g: spec_fn(A) -> Option<U>)
    ensures picked(a + b, g) == picked(a, g) + picked(b, g)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(picked(a, g) + picked(b, g) =~= picked(a, g)); } else {
        picked_add(a, b.drop_last(), g);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(picked(a + b, g) =~= picked(a, g) + picked(b, g));
    }
}
proof fn uncopied_means<T>(c: Seq<Vec<VarT<T>>>)
    ensures uncopied(c) <==> vars(c).no_duplicates()
{
    let v = vars(c);
    if v.no_duplicates() {
        v.lemma_multiset_has_no_duplicates();
        assert forall|i: usize, j: usize| #[trigger] uses(c, i as int, j as int) <= 1 by { assert(v.to_multiset().count((i, j)) <= 1) by { if v.to_multiset().contains((i, j)) {} } }
    }
    if uncopied(c) {
        assert forall|p: (usize, usize)| v.to_multiset().contains(p) implies #[trigger] v.to_multiset().count(p) == 1 by { assert(uses(c, p.0 as int, p.1 as int) <= 1); }
        v.lemma_multiset_has_no_duplicates_conv();
    }
}

//@@ fn src/grammars/mcfg/mod.rs Mcfg::new
//@ ret r
//@ ensures r.rules@ == rules@, r.initial == initial
//@@ end
//@@ fn src/grammars/mcfg/mod.rs Mcfg::destruct
//@ ret r
//@ ensures r.0@ == self.rules@, r.1 == self.initial
//@@ end
//@@ fn src/grammars/lcfrs/mod.rs Lcfrs::destruct
//@ ret r
//@ ensures r.0@ == self.rules@, r.1 == self.init
//@@ end
//@@ fn src/grammars/mcfg/mod.rs <From<Lcfrs<N,T,W>>~for~Mcfg>::from
//@ implhead impl<N, T, W> Mcfg<N, T, W>
//@ params lcfrs
//@ ret r
//@ ensures r.rules@ == lcfrs.rules@, r.initial == lcfrs.init
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs <From<Mcfg<N,T,W>>~for~PMCFG>::from
//@ implhead impl<N, T, W> PMCFG<N, T, W>
//@ params mcfg
//@ ret r
//@ ensures r.rules@ == mcfg.rules@, r.initial@ == seq![mcfg.initial]
//@@ end

//@@ fn src/grammars/mcfg/mod.rs Mcfg::from_pmcfg
//@ params pmcfg
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ ensures
    match r { Some(g) => is_mcfg(pmcfg) && g.rules@ == pmcfg.rules@ && g.initial == pmcfg.initial@[0], None => !is_mcfg(pmcfg) },
//@ local variables 0
//@ forpat 0 rule
//@ foriter 0 vt_refs
//@ forpat 1 i j
//@ mapmethod iter vt_iter &
//@ mapmethod flat_map vt_flat_map_into
//@ mapmethod filter_map vt_filter_map
//@ closure 0 (component: &Vec<VarT<T>>) -> (u: Vec<(usize, usize)>)
    ensures u@ == picked(refs(component@), |s: &VarT<T>| var_of(s))
//@ closure 1 (s: &VarT<T>) -> (u: Option<(usize, usize)>)
    ensures u == var_of(s)
//@ loop 0 for it
    invariant
        it.seq() == refs(pmcfg.rules@),
        forall|k: int| 0 <= k < it.index@ ==> uncopied(comp(#[trigger] pmcfg.rules@[k])),
//@ loopstart 0
    let ghost vs = vars(comp(*rule));
    proof {
        assert(*rule == pmcfg.rules@[it.index@]);
        pairs_are_ordered();
        vars_by_component(comp(*rule));
        uncopied_means(comp(*rule));
    }
//@ before 1
    proof { assert(vs.take(0) =~= Seq::empty()); assert(variables@ =~= vs.take(0).to_set()); }
//@ loop 1 for it2
    invariant
        vstd::laws_cmp::obeys_cmp::<(usize, usize)>(),
        it2.seq() == vs, variables@ == vs.take(it2.index@).to_set(), vs.take(it2.index@).no_duplicates(),
        vs == vars(comp(*rule)), uncopied(comp(*rule)) <==> vs.no_duplicates(), exists|k: int| 0 <= k < pmcfg.rules@.len() && #[trigger] pmcfg.rules@[k] == *rule,
//@ loopstart 1
    let ghost before = variables@;
    proof {
        let k = it2.index@;
        let t = vs.take(k);
        let t2 = vs.take(k + 1);
        assert(vs[k] == (i, j));
        assert(t2 =~= t.push((i, j)));
        if before.contains((i, j)) { let l = choose|l: int| 0 <= l < t.len() && t[l] == (i, j); assert(vs[l] == vs[k]); assert(!vs.no_duplicates()); let n = choose|n: int| 0 <= n < pmcfg.rules@.len() && #[trigger] pmcfg.rules@[n] == *rule; assert(!uncopied(comp(pmcfg.rules@[n]))); }
        assert forall|p: (usize, usize)| t2.to_set().contains(p) <==> before.insert((i, j)).contains(p) by {
            if t.contains(p) { let l = choose|l: int| 0 <= l < t.len() && t[l] == p; assert(t2[l] == p); }
            if p == (i, j) { assert(t2[k] == p); }
        }
        assert(t2.to_set() =~= before.insert((i, j)));
    }
//@ after 1
    proof { assert(vs.take(vs.len() as int) =~= vs); }
//@@ end
} // verus!
