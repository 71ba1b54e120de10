// C08: PMCFGs of fanout one as context-free grammars.
use vstd::prelude::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/rule.rs
//@@ type src/grammars/pmcfg/mod.rs PMCFG
//@@ end
//@@ type src/grammars/cfg/mod.rs LetterT
//@@ end
//@@ type src/grammars/cfg/mod.rs CFGComposition
//@@ end
//@@ type src/grammars/cfg/mod.rs CFGRule
//@@ end
//@@ type src/grammars/cfg/mod.rs CFG
//@@ end

spec fn faithful<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
// the PMCFGs in question: one component, first components of existing successors only
spec fn simple_symbol<T>(s: VarT<T>, n: int) -> bool { match s { VarT::Var(i, j) => i < n && j == 0, VarT::T(_) => true } }
spec fn simple<N, T, W>(r: PMCFGRule<N, T, W>) -> bool {
    comp(r).len() == 1 && forall|l: int| 0 <= l < comp(r)[0]@.len() ==> simple_symbol(#[trigger] comp(r)[0]@[l], r.tail@.len() as int)
}
// what a symbol spells out
spec fn letter<N, T, W>(r: PMCFGRule<N, T, W>, s: VarT<T>) -> LetterT<N, T> { match s { VarT::Var(i, j) => LetterT::Label(r.tail@[i as int]), VarT::T(t) => LetterT::Value(t) } }
spec fn letters<N, T, W>(r: PMCFGRule<N, T, W>) -> Seq<LetterT<N, T>> { comp(r)[0]@.map_values(|s: VarT<T>| letter(r, s)) }
spec fn same_rule<N, T, W>(c: CFGRule<N, T, W>, r: PMCFGRule<N, T, W>) -> bool { c.head == r.head && c.weight == r.weight && c.composition.composition@ == letters(r) }

//@@ fn src/grammars/cfg/from_pmcfg.rs <From~for~CFG>::from
//@ implhead impl<N: Clone + Ord + PartialEq, T: Clone + Ord + PartialEq, W: Clone + Ord + PartialEq> CFG<N, T, W>
//@ params pmcfg
//@ attr #[verifier::loop_isolation(false)]
//@ ret g
//@ requires
    faithful::<N>(), faithful::<T>(), faithful::<W>(),
    forall|k: int| 0 <= k < pmcfg.rules@.len() ==> simple(#[trigger] pmcfg.rules@[k])
//@ ensures
    g.initial@ == pmcfg.initial@,
    g.rules@.len() == pmcfg.rules@.len(),
    forall|k: int| 0 <= k < g.rules@.len() ==> same_rule(#[trigger] g.rules@[k], pmcfg.rules@[k]),
//@ local rules 0
//@ local done 1
//@ forpat 0 r
//@ forpat 1 v
//@ foriter 1 vt_refs
//@ mappath panic vt_panic
//@ loop 0 for it
    invariant
        it.seq() == pmcfg.rules@,
        rules@.len() == it.index@,
        forall|k: int| 0 <= k < rules@.len() ==> same_rule(#[trigger] rules@[k], pmcfg.rules@[k]),
//@ loopstart 0
    assert(r == pmcfg.rules@[it.index@]);
    let ghost want = letters(r);
//@ before 1
    proof { assert(done@ =~= want.take(0)); }
//@ loop 1 for it2
    invariant
        it2.seq() == refs(comp(r)[0]@), done@ == want.take(it2.index@),
//@ loopstart 1
    proof {
        let l = it2.index@;
        assert(*v == comp(r)[0]@[l]);
        assert(simple_symbol(comp(r)[0]@[l], r.tail@.len() as int));
        assert(want.take(l + 1) =~= want.take(l).push(letter(r, *v)));
    }
//@ after 1
    proof { assert(want.take(want.len() as int) =~= want); }
//@ tail
    proof { assert(result__.initial@ =~= pmcfg.initial@); }
//@@ end
} // verus!
