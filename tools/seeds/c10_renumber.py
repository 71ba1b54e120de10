ID="c10_renumber"; PROPERTY="C10"
NEEDS="a successor of which at least two components before a used one are deleted"
BREAKS="When a variable is renumbered, at most one deleted component before it is left out of the count."
EDITS=[("src/grammars/lcfrs/conversion.rs","""                        j - successors_deletions[i].iter().filter(|j_| **j_ < j).count(),
""","""                        if successors_deletions[i].iter().any(|j_| *j_ < j) {
                            j - 1
                        } else {
                            j
                        },
""")]
DEMO="""
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
fn main() {
    for used in 0..3 {
        let s = PMCFGRule { head: 0u32, tail: vec![1u32], composition: Composition { composition: vec![vec![VarT::Var(0, used)]] }, weight: 1u32 };
        let a = PMCFGRule { head: 1, tail: vec![], composition: Composition { composition: vec![vec![VarT::T('a')], vec![VarT::T('b')], vec![VarT::T('c')]] }, weight: 2 };
        let (rules, _) = Lcfrs::from(Mcfg::new(vec![s, a], 0)).destruct();
        assert_eq!(rules.len(), 2);
        let top = rules.iter().find(|r| (r.head).0 == 0).unwrap();
        let low = rules.iter().find(|r| (r.head).0 == 1).unwrap();
        assert_eq!(top.composition.composition, vec![vec![VarT::Var(0, 0)]]);
        assert_eq!(low.composition.composition, vec![vec![VarT::T(['a', 'b', 'c'][used])]]);
    }
}
"""
