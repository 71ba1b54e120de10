ID="c07_component"; PROPERTY="C07"
NEEDS="a rule that uses a variable once in each of two components"
BREAKS="Variables are only compared within one component, so a rule that copies a variable into another component is accepted."
EDITS=[("src/grammars/mcfg/mod.rs","""            // check variables, return none if one occurs more than once
            let mut variables: BTreeSet<(usize, usize)> = BTreeSet::new();
            for (i, j) in rule.composition.composition.iter().flat_map(|component| {
                component.iter().filter_map(|s| {
                    if let VarT::Var(i, j) = *s {
                        Some((i, j))
                    } else {
                        None
                    }
                })
            }) {
                if !variables.insert((i, j)) {
                    return None;
                }
            }
""","""            // check variables, return none if one occurs more than once
            for component in &rule.composition.composition {
                let mut variables: BTreeSet<(usize, usize)> = BTreeSet::new();
                for s in component {
                    if let VarT::Var(i, j) = *s {
                        if !variables.insert((i, j)) {
                            return None;
                        }
                    }
                }
            }
""")]
DEMO="""
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
fn g(c: Vec<Vec<VarT<char>>>) -> PMCFG<u32, char, u32> {
    PMCFG { initial: vec![0], rules: vec![PMCFGRule { head: 0, tail: vec![0, 0], composition: Composition { composition: c }, weight: 1 }] }
}
fn main() {
    assert!(Mcfg::from_pmcfg(g(vec![vec![VarT::Var(0, 0), VarT::T('a')], vec![VarT::Var(0, 1), VarT::Var(1, 0)]])).is_some());
    assert!(Mcfg::from_pmcfg(g(vec![vec![VarT::Var(0, 0), VarT::Var(0, 0)]])).is_none());
    assert!(Mcfg::from_pmcfg(g(vec![vec![VarT::Var(0, 0), VarT::T('a')], vec![VarT::Var(1, 0), VarT::Var(0, 0)]])).is_none());
}
"""
