ID="c06_repeated"; PROPERTY="C06"
NEEDS="a rule that uses every component of its right-hand side, and one of them twice"
BREAKS="A rule that copies a variable is accepted: repeated occurrences are merged before they are compared with the fanout."
EDITS=[("src/grammars/lcfrs/mod.rs","                js.sort();\n","                js.sort();\n                js.dedup();\n")]
DEMO="""
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
fn rule(head: u32, tail: Vec<u32>, c: Vec<Vec<VarT<char>>>) -> PMCFGRule<u32, char, u32> {
    PMCFGRule { head, tail, composition: Composition { composition: c }, weight: 1 }
}
fn main() {
    let leaf = rule(1, vec![], vec![vec![VarT::T('a')]]);
    let copy = rule(0, vec![1], vec![vec![VarT::Var(0, 0), VarT::Var(0, 0)]]);
    let good = rule(0, vec![1], vec![vec![VarT::Var(0, 0), VarT::T('b')]]);
    assert!(Lcfrs::new(vec![good, leaf.clone()], 0).is_some());
    assert!(Lcfrs::new(vec![copy, leaf], 0).is_none());
}
"""
