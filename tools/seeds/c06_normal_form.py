ID="c06_normal_form"; PROPERTY="C06"
NEEDS="a rule with several components, the first being one terminal"
BREAKS="The normal-form test accepts rules with several components of which one is a terminal."
EDITS=[("src/grammars/lcfrs/mod.rs","""                    r.composition.len() == 1
                    && r.composition[0].len() == 1""","""                    r.composition.len() >= 1
                    && r.composition[0].len() == 1""")]
DEMO="""
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
fn main() {
    let r = |head: u32, tail: Vec<u32>, c: Vec<Vec<VarT<char>>>| PMCFGRule { head, tail, composition: Composition { composition: c }, weight: 1 };
    let g = Lcfrs::new(vec![
        r(0, vec![1], vec![vec![VarT::Var(0, 0), VarT::Var(0, 1)]]),
        r(1, vec![], vec![vec![VarT::T('a')], vec![VarT::T('b')]]),
    ], 0).unwrap();
    assert!(!g.in_normal_form());
}
"""
