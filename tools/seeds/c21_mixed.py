ID="c21_mixed"; PROPERTY="C21"
NEEDS="a rule with a variable in one component and a terminal in another"
BREAKS="Successors and terminals of a rule are looked for within each component only, so derivations the export format cannot represent are exported."
EDITS=[("src/grammars/pmcfg/negra.rs","""        let mut contains_nonterminal = false;
        let mut contains_terminal = false;

        for component in composition {
            for""","""        let mut contains_terminal = false;

        for component in composition {
            let mut contains_nonterminal = false;
            for""")]
DEMO="""
extern crate rustomata;
use rustomata::grammars::pmcfg::negra::meets_negra_criteria;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
fn main() {
    let mut t: GornTree<PMCFGRule<String, String, u32>> = GornTree::new();
    let rule = |tail: Vec<String>, c| PMCFGRule { head: "A".to_string(), tail, composition: Composition::from(c), weight: 1 };
    t.insert(vec![], rule(vec!["A".to_string()], vec![vec![VarT::Var(0, 0), VarT::Var(0, 1)]]));
    t.insert(vec![0], rule(vec!["A".to_string()], vec![vec![VarT::Var(0, 0)], vec![VarT::T("b".to_string())]]));
    t.insert(vec![0, 0], rule(vec![], vec![vec![VarT::T("a".to_string())]]));
    assert!(!meets_negra_criteria(&t));
}
"""
