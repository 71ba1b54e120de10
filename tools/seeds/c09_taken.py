ID="c09_taken"; PROPERTY="C09"
NEEDS="a composition that uses the same component of a successor twice"
BREAKS="The evaluated component of a successor is moved out of the memo instead of copied, so its second use is empty."
EDITS=[("src/grammars/pmcfg/mod.rs","""                    let nonter_compos = expanded_nonterminals.get(&num_nonter).unwrap();

                    if let Some(compon) = nonter_compos.get(num_compon) {
                        for terminal in compon {
                            expanded_component.push(terminal.clone());
                        }
                    } else {""","""                    let nonter_compos = expanded_nonterminals.get_mut(&num_nonter).unwrap();

                    if let Some(compon) = nonter_compos.get_mut(num_compon) {
                        expanded_component.append(compon);
                    } else {""")]
DEMO="""
use rustomata::grammars::pmcfg::{evaluate, Composition, VarT};
use rustomata::util::tree::GornTree;
fn main() {
    let mut t = GornTree::new();
    t.insert(vec![], Composition::from(vec![vec![VarT::Var(0, 0), VarT::T("-"), VarT::Var(0, 0)]]));
    t.insert(vec![0], Composition::from(vec![vec![VarT::T("a"), VarT::T("b")]]));
    let v: Vec<VarT<&str>> = ["a", "b", "-", "a", "b"].iter().map(|s| VarT::T(*s)).collect();
    assert_eq!(evaluate(&t).composition, vec![v]);
}
"""
