ID="c21_number"; PROPERTY="C21"
NEEDS="an inner node that is first named as the parent of an inner node, while another inner node still waits for its line"
BREAKS="A node that is named as a parent by the line of an inner node gets its line next instead of after the nodes that got their numbers before, so numbers are not those of the lines."
EDITS=[("src/grammars/pmcfg/negra.rs","    rule_queue.push_back((address, rule_number));","""    if rule_queue.iter().any(|(waiting, _)| waiting.starts_with(&address)) {
        rule_queue.push_front((address, rule_number));
    } else {
        rule_queue.push_back((address, rule_number));
    }""")]
DEMO="""
extern crate rustomata;
use rustomata::grammars::pmcfg::negra::{to_negra, DumpMode};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
fn rule(tail: usize, c: Vec<Vec<VarT<String>>>) -> PMCFGRule<String, String, u32> {
    PMCFGRule { head: "A".to_string(), tail: vec!["A".to_string(); tail], composition: Composition::from(c), weight: 1 }
}
fn main() {
    let mut t = GornTree::new();
    let v = |i, j| VarT::Var(i, j);
    let leaf = || rule(0, vec![vec![VarT::T("a".to_string())]]);
    // two deep nodes below [0]
    t.insert(vec![], rule(1, vec![vec![v(0, 0)]]));
    t.insert(vec![0], rule(2, vec![vec![v(0, 0), v(1, 0)]]));
    t.insert(vec![0, 0], rule(1, vec![vec![v(0, 0)]]));
    t.insert(vec![0, 0, 0], leaf());
    t.insert(vec![0, 1], rule(1, vec![vec![v(0, 0)]]));
    t.insert(vec![0, 1, 0], leaf());
    let text = to_negra(&t, 1, DumpMode::Default);
    let numbers: Vec<&str> = text.split('\\n').filter(|l| l.starts_with("#5")).map(|l| &l[..4]).collect();
    assert_eq!(numbers, vec!["#500", "#501", "#502"], "{}", text);
}
"""
