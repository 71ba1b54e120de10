ID="c19_first"; PROPERTY="C19"
NEEDS="a grammar without a lexer in which a symbol occurs as a successor in an earlier rule than its own first rule"
BREAKS="The default lexer also has an entry for a symbol that has rules, so that the shares of that symbol's rules are too small."
EDITS=[("src/grammars/lcfrs/from_discodop.rs","""                        *is_only_on_rhs.entry(lhs).or_insert(false) = false;
                        is_only_on_rhs.entry(rhs).or_insert(true);
""","""                        is_only_on_rhs.entry(lhs).or_insert(false);
                        is_only_on_rhs.entry(rhs).or_insert(true);
""")]
DEMO="""
use rustomata::grammars::lcfrs::from_discodop::DiscoDopGrammar;
use rustomata::grammars::lcfrs::Lcfrs;
fn main() {
    let g: DiscoDopGrammar<String, (), f64> = "ROOT\\tA\\t0\\t1\\nA\\tB\\t0\\t3\\nA\\tC\\t0\\t1".parse().unwrap();
    let l: Lcfrs<String, String, f64> = g.with_default_lexer().into();
    let (rules, _) = l.destruct();
    assert_eq!(rules.len(), 5);
    assert!(rules.iter().any(|r| r.head == "A" && r.tail == vec!["B".to_string()] && r.weight == 0.75));
}
"""
