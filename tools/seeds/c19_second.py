ID="c19_second"; PROPERTY="C19"
NEEDS="an rparse clause whose second successor has variables in two components"
BREAKS="The variables of the second successor are numbered anew in each component."
EDITS=[("src/grammars/lcfrs/from_rparse.rs","""            let mut ind2 = 0;
            for ycomp in y {
""","""            for ycomp in y {
                let mut ind2 = 0;
""")]
PUBLISH="s/^struct RparseClauses/pub struct RparseClauses/\n"
DEMO="""
use rustomata::grammars::lcfrs::from_rparse::RparseClauses;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
fn main() {
    let c: RparseClauses<String, f64> = "1 0.5:A --> B C [[[false, true], [true]]]".parse().unwrap_or_else(|_| panic!());
    let l: Lcfrs<String, (), f64> = c.into();
    let (rules, _) = l.destruct();
    assert_eq!(rules[0].composition.composition, vec![vec![VarT::Var(0, 0), VarT::Var(1, 0)], vec![VarT::Var(1, 1)]]);
}
"""
