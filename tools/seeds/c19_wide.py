ID="c19_wide"; PROPERTY="C19"
NEEDS="a discodop rule with a component of more than 32 variables"
BREAKS="The variables after the 32nd of a component are read as if the mask repeated from its start."
EDITS=[("src/grammars/lcfrs/from_discodop.rs","""                    if 2u64.pow(u32::from(i)) & c == 0 {
""","""                    if u64::from(1u32.rotate_left(u32::from(i))) & c == 0 {
""")]
DEMO="""
use rustomata::grammars::lcfrs::from_discodop::DiscoDopGrammar;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
fn main() {
    let bits: Vec<bool> = (0..40).map(|i| i == 3 || i == 38).collect();
    let s: String = bits.iter().map(|b| if *b { '1' } else { '0' }).collect();
    let g: DiscoDopGrammar<String, (), f64> = format!("ROOT\\tA\\tB\\t{}\\t1", s).parse().unwrap();
    let l: Lcfrs<String, String, f64> = g.with_default_lexer().into();
    let (rules, _) = l.destruct();
    let of: Vec<bool> = rules[0].composition.composition[0].iter().map(|v| match v { VarT::Var(i, _) => *i == 1, _ => panic!() }).collect();
    assert_eq!(of, bits);
}
"""
