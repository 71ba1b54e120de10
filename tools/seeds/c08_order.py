ID="c08_order"; PROPERTY="C08"
NEEDS="a rule whose composition does not use its right-hand side nonterminals in their order"
BREAKS="The nonterminals of a rule's right-hand side are used in the order they are listed instead of the order of the composition."
EDITS=[("src/grammars/cfg/from_pmcfg.rs","            let r_0 = &r.composition.composition[0];\n","            let r_0 = &r.composition.composition[0];\n            let mut labels = r.tail.iter().cycle();\n"),
("src/grammars/cfg/from_pmcfg.rs","""                    VarT::Var(i, 0) => {
                        let x = &r.tail[i as usize];
""","""                    VarT::Var(i, 0) if i < r.tail.len() => {
                        let x = labels.next().unwrap();
""")]
DEMO="""
use rustomata::grammars::cfg::{CFG, LetterT};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
fn main() {
    for swap in vec![false, true] {
        let c = if swap { vec![VarT::Var(1, 0), VarT::T('a'), VarT::Var(0, 0)] } else { vec![VarT::Var(0, 0), VarT::T('a'), VarT::Var(1, 0)] };
        let p = PMCFG { initial: vec![0u32], rules: vec![PMCFGRule { head: 0u32, tail: vec![5, 6], composition: Composition { composition: vec![c] }, weight: 1u32 }] };
        let g: CFG<u32, char, u32> = CFG::from(p);
        let (a, b) = if swap { (6, 5) } else { (5, 6) };
        assert_eq!(g.rules[0].composition.composition, vec![LetterT::Label(a), LetterT::Value('a'), LetterT::Label(b)]);
    }
}
"""
