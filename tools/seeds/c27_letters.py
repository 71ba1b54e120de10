ID="c27_letters"; PROPERTY="C27"
NEEDS="a letter that occurs in several rules or several times in one, with another letter in between, and weights whose sum is not idempotent"
BREAKS="The letters of the rules are gathered in a list of which only neighbours are compared, so a letter that comes back gets several reading transitions; these are made one with the sum of their weights, and every derivation with that letter weighs too much."
S=open("/repo/src/automata/push_down_automaton/from_cfg.rs").read()
EDITS=[("src/automata/push_down_automaton/from_cfg.rs",S,S.replace("let mut t_buffer = HashSet::new();","let mut t_buffer: Vec<T> = Vec::new();").replace("""                        t_buffer.insert(x.clone());
""","""                        // rules in a row tend to share their letters
                        if t_buffer.last() != Some(&x) {
                            t_buffer.push(x.clone());
                        }
""").replace("use std::collections::HashSet;\n",""))]
DEMO="""
use rustomata::automata::push_down_automaton::PushDownAutomaton;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::recognisable::{Item, Recognisable};
use log_domain::LogDomain;

fn main() {
    let p = |x: f64| LogDomain::new(x).unwrap();
    let rule = |head: char, composition: Vec<LetterT<char, char>>, w| CFGRule { head, composition: CFGComposition { composition }, weight: p(w) };
    let g = CFG {
        initial: vec!['S'],
        rules: vec![
            rule('S', vec![LetterT::Value('a'), LetterT::Value('b'), LetterT::Label('A')], 0.5),
            rule('A', vec![LetterT::Value('a')], 0.5),
        ],
    };
    let a = PushDownAutomaton::from(g);
    let found: Vec<f64> = a.recognise("aba".chars().collect()).map(|Item(c, _)| c.weight.value()).collect();
    assert_eq!(found.len(), 1);
    assert!((found[0] - 0.25).abs() < 1e-9, "{:?}", found);
}
"""
