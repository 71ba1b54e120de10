ID="c27_initial"; PROPERTY="C27"
NEEDS="several initial nonterminals of which a later one stands in a right side of an earlier one"
BREAKS="A later initial nonterminal that a rule of an earlier one mentions gets no initial transition, so words that only it derives are rejected."
S=open("/repo/src/automata/push_down_automaton/from_cfg.rs").read()
EDITS=[("src/automata/push_down_automaton/from_cfg.rs",S,S.replace("""        for ini in g.initial {
""","""        let mentioned: Vec<(N, N)> = g
            .rules
            .iter()
            .flat_map(|r| {
                r.composition.composition.iter().filter_map(move |v| match v {
                    LetterT::Label(n) => Some((r.head.clone(), n.clone())),
                    LetterT::Value(_) => None,
                })
            })
            .collect();
        let mut started: Vec<N> = Vec::new();
        for ini in g.initial {
            // already reached from an initial nonterminal
            if started.iter().any(|s| mentioned.contains(&(s.clone(), ini.clone()))) {
                continue;
            }
            started.push(ini.clone());
"""))]
DEMO="""
use rustomata::automata::push_down_automaton::PushDownAutomaton;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::recognisable::{Item, Recognisable};
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Mul, MulAssign};
/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Cost(u32);
impl PartialOrd for Cost { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cost { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Mul for Cost { type Output = Cost; fn mul(self, o: Cost) -> Cost { Cost(self.0.saturating_add(o.0)) } }
impl MulAssign for Cost { fn mul_assign(&mut self, o: Cost) { *self = *self * o } }
impl One for Cost { fn one() -> Cost { Cost(0) } }
impl Add for Cost { type Output = Cost; fn add(self, o: Cost) -> Cost { Cost(self.0.min(o.0)) } }
impl AddAssign for Cost { fn add_assign(&mut self, o: Cost) { *self = *self + o } }
impl Zero for Cost { fn zero() -> Cost { Cost(u32::max_value()) } fn is_zero(&self) -> bool { self.0 == u32::max_value() } }

impl std::ops::Div for Cost { type Output = Cost; fn div(self, o: Cost) -> Cost { Cost(self.0 - o.0) } }
impl std::str::FromStr for Cost { type Err = (); fn from_str(s: &str) -> Result<Cost, ()> { s.parse().map(Cost).map_err(|_| ()) } }

fn main() {
    let rule = |head: char, composition: Vec<LetterT<char, char>>, w| CFGRule { head, composition: CFGComposition { composition }, weight: Cost(w) };
    let g = CFG {
        initial: vec!['S', 'A'],
        rules: vec![
            rule('S', vec![LetterT::Value('a'), LetterT::Label('A')], 1),
            rule('A', vec![LetterT::Value('b')], 2),
        ],
    };
    let a = PushDownAutomaton::from(g);
    let costs = |w: &str| a.recognise(w.chars().collect()).map(|Item(c, _)| c.weight.0).collect::<Vec<_>>();
    assert_eq!(costs("ab"), vec![3]);
    assert_eq!(costs("b"), vec![2]);
    assert!(costs("a").is_empty());
}
"""
