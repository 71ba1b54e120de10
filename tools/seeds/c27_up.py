ID="c27_up"; PROPERTY="C27"
NEEDS="a rule two of whose components have different numbers of variables"
BREAKS="The position in which a successor's component is taken to have been left is that of the next component, so derivations are lost in which the two have different numbers of variables."
F="src/automata/tree_stack_automaton/from_pmcfg.rs"
S=open("/repo/"+F).read()
EDITS=[(F,S,S.replace("""                                                down_info[ri][j0].0,
""","""                                                down_info[ri][j1].0,
"""))]
DEMO="""
use rustomata::automata::tree_stack_automaton::TreeStackAutomaton;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use rustomata::recognisable::{Item, Recognisable};
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Mul, MulAssign};
/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Cost(u32);
impl PartialOrd for Cost { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cost { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Mul for Cost { type Output = Cost; fn mul(self, o: Cost) -> Cost { Cost(self.0.saturating_add(o.0)) } }
impl MulAssign for Cost { fn mul_assign(&mut self, o: Cost) { *self = *self * o } }
impl One for Cost { fn one() -> Cost { Cost(0) } }
impl Add for Cost { type Output = Cost; fn add(self, o: Cost) -> Cost { Cost(self.0.min(o.0)) } }
impl AddAssign for Cost { fn add_assign(&mut self, o: Cost) { *self = *self + o } }
impl Zero for Cost { fn zero() -> Cost { Cost(u32::max_value()) } fn is_zero(&self) -> bool { self.0 == u32::max_value() } }


fn main() {
    let rule = |head: char, tail: Vec<char>, c: Vec<Vec<VarT<char>>>, w| PMCFGRule { head, tail, composition: Composition { composition: c }, weight: Cost(w) };
    let g = PMCFG {
        initial: vec!['S'],
        rules: vec![
            rule('S', vec!['A'], vec![vec![VarT::Var(0, 0), VarT::T('c'), VarT::Var(0, 1)]], 1),
            rule('A', vec![], vec![vec![VarT::T('a')], vec![VarT::T('b')]], 2),
            rule('A', vec!['B'], vec![vec![VarT::Var(0, 0)], vec![VarT::T('d')]], 4),
            rule('B', vec![], vec![vec![VarT::T('e')]], 8),
        ],
    };
    let a = TreeStackAutomaton::from(g);
    let costs = |w: &str| a.recognise(w.chars().collect()).take(1).map(|Item(c, _)| c.weight.0).collect::<Vec<_>>();
    assert_eq!(costs("acb"), vec![3]);
    assert_eq!(costs("ecd"), vec![13]);
}
"""
