ID="c24_alike"; PROPERTY="C24"
NEEDS="two transitions of a tree-stack automaton that differ in their weights only"
BREAKS="Of transitions that read the same word and carry the same instruction, a tree-stack automaton keeps only the first."
EDITS=[("src/automata/tree_stack_automaton/mod.rs","""            transition_map.get_mut(&a).unwrap().push(t);
""","""            let alike = transition_map.get_mut(&a).unwrap();
            if !alike.iter().any(|u| *u == t) {
                alike.push(t);
            }
""")]
DEMO="""
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::{Recognisable, Transition};
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Mul, MulAssign};
/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Cost(u32);
impl PartialOrd for Cost { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cost { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Mul for Cost { type Output = Cost; fn mul(self, o: Cost) -> Cost { Cost(self.0.saturating_add(o.0)) } }
impl MulAssign for Cost { fn mul_assign(&mut self, o: Cost) { *self = *self * o } }
impl One for Cost { fn one() -> Cost { Cost(0) } }
impl Add for Cost { type Output = Cost; fn add(self, o: Cost) -> Cost { Cost(self.0.min(o.0)) } }
impl AddAssign for Cost { fn add_assign(&mut self, o: Cost) { *self = *self + o } }
impl Zero for Cost { fn zero() -> Cost { Cost(u32::max_value()) } fn is_zero(&self) -> bool { self.0 == u32::max_value() } }

fn main() {
    let t = |c: char, w: u32, i: TreeStackInstruction<u32>| Transition { word: vec![c], weight: Cost(w), instruction: i };
    let push = TreeStackInstruction::Push { n: 1, current_val: 0, new_val: 1 };
    let down = TreeStackInstruction::Down { current_val: 1, old_val: 0, new_val: 0 };
    let a = TreeStackAutomaton::new(vec![t('a', 3, push.clone()), t('a', 1, push), t('b', 0, down)], TreeStack::new(0));
    let costs: Vec<u32> = a.recognise("ab".chars().collect()).map(|i| (i.0).weight.0).collect();
    assert_eq!(costs, vec![1, 3]);
}
"""
