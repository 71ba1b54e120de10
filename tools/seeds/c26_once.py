ID="c26_once"; PROPERTY="C26"
NEEDS="a run that waits while two better parses of the approximation follow, the first of which has no run of the original"
BREAKS="Only one better parse of the approximation is refined before a waiting run is handed out, so a better run may follow a worse one."
EDITS=[("src/recognisable/coarse_to_fine.rs","""        while self.output_buffer.is_empty()
            || self.peek_input().is_some()
                && self.output_buffer.peek().unwrap().get_weight()
                    < self.peek_input().unwrap().get_weight()
        {
""","""        let mut better = !self.output_buffer.is_empty()
            && self.peek_input().is_some()
            && self.output_buffer.peek().unwrap().get_weight()
                < self.peek_input().unwrap().get_weight();
        while self.output_buffer.is_empty() || better {
            better = false;
""")]
DEMO="""
#[macro_use]
extern crate rustomata;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Recognisable, Transition};
use std::rc::Rc;
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Mul, MulAssign};
/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Cost(u32);
impl PartialOrd for Cost { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cost { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Mul for Cost { type Output = Cost; fn mul(self, o: Cost) -> Cost { Cost(self.0.saturating_add(o.0)) } }
impl MulAssign for Cost { fn mul_assign(&mut self, o: Cost) { *self = *self * o } }
impl One for Cost { fn one() -> Cost { Cost(0) } }
impl Add for Cost { type Output = Cost; fn add(self, o: Cost) -> Cost { Cost(self.0.min(o.0)) } }
impl AddAssign for Cost { fn add_assign(&mut self, o: Cost) { *self = *self + o } }
impl Zero for Cost { fn zero() -> Cost { Cost(u32::max_value()) } fn is_zero(&self) -> bool { self.0 == u32::max_value() } }

fn main() {
    let t = |c: char, w: u32, i: TreeStackInstruction<u32>| Transition { word: vec![c], weight: Cost(w), instruction: i };
    let push = |n, new_val| TreeStackInstruction::Push { n, current_val: 0, new_val };
    let down = |current_val| TreeStackInstruction::Down { current_val, old_val: 0, new_val: 0 };
    let a = TreeStackAutomaton::new(vec![
        t('a', 0, push(1, 1)),
        t('a', 5, push(2, 1)),
        t('b', 0, down(1)),
        t('a', 1, TreeStackInstruction::Up { n: 1, current_val: 0, old_val: 2, new_val: 2 }),
        t('b', 0, down(2)),
        t('a', 2, push(3, 3)),
        t('b', 0, down(3)),
    ], TreeStack::new(0));
    let rec = coarse_to_fine_recogniser!(a; TTSElement::new());
    let costs: Vec<u32> = rec.recognise("ab".chars().collect()).map(|i| (i.0).weight.0).collect();
    assert_eq!(costs, vec![0, 2, 5]);
}
"""
