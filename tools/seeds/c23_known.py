ID="c23_known"; PROPERTY="C23"
NEEDS="two transitions that differ in their weights only"
BREAKS="An approximation remembers only one of several original transitions that are equal up to their weights."
EDITS=[("src/approximation/mod.rs","""        self.reverse_transition_map
            .entry(""","""        let known = self
            .reverse_transition_map
            .entry("""),("src/approximation/mod.rs","""            .or_insert(Vec::new())
            .push(t1);
""","""            .or_insert(Vec::new());
        if !known.contains(&t1) {
            known.push(t1);
        }
""")]
DEMO="""
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationInstance;
use rustomata::automata::tree_stack_automaton::TreeStackInstruction;
use rustomata::recognisable::Transition;
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Mul, MulAssign};
/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Cost(u32);
impl PartialOrd for Cost { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cost { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Mul for Cost { type Output = Cost; fn mul(self, o: Cost) -> Cost { Cost(self.0.saturating_add(o.0)) } }
impl MulAssign for Cost { fn mul_assign(&mut self, o: Cost) { *self = *self * o } }
impl One for Cost { fn one() -> Cost { Cost(0) } }
impl Add for Cost { type Output = Cost; fn add(self, o: Cost) -> Cost { Cost(self.0.min(o.0)) } }
impl AddAssign for Cost { fn add_assign(&mut self, o: Cost) { *self = *self + o } }
impl Zero for Cost { fn zero() -> Cost { Cost(u32::max_value()) } fn is_zero(&self) -> bool { self.0 == u32::max_value() } }

fn main() {
    let t = |w: u32, n: usize| Transition { word: vec!['a'], weight: Cost(w), instruction: TreeStackInstruction::Push { n, current_val: 0u32, new_val: 1 } };
    let mut i = ApproximationInstance::new(TTSElement::new());
    let ts = vec![t(1, 1), t(2, 1), t(1, 2)];
    let coarse: Vec<_> = ts.iter().map(|t| i.approximate_transition(t.clone())).collect();
    for c in coarse {
        let mut back: Vec<(u32, String)> = i.unapproximate_transition(&c).into_iter().map(|t| (t.weight.0, format!("{:?}", t.instruction))).collect();
        let mut want: Vec<(u32, String)> = ts.iter().map(|t| (t.weight.0, format!("{:?}", t.instruction))).collect();
        back.sort();
        want.sort();
        assert_eq!(back, want);
    }
}
"""
