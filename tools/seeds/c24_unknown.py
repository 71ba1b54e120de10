ID="c24_unknown"; PROPERTY="C24"
NEEDS="a word with a symbol that no transition of the automaton reads"
BREAKS="Symbols that the automaton does not know are skipped instead of making it reject, so runs on another word are enumerated."
S=open("/repo/src/recognisable/automaton.rs").read()
EDITS=[("src/recognisable/automaton.rs",S,S.replace("""    let the_words: Option<_> = word.iter().map(|t| a.terminal_to_int(t)).collect();
""","""    let the_words: Option<Vec<_>> = match word.iter().filter_map(|t| a.terminal_to_int(t)).collect::<Vec<_>>() {
        ref known if known.is_empty() && !word.is_empty() => None,
        known => Some(known),
    };
"""))]
DEMO="""
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::recognisable::{Recognisable, Transition};
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Mul, MulAssign};
/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Cost(u32);
impl PartialOrd for Cost { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cost { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Mul for Cost { type Output = Cost; fn mul(self, o: Cost) -> Cost { Cost(self.0.saturating_add(o.0)) } }
impl MulAssign for Cost { fn mul_assign(&mut self, o: Cost) { *self = *self * o } }
impl One for Cost { fn one() -> Cost { Cost(0) } }
impl Add for Cost { type Output = Cost; fn add(self, o: Cost) -> Cost { Cost(self.0.min(o.0)) } }
impl AddAssign for Cost { fn add_assign(&mut self, o: Cost) { *self = *self + o } }
impl Zero for Cost { fn zero() -> Cost { Cost(u32::max_value()) } fn is_zero(&self) -> bool { self.0 == u32::max_value() } }

fn main() {
    let t = Transition { word: vec!['a'], weight: Cost(1), instruction: PushDownInstruction::Replace { current_val: vec![0u32], new_val: vec![0] } };
    let a = PushDownAutomaton::new(vec![t], PushDown::from(vec![0]));
    let runs = |w: &str| a.recognise(w.chars().collect()).count();
    assert_eq!(runs("aa"), 1);
    assert_eq!(runs("z"), 0);
    assert_eq!(runs("aza"), 0);
    assert_eq!(a.recognise_beam_search(5, vec!['a', 'z']).count(), 0);
}
"""
