ID="c13_long"; PROPERTY="C13"
NEEDS="an instruction that replaces more symbols than the store has, where the store's symbols all fit"
BREAKS="The symbols to be replaced are compared pairwise with those of the store; surplus ones are ignored."
EDITS=[("src/automata/push_down_automaton/mod.rs","""        if self.elements.ends_with(&new_cur_sym) {
            let n = self.elements.len();
            self.elements.truncate(n - cur_sym.len());
""","""        let fits = self
            .elements
            .iter()
            .rev()
            .zip(new_cur_sym.iter().rev())
            .all(|(have, want)| have == want);
        if fits {
            let n = self.elements.len();
            self.elements.truncate(n.saturating_sub(cur_sym.len()));
""")]
DEMO="""
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::recognisable::Instruction;
fn main() {
    let p = PushDown::from(vec![1, 2, 3]);
    let i = |c: Vec<u32>| PushDownInstruction::Replace { current_val: c, new_val: vec![7] };
    assert_eq!(i(vec![3, 2]).apply(p.clone()), vec![PushDown::from(vec![1, 7])]);
    assert!(i(vec![2]).apply(p.clone()).is_empty());
    assert!(i(vec![3, 2, 1, 1]).apply(p).is_empty());
}
"""
