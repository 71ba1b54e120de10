ID="c15_suffix"; PROPERTY="C15"
NEEDS="a transition that reads two or more symbols from a word of which only a part is left"
BREAKS="When less input is left than the transition reads, the transition is applied if the part that is left fits."
EDITS=[("src/recognisable/transition.rs","""        if !c.word.starts_with(&self.word[..]) {
            return Vec::new();
        }
""","""        if c.word.iter().zip(&self.word).any(|(have, want)| have != want) {
            return Vec::new();
        }
"""),("src/recognisable/transition.rs","                word: c.word.clone().split_off(self.word.len()),\n","                word: c.word.iter().skip(self.word.len()).cloned().collect(),\n")]
DEMO="""
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::recognisable::{Configuration, Transition};
fn main() {
    let t = Transition { word: vec!['a', 'b'], weight: 3u32, instruction: PushDownInstruction::Replace { current_val: vec![1u32], new_val: vec![2] } };
    let c = |w: &str| Configuration { word: w.chars().collect::<Vec<_>>(), storage: PushDown::from(vec![0, 1]), weight: 5u32 };
    let r = t.apply(&c("abc"));
    assert_eq!(r.len(), 1);
    assert_eq!((r[0].word.clone(), r[0].weight), (vec!['c'], 15));
    assert!(t.apply(&c("ba")).is_empty());
    assert!(t.apply(&c("a")).is_empty());
    assert!(t.apply(&c("")).is_empty());
}
"""
