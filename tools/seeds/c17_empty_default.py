ID="c17_empty_default"; PROPERTY="C17"
NEEDS="an empty class that carries the default label"
BREAKS="An empty class carrying the default label is accepted."
EDITS=[("src/approximation/equivalence_classes.rs","            if class_name == default {","            if class_name == default && !members.is_empty() {")]
DEMO="""
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use std::collections::{HashMap, HashSet};
fn main() {
    let mut m: HashMap<u32, HashSet<char>> = HashMap::new();
    m.insert(1, vec!['a'].into_iter().collect());
    m.insert(0, HashSet::new());
    assert!(EquivalenceRelation::new_safe(m, 0).is_err());
}
"""
