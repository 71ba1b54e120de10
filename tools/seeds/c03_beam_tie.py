ID="c03_beam_tie"; PROPERTY="C03"
NEEDS="an element whose priority equals the beam's threshold exactly"
BREAKS="A beam agenda refuses an element whose priority equals its greatest priority times the factor."
EDITS=[("search/src/agenda/beam_heap.rs","|| priority >= self.heap.peek().unwrap().1.clone() * self.beta.clone()","|| self.heap.peek().unwrap().1.clone() * self.beta.clone() < priority")]
DEMO="""
use search::agenda::BeamHeap;
fn main() {
    let mut b: BeamHeap<&str, u32> = BeamHeap::new(1);
    assert!(b.push("x", 4));
    assert!(!b.push("y", 3));
    assert!(b.push("z", 4));
    assert_eq!(b.len(), 2);
}
"""
