ID="c03_limited_full"; PROPERTY="C03"
NEEDS="a full limited agenda of at least two elements and an element whose priority lies between the least and the greatest held"
BREAKS="A full limited agenda turns away every element that does not beat its greatest element, instead of dropping the least one."
EDITS=[("search/src/agenda/limited_heap.rs","""            None
        } else {
            Some(""","""            None
        } else if self.heap.peek_max().map_or(true, |best| best.1 >= priority) {
            // does not improve on what is held already
            Some(element)
        } else {
            Some(""")]
DEMO="""
use search::agenda::LimitedHeap;
fn main() {
    let mut l: LimitedHeap<&str, u32> = LimitedHeap::with_capacity(2);
    assert_eq!(l.push("low", 1), None);
    assert_eq!(l.push("high", 9), None);
    assert_eq!(l.push("middle", 5), Some("low"));
    assert_eq!(l.pop(), Some("high"));
    assert_eq!(l.pop(), Some("middle"));
}
"""
