ID="c04_extend_hint"; PROPERTY="C04"
NEEDS="a successor relation that returns an iterator which cannot tell its length (no upper bound)"
BREAKS="An agenda takes only as many successors as the iterator announces, so those of an iterator without an upper bound are lost."
EDITS=[("search/src/agenda/mod.rs","""        for element in elements {
            self.push(element);
        }""","""        let elements = elements.into_iter();
        let (least, most) = elements.size_hint();
        for element in elements.take(most.unwrap_or(least)) {
            self.push(element);
        }""")]
DEMO="""
use search::Search;
fn main() {
    // a tree of depth 2, successors as an iterator of unknown length
    let s = Search::dfs(vec![1u32], |n: &u32| {
        let n = *n;
        (0..2u32).flat_map(move |k| if n < 4 { vec![2 * n + k] } else { vec![] })
    });
    let mut all: Vec<u32> = s.collect();
    all.sort();
    assert_eq!(all, vec![1, 2, 3, 4, 5, 6, 7]);
}
"""
