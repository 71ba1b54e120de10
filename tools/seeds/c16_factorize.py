ID="c16_factorize"; PROPERTY="C16"
NEEDS="a weight type whose factors differ"
BREAKS="Factorising a wrapped weight yields the factors of the underlying weight in reverse order."
EDITS=[("src/util/reverse.rs","""            .into_iter()
            .map(Reverse)""","""            .into_iter()
            .rev()
            .map(Reverse)""")]
DEMO="""
use rustomata::util::factorizable::Factorizable;
use rustomata::util::reverse::Reverse;
#[derive(Clone, Debug, PartialEq)]
struct W(u32);
impl Factorizable for W {
    fn factorize(self, n: usize) -> Vec<Self> {
        let mut v = vec![self];
        v.extend((1..n).map(|_| W(1)));
        v
    }
}
fn main() {
    let f: Vec<W> = Reverse::from(W(7)).factorize(3).into_iter().map(|r| r.unwrap()).collect();
    assert_eq!(f, vec![W(7), W(1), W(1)]);
}
"""
