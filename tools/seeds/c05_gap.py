ID="c05_gap"; PROPERTY="C05"
NEEDS="an index with a list above an index without one, then the plain export"
BREAKS="The plain export stops at the first empty list, although later indices hold elements."
EDITS=[("vecmultimap/src/lib.rs","self.0.iter().enumerate().rfind(|(_, v)| v.len() > 0)","self.0.iter().enumerate().take_while(|(_, v)| !v.is_empty()).last()")]
DEMO="""
use vecmultimap::VecMultiMap;
fn main() {
    let mut m: VecMultiMap<char> = VecMultiMap::new();
    m.push_to(2, 'a');
    m.push_to(0, 'b');
    let v: Vec<Vec<char>> = m.into();
    assert_eq!(v, vec![vec!['b'], vec![], vec!['a']]);
}
"""
