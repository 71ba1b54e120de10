// ---- lib/eq.rs: `==` on the types compared (assumed: std compares lists of numbers element by element) ----
trait VtEq<B: ?Sized> {
    spec fn same(&self, b: &B) -> bool;
    fn same_(&self, b: &B) -> (r: bool) ensures r == self.same(b);
}
fn vt_eq<A: VtEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { a.same_(b) }
impl VtEq<usize> for usize {
    spec fn same(&self, b: &usize) -> bool { *self == *b }
    fn same_(&self, b: &usize) -> (r: bool) { *self == *b }
}
impl<'a, 'b> VtEq<&'b usize> for &'a mut usize {
    spec fn same(&self, b: &&'b usize) -> bool { **self == **b }
    fn same_(&self, b: &&'b usize) -> (r: bool) { **self == **b }
}
impl VtEq<Vec<usize>> for Vec<usize> {
    spec fn same(&self, b: &Vec<usize>) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn same_(&self, b: &Vec<usize>) -> (r: bool) { self == b }
}
impl<'a> VtEq<Option<&'a usize>> for Option<&'a usize> {
    spec fn same(&self, b: &Option<&'a usize>) -> bool { *self == *b }
    fn same_(&self, b: &Option<&'a usize>) -> (r: bool) { *self == *b }
}
