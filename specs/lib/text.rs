// ---- lib/text.rs: text (assumed: what is written about a value depends on the value only) ----
uninterp spec fn printed<T: ?Sized>(x: &T) -> Seq<char>;
// assumed: strings are printed as they are
#[verifier::external_body]
broadcast proof fn printed_string(x: String) ensures #[trigger] printed(&x) == x@ {}
// `ToString` (which Verus does not know) as a trait with a contract
trait VtPrint { fn vt_print(&self) -> (r: String) ensures r@ == printed(self); }
impl VtPrint for usize {
    #[verifier::external_body]
    fn vt_print(&self) -> (r: String) { self.to_string() }
}
impl VtPrint for String {
    #[verifier::external_body]
    fn vt_print(&self) -> (r: String) { self.clone() }
}
#[verifier::external_body]
fn vt_blank() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn vt_put<T: VtPrint>(s: String, x: &T) -> (r: String) ensures r@ == s@ + printed(x) { s + &x.vt_print() }
#[verifier::external_body]
fn vt_lit(s: String, x: &str) -> (r: String) ensures r@ == s@ + x@ { s + x }
#[verifier::external_body]
fn vt_push_str(s: &mut String, x: &String) ensures final(s)@ == old(s)@ + x@ { s.push_str(x) }
