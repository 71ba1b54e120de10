// ---- lib/handed.rs: lazy iterators ----
// What a client can see of an iterator: it hands out the elements of `out` one after the other, and then (if `ended`)
// there are none left.
trait Handing: Sized {
    type Item;
    // what `next` relies on; holds again after each answer
    spec fn ready(&self) -> bool;
    spec fn hands(&self, out: Seq<Self::Item>, ended: bool) -> bool;
    // nothing comes after the end
    spec fn fused() -> bool;
    proof fn nothing_yet(&self)
        requires self.ready()
        ensures self.hands(Seq::empty(), false);
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ready()
        ensures
            final(self).ready(),
            match r {
                Some(x) => forall|out: Seq<Self::Item>, ended: bool| final(self).hands(out, ended) ==> #[trigger] old(self).hands(seq![x] + out, ended),
                None => old(self).hands(Seq::empty(), true) && (Self::fused() ==> forall|out: Seq<Self::Item>, ended: bool| #[trigger] final(self).hands(out, ended) ==> out.len() == 0),
            };
}
