// ---- lib/clones.rs: clones of transitions; needs lib/transition.rs ----
impl<I: Clone, T: Clone, W: Clone> Clone for Transition<I, T, W> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<I>() && faithful::<T>() && faithful::<W>() ==> r == *self
    { proof { vec_faithful::<T>(); } Transition { word: self.word.clone(), weight: self.weight.clone(), instruction: self.instruction.clone() } }
}
proof fn transition_faithful<I: Clone, T: Clone, W: Clone>() requires faithful::<I>(), faithful::<T>(), faithful::<W>() ensures faithful::<Transition<I, T, W>>() {}
// assumed: the clone of a list is the list of the clones (and lists are their contents)
#[verifier::external_body]
proof fn vec_faithful<T: Clone>() ensures faithful::<T>() ==> faithful::<Vec<T>>() {}
