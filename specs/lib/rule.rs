// ---- lib/rule.rs: rules and compositions of PMCFGs ----
//@@ type src/grammars/pmcfg/mod.rs VarT
//@@ end
//@@ type src/grammars/pmcfg/mod.rs Composition
//@@ end
//@@ type src/grammars/pmcfg/mod.rs PMCFGRule
//@@ end

//@@ fn src/grammars/pmcfg/mod.rs VarT::is_var
//@ ret b
//@ ensures b == (self is Var)
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs VarT::is_t
//@ ret b
//@ ensures b == (self is T)
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs VarT::unwrap_var
//@ ret r
//@ requires self is Var
//@ ensures *self == VarT::<T>::Var(r.0, r.1)
//@ mappath panic vt_panic
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs Composition::len
//@ ret r
//@ ensures r == self.composition@.len()
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs <IntoIterator~for~&'aComposition<T>>::into_iter as each
//@ ret r
//@ newret Vec<&'a Vec<VarT<T>>>
//@ mapmethod into_iter vt_refs
//@ ensures r@ == refs(self.composition@)
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs Composition::iter as iter_
//@ ret r
//@ newret Vec<&Vec<VarT<T>>>
//@ mapmethod into_iter . each
//@ ensures r@ == refs(self.composition@)
//@@ end
//@@ fn src/grammars/pmcfg/mod.rs <Index~for~Composition>::index as component
//@ params idx
//@ ret r
//@ newret &Vec<VarT<T>>
//@ requires idx < self.composition@.len()
//@ ensures *r == self.composition@[idx as int]
//@@ end
trait VtEach {
    type Item;
    spec fn parts(&self) -> Seq<Self::Item>;
    fn vt_each(&self) -> (r: Vec<&Self::Item>)
        ensures r@ == refs(self.parts()), forall|i: int| #![trigger r@[i]] #![trigger self.parts()[i]] 0 <= i < self.parts().len() ==> *r@[i] == self.parts()[i];
}
impl<T> VtEach for Vec<T> {
    type Item = T;
    spec fn parts(&self) -> Seq<T> { self@ }
    fn vt_each(&self) -> (r: Vec<&T>) { vt_refs(self) }
}
impl<T> VtEach for Composition<T> {
    type Item = Vec<VarT<T>>;
    spec fn parts(&self) -> Seq<Vec<VarT<T>>> { self.composition@ }
    fn vt_each(&self) -> (r: Vec<&Vec<VarT<T>>>) { self.iter_() }
}
spec fn comp<N, T, W>(r: PMCFGRule<N, T, W>) -> Seq<Vec<VarT<T>>> { r.composition.composition@ }
spec fn var_of<T>(s: &VarT<T>) -> Option<(usize, usize)> { match *s { VarT::Var(i, j) => Some((i, j)), VarT::T(_) => None } }
// all symbols, all variables of a composition, in order of occurrence
spec fn symbols<'a, T>(c: Seq<Vec<VarT<T>>>) -> Seq<&'a VarT<T>> { flat(refs::<'a, Vec<VarT<T>>>(c), |v: &'a Vec<VarT<T>>| refs::<'a, VarT<T>>(v@)) }
spec fn vars<T>(c: Seq<Vec<VarT<T>>>) -> Seq<(usize, usize)> { picked(symbols(c), |s: &VarT<T>| var_of(s)) }
// how often variable (i, j) is used
spec fn uses<T>(c: Seq<Vec<VarT<T>>>, i: int, j: int) -> nat { vars(c).to_multiset().count((i as usize, j as usize)) }
