// ---- lib/numbers.rs: numbering values, and transitions over numbers ----
pub open spec fn begun<T>(i: Seq<T>, j: Seq<T>) -> bool { i.len() <= j.len() && forall|k: int| 0 <= k < i.len() ==> #[trigger] i[k] == j[k] }
// n is the number of v
pub open spec fn numbers<T>(i: Seq<T>, v: T, n: usize) -> bool { n < i.len() && i[n as int] == v }
pub open spec fn distinct<T>(i: Seq<T>) -> bool { forall|k: int, l: int| 0 <= k < i.len() && 0 <= l < i.len() && #[trigger] i[k] == #[trigger] i[l] ==> k == l }
pub open spec fn number_of<T>(i: Seq<T>, v: T) -> Option<usize> { if exists|n: usize| numbers(i, v, n) { Some(choose|n: usize| numbers(i, v, n)) } else { None } }
//@@ trait src/util/integerisable.rs Integerisable1 integerise un_integerise
//@@ trait src/util/integerisable.rs Integerisable2 integerise un_integerise
// the trait and the implementation of the crate integeriser (assumed): values get the numbers 0, 1, ... in the order in which they come
pub trait Integeriser: Sized {
    type Item;
    spec fn known(&self) -> Seq<Self::Item>;
    spec fn countable() -> bool;
    fn integerise(&mut self, value: Self::Item) -> (n: usize)
        requires Self::countable()
        ensures numbers(final(self).known(), value, n), begun(old(self).known(), final(self).known()), distinct(old(self).known()) ==> distinct(final(self).known());
    fn find_key(&self, value: &Self::Item) -> (r: Option<usize>)
        requires Self::countable()
        ensures match r { Some(n) => numbers(self.known(), *value, n), None => !self.known().contains(*value) };
    fn find_value(&self, key: usize) -> (r: Option<&Self::Item>)
        ensures match r { Some(v) => numbers(self.known(), *v, key), None => key >= self.known().len() };
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashIntegeriser<T> { t: Vec<T> }
impl<T: Eq + Hash + Clone> HashIntegeriser<T> {
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r.known() == Seq::<T>::empty()
    { unimplemented!() }
}
impl<T: Eq + Hash + Clone> Integeriser for HashIntegeriser<T> {
    type Item = T;
    uninterp spec fn known(&self) -> Seq<T>;
    open spec fn countable() -> bool { obeys_key_model::<T>() && faithful::<T>() }
    #[verifier::external_body]
    fn integerise(&mut self, value: T) -> (n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn find_key(&self, value: &T) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn find_value(&self, key: usize) -> (r: Option<&T>) { unimplemented!() }
}
pub trait Integerisable1: Sized {
    type AInt;
    type I: Integeriser;
    spec fn codable() -> bool;
    // n is self in numbers
    spec fn stands(&self, i: Seq<<Self::I as Integeriser>::Item>, n: Self::AInt) -> bool;
    proof fn still_stands(&self, i: Seq<<Self::I as Integeriser>::Item>, j: Seq<<Self::I as Integeriser>::Item>, n: Self::AInt)
        requires self.stands(i, n), begun(i, j)
        ensures self.stands(j, n);
    // numbers say which
    proof fn one_stands(&self, o: &Self, i: Seq<<Self::I as Integeriser>::Item>, n: Self::AInt)
        requires self.stands(i, n), o.stands(i, n)
        ensures *self == *o;
    fn integerise(&self, integeriser: &mut Self::I) -> (r: Self::AInt)
        requires Self::codable()
        ensures self.stands(final(integeriser).known(), r), begun(old(integeriser).known(), final(integeriser).known()), distinct(old(integeriser).known()) ==> distinct(final(integeriser).known());
    fn un_integerise(v: &Self::AInt, integeriser: &Self::I) -> (r: Self)
        requires Self::codable(), exists|x: Self| #[trigger] x.stands(integeriser.known(), *v)
        ensures r.stands(integeriser.known(), *v);
}
pub trait Integerisable2: Sized {
    type AInt;
    type I1: Integeriser;
    type I2: Integeriser;
    spec fn codable() -> bool;
    spec fn stands(&self, i: Seq<<Self::I1 as Integeriser>::Item>, j: Seq<<Self::I2 as Integeriser>::Item>, n: Self::AInt) -> bool;
    fn integerise(&self, integeriser1: &mut Self::I1, integeriser2: &mut Self::I2) -> (r: Self::AInt)
        requires Self::codable()
        ensures
            self.stands(final(integeriser1).known(), final(integeriser2).known(), r),
            begun(old(integeriser1).known(), final(integeriser1).known()), distinct(old(integeriser1).known()) ==> distinct(final(integeriser1).known()),
            begun(old(integeriser2).known(), final(integeriser2).known()), distinct(old(integeriser2).known()) ==> distinct(final(integeriser2).known());
    fn un_integerise(v: &Self::AInt, integeriser1: &Self::I1, integeriser2: &Self::I2) -> (r: Self)
        requires Self::codable(), exists|x: Self| #[trigger] x.stands(integeriser1.known(), integeriser2.known(), *v)
        ensures r.stands(integeriser1.known(), integeriser2.known(), *v);
}
// the word v in numbers
pub open spec fn spelt<T>(i: Seq<T>, v: Seq<T>, n: Seq<usize>) -> bool { n.len() == v.len() && forall|k: int| 0 <= k < n.len() ==> numbers(i, v[k], #[trigger] n[k]) }
//@@ impl src/recognisable/transition.rs <Integerisable2~for~Transition> integerise un_integerise
impl<I: Integerisable1<AInt = IInt>, IInt, T: Clone + Eq + Hash, W: Clone> Integerisable2 for Transition<I, T, W> {
    type AInt = Transition<IInt, usize, W>;
    type I1 = HashIntegeriser<T>;
    type I2 = I::I;
    open spec fn codable() -> bool { I::codable() && HashIntegeriser::<T>::countable() && faithful::<W>() }
    open spec fn stands(&self, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, n: Transition<IInt, usize, W>) -> bool {
        spelt(i, self.word@, n.word@) && self.weight == n.weight && self.instruction.stands(j, n.instruction)
    }
//@@ method src/recognisable/transition.rs <Integerisable2~for~Transition>::integerise
//@ params integeriser1 integeriser2
//@ ret r
//@ eachmap 0
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ loop 0 for it
    invariant
        HashIntegeriser::<T>::countable(), vals(it.seq()) == self.word@, vt_out@.len() == it.index@,
        forall|k: int| 0 <= k < vt_out@.len() ==> numbers(integeriser1.known(), self.word@[k], #[trigger] vt_out@[k]),
        begun(old(integeriser1).known(), integeriser1.known()), distinct(old(integeriser1).known()) ==> distinct(integeriser1.known()),
//@ loopstart 0
    assert(vals(it.seq())[it.index@] == *t);
//@@ end
//@@ method src/recognisable/transition.rs <Integerisable2~for~Transition>::un_integerise
//@ params v integeriser1 integeriser2
//@ ret r
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ mapmethod map vt_map
//@ closure 0 (i: &usize) -> (t: T)
    requires HashIntegeriser::<T>::countable(), *i < integeriser1.known().len()
    ensures numbers(integeriser1.known(), t, *i)
//@ start
    broadcast use seq_facts;
    let ghost k1 = integeriser1.known();
    let ghost x = choose|x: Self| #[trigger] x.stands(k1, integeriser2.known(), *v);
    proof {
        assert forall|k: int| 0 <= k < v.word@.len() implies #[trigger] v.word@[k] < k1.len() by { assert(numbers(k1, x.word@[k], v.word@[k])); }
        assert forall|k: int| 0 <= k < v.word@.len() implies #[trigger] refs::<usize>(v.word@)[k] == &v.word@[k] by {}
    }
//@ tail
    proof { assert forall|k: int| 0 <= k < v.word@.len() implies numbers(integeriser1.known(), result__.word@[k], #[trigger] v.word@[k]) by { assert(refs::<usize>(v.word@)[k] == &v.word@[k]); } }
//@@ end
}
