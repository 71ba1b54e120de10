// C05: the multimap with natural-number keys.
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs

//@@ type vecmultimap/src/lib.rs VecMultiMap
//@@ end

//@@ include lib/vecmultimap.rs

//@@ fn vecmultimap/src/lib.rs VecMultiMap::new
//@ ret r
//@ ensures
    forall|i: int| at(r.0@, i) == Seq::<T>::empty(),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMap::pad_to
//@ params index
//@ requires index < usize::MAX
//@ ensures
    same(old(self).0@, final(self).0@),
    index < final(self).0@.len(),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMap::push_to
//@ params index value
//@ requires index < usize::MAX
//@ ensures
    upd(old(self).0@, final(self).0@, index as int, at(old(self).0@, index as int).push(value)),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMap::get
//@ params index
//@ mapmethod get_unchecked vt_get_unchecked &
//@ ret r
//@ requires index < usize::MAX
//@ ensures
    same(old(self).0@, final(self).0@),
    r@ == at(old(self).0@, index as int),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMap::get_or_fail
//@ params index
//@ ret r
//@ ensures
    (match r { Some(v) => v@, None => Seq::empty() }) == at(self.0@, index as int),
    r is Some <==> index < self.0@.len(),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMap::get_mut
//@ params index
//@ mapmethod get_unchecked_mut vt_get_unchecked_mut &mut
//@ ret r
//@ requires index < usize::MAX
//@ ensures
    r@ == at(old(self).0@, index as int),
    upd(old(self).0@, final(self).0@, index as int, final(r)@),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMap::into_vec_with_size
//@ params size
//@ ret r
//@ ensures
    r@.len() == size,
    forall|i: int| 0 <= i < size ==> (#[trigger] r@[i])@ == at(self.0@, i),
//@@ end

//@@ fn vecmultimap/src/lib.rs <Into<Vec<Vec<T>>>~for~VecMultiMap>::into as into_
//@ ret r
//@ ensures
    forall|i: int| #[trigger] at(r@, i) == at(self.0@, i),
    r@.len() > 0 ==> r@.last()@.len() > 0,
//@ mapmethod iter vt_iter &
//@ mapmethod enumerate vt_enumerate
//@ mapmethod rfind vt_rfind
//@ start
    broadcast use empty_is_empty;
    proof { assert(self.0.len() <= usize::MAX); }
//@ closure 0 (x: &(usize, &Vec<T>)) -> (b: bool)
    ensures b == (x.1@.len() > 0)
//@@ end

} // verus!
