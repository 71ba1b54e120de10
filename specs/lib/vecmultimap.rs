// ---- lib/vecmultimap.rs: the multimap adapter under contract ----
//@@ type vecmultimap/src/lib.rs VecMultiMapAdapter
//@@ end

// Vec::resize_with: truncates, or extends with what the closure returns
pub assume_specification<T, A: std::alloc::Allocator, F: FnMut() -> T>[Vec::<T, A>::resize_with](v: &mut Vec<T, A>, n: usize, f: F)
    requires n > old(v).len() ==> f.requires(()),
    ensures
        final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> f.ensures((), #[trigger] final(v)@[i]),
;

// in-bounds access; that the index is in bounds is an obligation of every caller
fn vt_get_unchecked<T>(v: &Vec<T>, i: usize) -> (r: &T)
    requires i < v@.len()
    ensures *r == v@[i as int]
{ &v[i] }
fn vt_get_unchecked_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ &mut v[i] }

// ---- the map a list of lists stands for: total, empty where the list has ended ----
spec fn at<T>(s: Seq<Vec<T>>, i: int) -> Seq<T> {
    if 0 <= i < s.len() { s[i]@ } else { Seq::empty() }
}
spec fn grown(n: int, k: int) -> int { if k < n { n } else { k + 1 } }
// s and t stand for the same map except at index k, where t has x
spec fn upd<T>(s: Seq<Vec<T>>, t: Seq<Vec<T>>, k: int, x: Seq<T>) -> bool {
    forall|i: int| #![trigger at(t, i)] #![trigger at(s, i)] #![trigger t[i]] at(t, i) == (if i == k { x } else { at(s, i) })
}
spec fn same<T>(s: Seq<Vec<T>>, t: Seq<Vec<T>>) -> bool {
    forall|i: int| #![trigger at(t, i)] #![trigger at(s, i)] #![trigger t[i]] at(t, i) == at(s, i)
}

//@@ fn vecmultimap/src/lib.rs VecMultiMapAdapter::pad_to
//@ params index
//@ requires index < usize::MAX
//@ ensures
    same((*old(self).0)@, (*final(self).0)@),
    index < (*final(self).0)@.len(),
    *final(final(self).0) == *final(old(self).0),
    (*final(self).0)@.len() == grown((*old(self).0)@.len() as int, index as int),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMapAdapter::push_to
//@ params index value
//@ requires index < usize::MAX
//@ ensures
    upd((*old(self).0)@, (*final(self).0)@, index as int, at((*old(self).0)@, index as int).push(value)),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMapAdapter::get
//@ params index
//@ mapmethod get_unchecked vt_get_unchecked &
//@ ret r
//@ requires index < usize::MAX
//@ ensures
    same((*old(self).0)@, (*final(self).0)@),
    r@ == at((*old(self).0)@, index as int),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMapAdapter::get_or_fail
//@ params index
//@ ret r
//@ ensures
    (match r { Some(v) => v@, None => Seq::empty() }) == at(old(self.0)@, index as int),
    r is Some <==> index < old(self.0)@.len(),
//@@ end

//@@ fn vecmultimap/src/lib.rs VecMultiMapAdapter::get_mut
//@ params index
//@ mapmethod get_unchecked_mut vt_get_unchecked_mut &mut
//@ ret r
//@ requires index < usize::MAX
//@ ensures
    r@ == at((*old(self).0)@, index as int),
    upd((*old(self).0)@, (*final(self).0)@, index as int, final(r)@),
    *final(final(self).0) == *final(old(self).0),
    (*final(self).0)@.len() == grown((*old(self).0)@.len() as int, index as int),
//@@ end


//@@ fn vecmultimap/src/lib.rs <From<&'amutVec<Vec<T>>>~for~VecMultiMapAdapter>::from as from_
//@ params v
//@ ret r
//@ ensures
    r.0@ == old(v)@,
    final(r.0)@ == final(v)@,
//@@ end

//@@ fn vecmultimap/src/lib.rs <Index<usize>~for~VecMultiMapAdapter>::index as index_
//@ params index
//@ ret r
//@ requires index < old(self.0)@.len()
//@ ensures r@ == at(old(self.0)@, index as int)
//@@ end

//@@ fn vecmultimap/src/lib.rs <IndexMut<usize>~for~VecMultiMapAdapter>::index_mut as index_mut_
//@ params index
//@ ret r
//@ requires index < usize::MAX
//@ ensures
    r@ == at((*old(self).0)@, index as int),
    upd((*old(self).0)@, (*final(self).0)@, index as int, final(r)@),
    *final(final(self).0) == *final(old(self).0),
    (*final(self).0)@.len() == grown((*old(self).0)@.len() as int, index as int),
//@ newret &mut Vec<T>
//@@ end

