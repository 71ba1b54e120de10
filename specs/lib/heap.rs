// ---- lib/heap.rs: std::collections::BinaryHeap (specified, not verified) ----
// Needs lib/ord.rs. Every operation that compares asks for a lawful `Ord`.
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(std::collections::BinaryHeap<T, A>);
pub uninterp spec fn heap_els<T, A: std::alloc::Allocator>(h: std::collections::BinaryHeap<T, A>) -> vstd::multiset::Multiset<T>;
pub assume_specification<T: Ord, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::push](h: &mut std::collections::BinaryHeap<T, A>, x: T)
    requires lawful_ord::<T>()
    ensures heap_els(*final(h)) == heap_els(*old(h)).insert(x);
pub assume_specification<T: Ord, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::pop](h: &mut std::collections::BinaryHeap<T, A>) -> (r: Option<T>)
    requires lawful_ord::<T>()
    ensures r == heap_first(*old(h)), match r {
        None => heap_els(*old(h)).len() == 0 && heap_els(*final(h)) == heap_els(*old(h)),
        Some(x) => heap_els(*old(h)).contains(x) && heap_els(*final(h)) == heap_els(*old(h)).remove(x)
            && forall|y: T| #[trigger] heap_els(*old(h)).contains(y) ==> ord_le(y, x),
    };
// the entry `peek` shows and the next `pop` takes
pub uninterp spec fn heap_first<T, A: std::alloc::Allocator>(h: std::collections::BinaryHeap<T, A>) -> Option<T>;
pub broadcast axiom fn heap_first_held<T, A: std::alloc::Allocator>(h: std::collections::BinaryHeap<T, A>)
    ensures match #[trigger] heap_first(h) { None => heap_els(h).len() == 0, Some(x) => heap_els(h).contains(x) };
pub broadcast axiom fn heap_first_greatest<T: Ord, A: std::alloc::Allocator>(h: std::collections::BinaryHeap<T, A>)
    requires lawful_ord::<T>()
    ensures match #[trigger] heap_first(h) { None => true, Some(x) => forall|y: T| #[trigger] heap_els(h).contains(y) ==> ord_le(y, x) };
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::peek](h: &std::collections::BinaryHeap<T, A>) -> (r: Option<&T>)
    ensures match r {
        None => heap_els(*h).len() == 0 && heap_first(*h) is None,
        Some(x) => heap_els(*h).contains(*x) && heap_first(*h) == Some(*x),
    };
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::len](h: &std::collections::BinaryHeap<T, A>) -> (r: usize)
    ensures r == heap_els(*h).len();
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::is_empty](h: &std::collections::BinaryHeap<T, A>) -> (r: bool)
    ensures r <==> heap_els(*h).len() == 0;
pub assume_specification<T: Ord, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::into_sorted_vec](h: std::collections::BinaryHeap<T, A>) -> (r: Vec<T, A>)
    requires lawful_ord::<T>()
    ensures r@.to_multiset() == heap_els(h), forall|i: int, j: int| 0 <= i <= j < r@.len() ==> ord_le(#[trigger] r@[i], #[trigger] r@[j]);
pub assume_specification<T>[std::collections::BinaryHeap::<T>::with_capacity](n: usize) -> (r: std::collections::BinaryHeap<T>)
    ensures heap_els(r) == vstd::multiset::Multiset::<T>::empty();
pub assume_specification<T>[std::collections::BinaryHeap::<T>::new]() -> (r: std::collections::BinaryHeap<T>)
    ensures heap_els(r) == vstd::multiset::Multiset::<T>::empty();
pub assume_specification<T>[<std::collections::BinaryHeap::<T> as Default>::default]() -> (r: std::collections::BinaryHeap<T>)
    ensures heap_els(r) == vstd::multiset::Multiset::<T>::empty();
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExHeapIntoIter<T, A: std::alloc::Allocator>(std::collections::binary_heap::IntoIter<T, A>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExHeapIter<'a, T: 'a>(std::collections::binary_heap::Iter<'a, T>);
pub uninterp spec fn into_iter_els<T, A: std::alloc::Allocator>(h: std::collections::binary_heap::IntoIter<T, A>) -> vstd::multiset::Multiset<T>;
pub uninterp spec fn iter_els<'a, T>(h: std::collections::binary_heap::Iter<'a, T>) -> vstd::multiset::Multiset<T>;
pub assume_specification<T, A: std::alloc::Allocator>[<std::collections::BinaryHeap::<T, A> as IntoIterator>::into_iter](h: std::collections::BinaryHeap<T, A>) -> (r: std::collections::binary_heap::IntoIter<T, A>)
    ensures into_iter_els(r) == heap_els(h);
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::iter](h: &std::collections::BinaryHeap<T, A>) -> (r: std::collections::binary_heap::Iter<T>)
    ensures iter_els(r) == heap_els(*h);
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::BinaryHeap::<T, A>::clear](h: &mut std::collections::BinaryHeap<T, A>)
    ensures heap_els(*final(h)) == vstd::multiset::Multiset::<T>::empty();
// taking entries from an iterator: each once, in no particular order
pub assume_specification<T, A: std::alloc::Allocator>[<std::collections::binary_heap::IntoIter::<T, A> as Iterator>::next](h: &mut std::collections::binary_heap::IntoIter<T, A>) -> (r: Option<T>)
    ensures match r {
        None => into_iter_els(*old(h)).len() == 0 && into_iter_els(*final(h)) == into_iter_els(*old(h)),
        Some(x) => into_iter_els(*old(h)).contains(x) && into_iter_els(*final(h)) == into_iter_els(*old(h)).remove(x),
    };
// `collect` into a heap
fn vt_heap<T: Ord>(v: Vec<T>) -> (r: std::collections::BinaryHeap<T>)
    requires lawful_ord::<T>()
    ensures heap_els(r) == v@.to_multiset()
{
    broadcast use {vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let mut r = std::collections::BinaryHeap::<T>::new();
    proof { assert(v@.take(0) =~= Seq::empty()); assert(v@.take(0).to_multiset() =~= vstd::multiset::Multiset::empty()); }
    for x in it: v
        invariant it.seq() == v@, lawful_ord::<T>(), heap_els(r) == v@.take(it.index@).to_multiset()
    {
        proof {
            broadcast use {vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
            assert(v@.take(it.index@ + 1) =~= v@.take(it.index@).push(x));
            assert(v@.take(it.index@ + 1).to_multiset() =~= v@.take(it.index@).to_multiset().insert(x));
        }
        r.push(x);
    }
    assert(v@.take(v@.len() as int) =~= v@);
    r
}
