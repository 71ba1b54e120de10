// ---- lib/ord.rs: the order an `Ord` implementation defines ----
pub open spec fn ord_le<T: Ord>(a: T, b: T) -> bool { vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) != core::cmp::Ordering::Greater }
// `Ord` keeps its promise: a total preorder, reported consistently
pub open spec fn lawful_ord<T: Ord>() -> bool {
    &&& <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec()
    &&& forall|a: T| #[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &a) == core::cmp::Ordering::Equal
    &&& forall|a: T, b: T| (#[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b)) == flip(vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a))
    &&& forall|a: T, b: T, c: T| #[trigger] ord_le(a, b) && #[trigger] ord_le(b, c) ==> ord_le(a, c)
}
pub open spec fn flip(o: core::cmp::Ordering) -> core::cmp::Ordering {
    match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, x => x }
}
