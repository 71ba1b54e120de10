// ---- lib/decodable.rs: numbers that stand for transitions; needs lib/numbered_runs.rs ----
spec fn decodable<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, c: Transition<I::AInt, usize, W>) -> bool { exists|x: Transition<I, T, W>| #[trigger] x.stands(i, j, c) }
spec fn all_decodable<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, c: Seq<Transition<I::AInt, usize, W>>) -> bool { forall|k: int| 0 <= k < c.len() ==> decodable::<I, T, W>(i, j, #[trigger] c[k]) }
proof fn number_is<T>(i: Seq<T>, t: T, r: Option<usize>)
    requires distinct(i), match r { Some(n) => numbers(i, t, n), None => !i.contains(t) }
    ensures r == number_of(i, t)
{
    match r {
        Some(n) => { let m = choose|m: usize| numbers(i, t, m); assert(numbers(i, t, n)); assert(i[n as int] == i[m as int]); }
        None => { assert forall|n: usize| !numbers(i, t, n) by { if numbers(i, t, n) { assert(i.contains(i[n as int])); } } }
    }
}
proof fn one_decodable<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, c: Seq<Transition<I::AInt, usize, W>>, k: int)
    requires all_decodable::<I, T, W>(i, j, c), 0 <= k < c.len()
    ensures decodable::<I, T, W>(i, j, c[k])
{}
proof fn coded_decodable<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, cs: Seq<Transition<I::AInt, usize, W>>)
    requires coded(i, j, ts, cs)
    ensures all_decodable::<I, T, W>(i, j, cs)
{ assert forall|k: int| 0 <= k < cs.len() implies decodable::<I, T, W>(i, j, #[trigger] cs[k]) by { assert(stands_for(i, j, ts, cs, k)); } }
proof fn witness<X: Integerisable2>(x: X, i: &X::I1, j: &X::I2, v: &X::AInt)
    requires x.stands(i.known(), j.known(), *v)
    ensures exists|x: X| #[trigger] x.stands(i.known(), j.known(), *v)
{}
spec fn known_word<T>(i: Seq<T>, w: Seq<usize>) -> bool { forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] < i.len() }
