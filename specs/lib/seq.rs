// ---- lib/seq.rs: facts about sequences ----
spec fn vals<A>(s: Seq<&A>) -> Seq<A> { s.map_values(|x: &A| *x) }

// references to the elements of a list, as `iter` yields them
spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
broadcast proof fn vals_of_refs<'a, T>(s: Seq<T>) ensures #[trigger] vals(refs::<'a, T>(s)) == s { assert(vals(refs::<'a, T>(s)) =~= s); }

broadcast proof fn vals_push<A>(s: Seq<&A>, x: &A)
    ensures #[trigger] vals(s.push(x)) == vals(s).push(*x)
{ assert(vals(s.push(x)) =~= vals(s).push(*x)); }
broadcast proof fn vals_pop<A>(s: Seq<&A>)
    requires s.len() > 0
    ensures #[trigger] vals(s.drop_last()) == vals(s).drop_last()
{ assert(vals(s.drop_last()) =~= vals(s).drop_last()); }
broadcast proof fn vals_sub<A>(s: Seq<&A>, k: int)
    requires 0 <= k <= s.len()
    ensures #[trigger] vals(s.subrange(0, k)) == vals(s).subrange(0, k)
{ assert(vals(s.subrange(0, k)) =~= vals(s).subrange(0, k)); }
broadcast proof fn vals_len<A>(s: Seq<&A>)
    ensures #[trigger] vals(s).len() == s.len(), s.len() > 0 ==> vals(s).last() == *s.last(),
        s.len() == 0 ==> vals(s) == Seq::<A>::empty()
{ if s.len() == 0 { assert(vals(s) =~= Seq::<A>::empty()); } }

broadcast proof fn skip_step<A>(w: Seq<A>, i: int)
    requires 0 <= i < w.len()
    ensures (#[trigger] w.skip(i)).skip(1) == w.skip(i + 1), w.skip(i)[0] == w[i]
{ assert(w.skip(i).skip(1) =~= w.skip(i + 1)); }
broadcast proof fn skip_ends<A>(w: Seq<A>, i: int)
    requires 0 <= i <= w.len()
    ensures (#[trigger] w.skip(i)).len() == w.len() - i, i == 0 ==> w.skip(i) == w,
        i == w.len() ==> w.skip(i) == Seq::<A>::empty()
{ if i == 0 { assert(w.skip(i) =~= w); } if i == w.len() { assert(w.skip(i) =~= Seq::<A>::empty()); } }
broadcast proof fn take_step<A>(w: Seq<A>, i: int)
    requires 0 < i <= w.len()
    ensures (#[trigger] w.take(i)).drop_last() == w.take(i - 1), w.take(i).last() == w[i - 1], w.take(i) == w.take(i - 1).push(w[i - 1])
{ assert(w.take(i).drop_last() =~= w.take(i - 1)); assert(w.take(i) =~= w.take(i - 1).push(w[i - 1])); }
broadcast proof fn take_ends<A>(w: Seq<A>, i: int)
    requires 0 <= i <= w.len()
    ensures (#[trigger] w.take(i)).len() == i, i == 0 ==> w.take(i) == Seq::<A>::empty(),
        i == w.len() ==> w.take(i) == w
{ if i == 0 { assert(w.take(i) =~= Seq::<A>::empty()); } if i == w.len() { assert(w.take(i) =~= w); } }

broadcast proof fn empty_is_empty<A>(s: Seq<A>)
    ensures #[trigger] s.len() == 0 ==> s == Seq::<A>::empty()
{ if s.len() == 0 { assert(s =~= Seq::<A>::empty()); } }
broadcast group seq_facts { vals_push, vals_pop, vals_sub, vals_len, skip_step, skip_ends, take_step, take_ends }

// a call that must never be reached (stands for panic!, unreachable!)
#[verifier::external_body]
fn vt_panic() -> !
    requires false
{ unimplemented!() }
// the text of a message (nothing is known about it)
#[verifier::external_body]
fn vt_text() -> String { String::new() }
