// C01: Dyck words.
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
verus! {

//@@ type src/dyck/mod.rs Bracket
//@@ end

// ---- specification: the grammar D -> eps | D <a D >a ----
spec fn derives<A: PartialEq>(w: Seq<Bracket<A>>) -> bool
    decreases w.len()
{
    w.len() == 0 || exists|i: int| #[trigger] splits(w, i) && {
        &&& 0 <= i < w.len() - 1
        &&& derives(w.take(i))
        &&& derives(w.subrange(i + 1, w.len() - 1))
    }
}
// position i opens and the last position closes the same annotation
spec fn splits<A: PartialEq>(w: Seq<Bracket<A>>, i: int) -> bool {
    &&& 0 <= i < w.len() - 1
    &&& w[i] is Open
    &&& w.last() == Bracket::Close(w[i]->Open_0)
}

// ---- operational reading: what remains to be closed (`st`, innermost last) after w ----
spec fn run<A: PartialEq>(st: Seq<A>, w: Seq<Bracket<A>>) -> Option<Seq<A>>
    decreases w.len()
{
    if w.len() == 0 { Some(st) } else {
        match w[0] {
            Bracket::Open(a) => run(st.push(a), w.skip(1)),
            Bracket::Close(a) => if st.len() > 0 && st.last() == a { run(st.drop_last(), w.skip(1)) } else { None },
        }
    }
}

proof fn run_concat<A: PartialEq>(st: Seq<A>, v: Seq<Bracket<A>>, w: Seq<Bracket<A>>)
    ensures run(st, v + w) == (match run(st, v) { Some(s) => run(s, w), None => None })
    decreases v.len()
{
    if v.len() == 0 { assert(v + w =~= w); } else {
        assert((v + w).skip(1) =~= v.skip(1) + w);
        match v[0] {
            Bracket::Open(a) => run_concat(st.push(a), v.skip(1), w),
            Bracket::Close(a) => if st.len() > 0 && st.last() == a { run_concat(st.drop_last(), v.skip(1), w) },
        }
    }
}

proof fn run_frame<A: PartialEq>(b: Seq<A>, st: Seq<A>, w: Seq<Bracket<A>>)
    ensures run(st, w) is Some ==> run(b + st, w) == Some(b + run(st, w)->0)
    decreases w.len()
{
    if w.len() > 0 && run(st, w) is Some {
        match w[0] {
            Bracket::Open(a) => { run_frame(b, st.push(a), w.skip(1)); assert((b + st).push(a) =~= b + st.push(a)); }
            Bracket::Close(a) => { run_frame(b, st.drop_last(), w.skip(1)); assert((b + st).drop_last() =~= b + st.drop_last()); assert((b+st).last() == st.last()); }
        }
    }
}

proof fn derives_runs<A: PartialEq>(w: Seq<Bracket<A>>, st: Seq<A>)
    requires derives(w)
    ensures run(st, w) == Some(st)
    decreases w.len()
{
    if w.len() > 0 {
        let i = choose|i: int| #[trigger] splits(w, i) && 0 <= i < w.len() - 1 && derives(w.take(i)) && derives(w.subrange(i + 1, w.len() - 1));
        let a = w[i]->Open_0;
        let v = w.take(i); let m = w.subrange(i + 1, w.len() - 1);
        derives_runs(v, st);
        derives_runs(m, st.push(a));
        let o = seq![w[i]]; let c = seq![w.last()];
        assert(w =~= v + (o + (m + c)));
        run_concat(st, v, o + (m + c));
        run_concat(st, o, m + c);
        run_concat(st.push(a), m, c);
        assert(o.skip(1) =~= Seq::empty()); assert(c.skip(1) =~= Seq::empty());
        assert(run(st, o) == run(st.push(a), o.skip(1)));
        assert(st.push(a).drop_last() =~= st);
        assert(run(st.push(a), c) == run(st, c.skip(1)));
    }
}

// if w run from the empty stack leaves s, then w = d0 <s0 d1 <s1 ... dn with derivable d
spec fn shape<A: PartialEq>(w: Seq<Bracket<A>>, s: Seq<A>) -> bool
    decreases s.len()
{
    if s.len() == 0 { derives(w) } else {
        exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == Bracket::Open(s.last()) && shape(w.take(i), s.drop_last()) && derives(w.skip(i + 1))
    }
}

proof fn derives_concat<A: PartialEq>(v: Seq<Bracket<A>>, w: Seq<Bracket<A>>)
    requires derives(v), derives(w)
    ensures derives(v + w)
    decreases w.len()
{
    if w.len() == 0 { assert(v + w =~= v); } else {
        let i = choose|i: int| #[trigger] splits(w, i) && 0 <= i < w.len() - 1 && derives(w.take(i)) && derives(w.subrange(i + 1, w.len() - 1));
        derives_concat(v, w.take(i));
        let x = v + w; let j = v.len() + i;
        assert(x.take(j) =~= v + w.take(i));
        assert(x.subrange(j + 1, x.len() - 1) =~= w.subrange(i + 1, w.len() - 1));
        assert(splits(x, j));
    }
}

proof fn shape_concat<A: PartialEq>(v: Seq<Bracket<A>>, s: Seq<A>, w: Seq<Bracket<A>>)
    requires shape(v, s), derives(w)
    ensures shape(v + w, s)
{
    if s.len() == 0 { derives_concat(v, w); } else {
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == Bracket::Open(s.last()) && shape(v.take(i), s.drop_last()) && derives(v.skip(i + 1));
        derives_concat(v.skip(i + 1), w);
        let x = v + w;
        assert(x.take(i) =~= v.take(i));
        assert(x.skip(i + 1) =~= v.skip(i + 1) + w);
        assert(x[i] == Bracket::Open(s.last()));
    }
}

proof fn run_shapes<A: PartialEq>(v: Seq<Bracket<A>>, s: Seq<A>, w: Seq<Bracket<A>>)
    requires shape(v, s), run(s, w) is Some
    ensures shape(v + w, run(s, w)->0)
    decreases w.len()
{
    if w.len() == 0 { assert(v + w =~= v); } else {
        let v1 = v.push(w[0]);
        assert(v + w =~= v1 + w.skip(1));
        match w[0] {
            Bracket::Open(a) => {
                let s1 = s.push(a);
                assert(s1.drop_last() =~= s);
                assert(v1.take(v.len() as int) =~= v);
                assert(v1.skip(v.len() as int + 1) =~= Seq::empty());
                assert(v1[v.len() as int] == Bracket::Open(s1.last()));
                run_shapes(v1, s1, w.skip(1));
            }
            Bracket::Close(a) => {
                let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == Bracket::Open(s.last()) && shape(v.take(i), s.drop_last()) && derives(v.skip(i + 1));
                let t = v1.skip(i);
                assert(splits(t, 0));
                assert(t.take(0) =~= Seq::empty());
                assert(t.subrange(1, t.len() - 1) =~= v.skip(i + 1));
                assert(w[0] == Bracket::Close(s.last()));
                assert(t.take(0).len() == 0);
                assert(derives(t.take(0)));
                assert(derives(t));
                shape_concat(v.take(i), s.drop_last(), t);
                assert(v1 =~= v.take(i) + t);
                run_shapes(v1, s.drop_last(), w.skip(1));
            }
        }
    }
}

// the operational reading decides the grammar
proof fn run_iff_derives<A: PartialEq>(w: Seq<Bracket<A>>)
    ensures run(Seq::<A>::empty(), w) == Some(Seq::<A>::empty()) <==> derives(w)
{
    if derives(w) { derives_runs(w, Seq::empty()); }
    if run(Seq::<A>::empty(), w) == Some(Seq::<A>::empty()) {
        run_shapes(Seq::<Bracket<A>>::empty(), Seq::<A>::empty(), w);
        assert(Seq::<Bracket<A>>::empty() + w =~= w);
    }
}

//@@ include lib/seq.rs

//@@ fn src/dyck/mod.rs recognize
//@ params word
//@ local stack 0
//@ ret r
//@ requires
    A::obeys_eq_spec(),
    forall|a: A, b: A| #[trigger] a.eq_spec(&b) <==> (a == b),
//@ ensures
    r <==> derives(word@),
//@ start
    broadcast use seq_facts;
    proof {
        run_iff_derives(word@);
        assert(word@.skip(0) =~= word@);
        assert(vals(Seq::<&A>::empty()) =~= Seq::empty());
    }
//@ loop 0 for it
    invariant
        A::obeys_eq_spec(),
        forall|a: A, b: A| #[trigger] a.eq_spec(&b) <==> (a == b),
        run(Seq::<A>::empty(), word@) == Some(Seq::<A>::empty()) <==> derives(word@),
        run(vals(stack@), word@.skip(it.index@)) == run(Seq::<A>::empty(), word@),
//@ loopstart 0
    broadcast use seq_facts;
//@ after 0
    proof {
        assert(word@.skip(word@.len() as int) =~= Seq::empty());
        assert(stack@.len() == 0 ==> vals(stack@) =~= Seq::empty());
    }
//@@ end

} // verus!
