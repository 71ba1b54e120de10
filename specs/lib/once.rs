// ---- lib/once.rs: recognition hands out each run once ----
//@@ include lib/single.rs
// the automaton lists no transition twice
spec fn singly<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A) -> bool { forall|k: A::Key, c: Transition<A::IInt, A::TInt, W>| #[trigger] a.at(k).count(c) <= 1 }
// transitions continue a run in one way at most
spec fn slim<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>) -> bool {
    forall|n: nat, x: NodeOf<A, T, W>, c: Transition<A::IInt, A::TInt, W>| #![trigger runs(a, w, n).contains(x), a.at(A::key(x.conf)).contains(c)] runs(a, w, n).contains(x) && a.at(A::key(x.conf)).contains(c) ==> continued(x, c).len() <= 1
}
proof fn came_from<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, n: nat, z: NodeOf<A, T, W>) -> (r: (NodeOf<A, T, W>, Transition<A::IInt, A::TInt, W>))
    requires n > 0, runs(a, w, n).contains(z)
    ensures runs(a, w, (n - 1) as nat).contains(r.0), follow(a)(r.0).contains(z), a.at(A::key(r.0.conf)).contains(r.1), continued(r.0, r.1).contains(z), z.run == r.0.run.push(r.1)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    bind_has(runs(a, w, (n - 1) as nat), follow(a), z);
    let x = choose|x: NodeOf<A, T, W>| #[trigger] runs(a, w, (n - 1) as nat).contains(x) && follow(a)(x).contains(z);
    let c = stepped(a, x, z);
    (x, c)
}
proof fn stepped<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, x: NodeOf<A, T, W>, z: NodeOf<A, T, W>) -> (c: Transition<A::IInt, A::TInt, W>)
    requires follow(a)(x).contains(z)
    ensures a.at(A::key(x.conf)).contains(c), continued(x, c).contains(z), z.run == x.run.push(c)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let g = |t: Transition<A::IInt, A::TInt, W>| continued(x, t).to_multiset();
    bind_has(a.at(A::key(x.conf)), g, z);
    let c = choose|c: Transition<A::IInt, A::TInt, W>| #[trigger] a.at(A::key(x.conf)).contains(c) && g(c).contains(z);
    assert(continued(x, c).contains(z));
    c
}
// the transitions of a run tell where it leads
proof fn one_way<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, n: nat, z1: NodeOf<A, T, W>, z2: NodeOf<A, T, W>)
    requires slim(a, w), runs(a, w, n).contains(z1), runs(a, w, n).contains(z2), z1.run == z2.run
    ensures z1 == z2
    decreases n
{
    broadcast use group_multiset_axioms;
    if n > 0 {
        let (x1, c1) = came_from(a, w, n, z1);
        let (x2, c2) = came_from(a, w, n, z2);
        assert(x1.run =~= z1.run.drop_last() && x2.run =~= z2.run.drop_last());
        assert(c1 == z1.run.last() && c2 == z2.run.last());
        one_way(a, w, (n - 1) as nat, x1, x2);
        assert(continued(x1, c1).len() <= 1);
    }
}
proof fn runs_once<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, n: nat, z: NodeOf<A, T, W>)
    requires slim(a, w), singly(a)
    ensures runs(a, w, n).count(z) <= 1
    decreases n
{
    broadcast use group_multiset_axioms;
    if n > 0 {
        let (m, f) = (runs(a, w, (n - 1) as nat), follow(a));
        assert forall|x: NodeOf<A, T, W>| #[trigger] m.count(x) <= 1 by { runs_once(a, w, (n - 1) as nat, x); }
        assert forall|x: NodeOf<A, T, W>| #[trigger] m.contains(x) implies f(x).count(z) <= 1 by { follows_once(a, w, (n - 1) as nat, x, z); }
        assert forall|x: NodeOf<A, T, W>, y: NodeOf<A, T, W>| #![trigger m.contains(x), m.contains(y)] m.contains(x) && m.contains(y) && f(x).contains(z) && f(y).contains(z) implies x == y by {
            let c = stepped(a, x, z);
            let d = stepped(a, y, z);
            assert(x.run =~= z.run.drop_last() && y.run =~= z.run.drop_last());
            one_way(a, w, (n - 1) as nat, x, y);
        }
        bind_once(m, f, z);
    }
}
proof fn follows_once<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, n: nat, x: NodeOf<A, T, W>, z: NodeOf<A, T, W>)
    requires slim(a, w), singly(a), runs(a, w, n).contains(x)
    ensures follow(a)(x).count(z) <= 1
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let m = a.at(A::key(x.conf));
    let g = |t: Transition<A::IInt, A::TInt, W>| continued(x, t).to_multiset();
    assert forall|c: Transition<A::IInt, A::TInt, W>| #[trigger] m.contains(c) implies g(c).count(z) <= 1 by {
        assert(runs(a, w, n).contains(x));
        assert(continued(x, c).len() <= 1);
        few(continued(x, c), z);
    }
    assert forall|c: Transition<A::IInt, A::TInt, W>, d: Transition<A::IInt, A::TInt, W>| #![trigger m.contains(c), m.contains(d)] m.contains(c) && m.contains(d) && g(c).contains(z) && g(d).contains(z) implies c == d by {
        assert(continued(x, c).contains(z) && continued(x, d).contains(z));
        assert(z.run == x.run.push(c) && z.run == x.run.push(d));
        assert(z.run.last() == c && z.run.last() == d);
    }
    bind_once(m, g, z);
}
// what a transition is in numbers is one transition
spec fn one_code<I: Integerisable1<AInt = IInt>, IInt, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>) -> bool {
    forall|t: Transition<I, T, W>, c: Transition<IInt, usize, W>, d: Transition<IInt, usize, W>| #[trigger] t.stands(i, j, c) && #[trigger] t.stands(i, j, d) ==> c == d
}
proof fn codes_alike<I: Integerisable1<AInt = IInt>, IInt, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, v: Seq<Transition<I, T, W>>, c: Seq<Transition<IInt, usize, W>>, d: Seq<Transition<IInt, usize, W>>)
    requires one_code::<I, IInt, T, W>(i, j), coded(i, j, v, c), coded(i, j, v, d)
    ensures c == d
{
    assert forall|k: int| 0 <= k < v.len() implies c[k] == d[k] by { assert(stands_for(i, j, v, c, k) && stands_for(i, j, v, d, k)); }
    assert(c =~= d);
}
spec fn each_run_once<S, I, T, W>(out: Seq<Item<S, I, T, W>>) -> bool { forall|k: int, l: int| 0 <= k < l < out.len() ==> nv(#[trigger] out[k]).run != nv(#[trigger] out[l]).run }
// no run is handed out twice
proof fn reported_once<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + Copy + MulAssign + One + Ord, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, same: spec_fn(I::Storage, IInt::Storage) -> bool, eqv: spec_fn(I::Storage, I::Storage) -> bool, w: Seq<T>, out: Seq<Item<I::Storage, I, T, W>>, all: bool)
    requires renders(a, i, j, ts, s, same), shows(a, i, j, same, eqv), reports(a, w, out, all), singly(a), slim(a, w), one_code::<I, IInt, T, W>(i, j)
    ensures each_run_once(out)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let pre = choose|pre: Seq<Item<IInt::Storage, IInt, usize, W>>| #[trigger] chosen(a, w, pre, all) && shown_as(a, pre, out);
    assert forall|k: int, l: int| 0 <= k < l < out.len() implies nv(#[trigger] out[k]).run != nv(#[trigger] out[l]).run by {
        if nv(out[k]).run == nv(out[l]).run {
            let (x, z) = (nv(pre[k]), nv(pre[l]));
            assert(nodes(pre)[k] == x && nodes(pre)[l] == z);
            assert(nodes(pre).contains(x) && nodes(pre).contains(z));
            assert(nodes(pre).to_multiset().count(x) <= accepted(a, w, x) && nodes(pre).to_multiset().count(z) <= accepted(a, w, z));
            let u = runs_are_runs(a, i, j, ts, s, same, w, x.run.len(), x);
            let v = runs_are_runs(a, i, j, ts, s, same, w, z.run.len(), z);
            assert(a.shown(pre[k], out[k]) && a.shown(pre[l], out[l]));
            assert(same_node(eqv, nv(out[k]), u) && same_node(eqv, nv(out[l]), v));
            codes_alike(i, j, u.run, x.run, z.run);
            one_way(a, w, x.run.len(), x, z);
            runs_once(a, w, x.run.len(), x);
            twice(nodes(pre), k, l);
        }
    }
}
// filing keeps apart what is apart
proof fn filter_few<A>(s: Seq<A>, p: spec_fn(A) -> bool, y: A)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
    ensures s.filter(p).to_multiset().count(y) <= 1
    decreases s.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        filter_few(r, p, y);
        if p(s.last()) && y == s.last() && r.filter(p).to_multiset().count(y) > 0 {
            assert(r.filter(p).contains(y));
            broadcast use vstd::seq_lib::group_filter_ensures;
            filter_within(r, p, y);
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            assert(s[i] != s[s.len() - 1]);
        }
        if p(s.last()) { assert(s.filter(p) == r.filter(p).push(s.last())); }
    } else { assert(s.filter(p) =~= Seq::empty()); }
}
// transitions in numbers are different if the transitions are
proof fn filed_singly<Q: Clone + Eq + Hash, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<Q>, ts: Seq<Filed<Q, T, W>>, cs: Seq<Filed<usize, usize, W>>)
    requires coded(i, j, ts, cs), forall|p: int, q: int| 0 <= p < q < ts.len() ==> #[trigger] ts[p] != #[trigger] ts[q]
    ensures forall|p: int, q: int| 0 <= p < q < cs.len() ==> cs[p] != cs[q]
{
    assert forall|p: int, q: int| 0 <= p < q < cs.len() implies cs[p] != cs[q] by {
        if cs[p] == cs[q] {
            assert(stands_for(i, j, ts, cs, p) && stands_for(i, j, ts, cs, q));
            ts[p].instruction.one_stands(&ts[q].instruction, j, cs[p].instruction);
            spelt_one(i, ts[p].word@, ts[q].word@, cs[p].word@);
            same_list(ts[p].word, ts[q].word);
        }
    }
}
proof fn spelt_back<T>(i: Seq<T>, v: Seq<T>, n: Seq<usize>, m: Seq<usize>)
    requires distinct(i), spelt(i, v, n), spelt(i, v, m)
    ensures n == m
{ assert forall|k: int| 0 <= k < n.len() implies n[k] == m[k] by { assert(numbers(i, v[k], n[k]) && numbers(i, v[k], m[k])); } assert(n =~= m); }
