// ---- lib/numbered_runs.rs: the runs of an automaton over numbers are those of the transitions it is made of ----
// the transitions in numbers, one for each
spec fn coded<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, cs: Seq<Transition<I::AInt, usize, W>>) -> bool {
    cs.len() == ts.len() && forall|k: int| 0 <= k < cs.len() ==> #[trigger] stands_for(i, j, ts, cs, k)
}
spec fn stands_for<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, cs: Seq<Transition<I::AInt, usize, W>>, k: int) -> bool { ts[k].stands(i, j, cs[k]) }
proof fn coded_none<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>)
    ensures coded(i, j, ts.take(0), Seq::empty()), ts.len() == 0 ==> coded(i, j, ts, Seq::empty())
{}
proof fn coded_more<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, i2: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, j2: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, k: int, cs: Seq<Transition<I::AInt, usize, W>>, ds: Seq<Transition<I::AInt, usize, W>>)
    requires
        coded(i, j, ts.take(k), cs), 0 <= k < ts.len(), begun(i, i2), begun(j, j2),
        ds.len() == k + 1, ds.drop_last() == cs, ts[k].stands(i2, j2, ds.last()),
    ensures coded(i2, j2, ts.take(k + 1), ds), k + 1 == ts.len() ==> coded(i2, j2, ts, ds)
{
    assert forall|l: int| 0 <= l < ds.len() implies #[trigger] stands_for(i2, j2, ts.take(k + 1), ds, l) by {
        if l < k { assert(stands_for(i, j, ts.take(k), cs, l)); assert(cs[l] == ds[l]); ts[l].instruction.still_stands(j, j2, cs[l].instruction); }
    }
    if k + 1 == ts.len() { assert(ts.take(k + 1) =~= ts); }
}

spec fn steps<I: Instruction, T, W: Mul<Output = W>>(ts: Seq<Transition<I, T, W>>, x: Node<I::Storage, I, T, W>, y: Node<I::Storage, I, T, W>) -> bool { exists|l: int| 0 <= l < ts.len() && continued(x, #[trigger] ts[l]).contains(y) }
// the runs of n of the transitions ts on w, starting from s
spec fn run_of<I: Instruction, T, W: Mul<Output = W> + One>(ts: Seq<Transition<I, T, W>>, s: I::Storage, w: Seq<T>, n: nat, y: Node<I::Storage, I, T, W>) -> bool
    decreases n
{
    if n == 0 { y == (Node::<I::Storage, I, T, W> { conf: Conf { word: w, storage: s, weight: W::unit() }, run: Seq::empty() }) }
    else { exists|x: Node<I::Storage, I, T, W>| #[trigger] steps(ts, x, y) && run_of(ts, s, w, (n - 1) as nat, x) }
}
// the node y in numbers
spec fn in_numbers<I: Instruction + Integerisable1<AInt = IInt>, IInt: Instruction, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, same: spec_fn(I::Storage, IInt::Storage) -> bool, y: Node<I::Storage, I, T, W>, z: Node<IInt::Storage, IInt, usize, W>) -> bool {
    spelt(i, y.conf.word, z.conf.word) && same(y.conf.storage, z.conf.storage) && y.conf.weight == z.conf.weight && coded(i, j, y.run, z.run)
}
spec fn pairwise<A, B>(same: spec_fn(A, B) -> bool, s: Seq<A>, r: Seq<B>) -> bool { s.len() == r.len() && forall|k: int| 0 <= k < s.len() ==> same(#[trigger] s[k], #[trigger] r[k]) }
// one of ts stands for c
spec fn from_one<I: Integerisable1<AInt = IInt>, IInt, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, c: Transition<IInt, usize, W>) -> bool { exists|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, c) }
spec fn as_one<I: Integerisable1<AInt = IInt>, IInt, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, t: Transition<I, T, W>, cs: Multiset<Transition<IInt, usize, W>>) -> bool { exists|c: Transition<IInt, usize, W>| #[trigger] cs.contains(c) && t.stands(i, j, c) }
spec fn stood_for<I: Integerisable1<AInt = IInt>, IInt, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, t: Transition<I, T, W>) -> bool { exists|c: Transition<IInt, usize, W>| #[trigger] t.stands(i, j, c) }
// a does on numbers what ts do from s; `same` says which storages stand for which
spec fn renders<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, same: spec_fn(I::Storage, IInt::Storage) -> bool) -> bool {
    &&& distinct(i) && same(s, a.start()) && forall|t: T| #[trigger] a.letter(t) == number_of(i, t)
    &&& forall|k: A::Key, c: Transition<IInt, usize, W>| #[trigger] a.at(k).contains(c) ==> from_one(i, j, ts, c)
    &&& forall|l: int, c: Transition<IInt, usize, W>, p: I::Storage, m: IInt::Storage| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, c) && same(p, m) ==> pairwise(same, #[trigger] ts[l].instruction.outcomes(p), #[trigger] c.instruction.outcomes(m))
    &&& forall|l: int| 0 <= l < ts.len() ==> stood_for(i, j, #[trigger] ts[l])
    &&& forall|l: int, p: I::Storage, z: Conf<IInt::Storage, usize, W>| 0 <= l < ts.len() && same(p, z.storage) && #[trigger] ts[l].instruction.outcomes(p).len() > 0 ==> as_one(i, j, ts[l], #[trigger] a.at(A::key(z)))
}
proof fn begins_in_numbers<T>(i: Seq<T>, v: Seq<T>, u: Seq<T>, n: Seq<usize>, m: Seq<usize>)
    requires distinct(i), spelt(i, v, n), spelt(i, u, m)
    ensures begins(v, u) <==> begins(n, m), begins(v, u) ==> spelt(i, v.skip(u.len() as int), n.skip(m.len() as int))
{
    if begins(v, u) {
        assert forall|k: int| 0 <= k < m.len() implies #[trigger] n.take(m.len() as int)[k] == m[k] by { assert(v.take(u.len() as int)[k] == u[k]); assert(numbers(i, v[k], n[k])); assert(numbers(i, u[k], m[k])); }
        assert(n.take(m.len() as int) =~= m);
        assert forall|k: int| 0 <= k < n.skip(m.len() as int).len() implies numbers(i, v.skip(u.len() as int)[k], #[trigger] n.skip(m.len() as int)[k]) by { assert(numbers(i, v[k + u.len()], n[k + u.len()])); }
    }
    if begins(n, m) {
        assert forall|k: int| 0 <= k < u.len() implies #[trigger] v.take(u.len() as int)[k] == u[k] by { assert(n.take(m.len() as int)[k] == m[k]); assert(numbers(i, v[k], n[k])); assert(numbers(i, u[k], m[k])); }
        assert(v.take(u.len() as int) =~= u);
    }
}
// one step in numbers
proof fn step_in_numbers<I: Instruction + Integerisable1<AInt = IInt>, IInt: Instruction, T: Clone + Eq + Hash, W: Clone + Mul<Output = W>>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, same: spec_fn(I::Storage, IInt::Storage) -> bool, x: Node<I::Storage, I, T, W>, z: Node<IInt::Storage, IInt, usize, W>, t: Transition<I, T, W>, c: Transition<IInt, usize, W>)
    requires distinct(i), in_numbers(i, j, same, x, z), t.stands(i, j, c), pairwise(same, t.instruction.outcomes(x.conf.storage), c.instruction.outcomes(z.conf.storage))
    ensures
        continued(x, t).len() == continued(z, c).len(),
        forall|k: int| 0 <= k < continued(x, t).len() ==> in_numbers(i, j, same, #[trigger] continued(x, t)[k], continued(z, c)[k]),
{
    begins_in_numbers(i, x.conf.word, t.word@, z.conf.word, c.word@);
    assert forall|k: int| 0 <= k < continued(x, t).len() implies in_numbers(i, j, same, #[trigger] continued(x, t)[k], continued(z, c)[k]) by {
        let (y, q) = (continued(x, t)[k], continued(z, c)[k]);
        assert(y == Node { conf: moves(t, x.conf)[k], run: x.run.push(t) });
        assert(q == Node { conf: moves(c, z.conf)[k], run: z.run.push(c) });
        coded_push(i, j, x.run, z.run, t, c);
    }
}
proof fn coded_push<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, cs: Seq<Transition<I::AInt, usize, W>>, t: Transition<I, T, W>, c: Transition<I::AInt, usize, W>)
    requires coded(i, j, ts, cs), t.stands(i, j, c)
    ensures coded(i, j, ts.push(t), cs.push(c))
{
    assert forall|k: int| 0 <= k < cs.push(c).len() implies #[trigger] stands_for(i, j, ts.push(t), cs.push(c), k) by { if k < cs.len() { assert(stands_for(i, j, ts, cs, k)); } }
}
// every run of the automaton is one of the transitions
proof fn runs_are_runs<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, same: spec_fn(I::Storage, IInt::Storage) -> bool, w: Seq<T>, n: nat, z: Node<IInt::Storage, IInt, usize, W>) -> (y: Node<I::Storage, I, T, W>)
    requires renders(a, i, j, ts, s, same), runs(a, w, n).contains(z)
    ensures run_of(ts, s, w, n, y), in_numbers(i, j, same, y, z), z.run.len() == n
    decreases n
{
    if n == 0 {
        let y = Node::<I::Storage, I, T, W> { conf: Conf { word: w, storage: s, weight: W::unit() }, run: Seq::empty() };
        spelt_letters(a, i, w);
        y
    } else {
        bind_has(runs(a, w, (n - 1) as nat), follow(a), z);
        let zx = choose|x: Node<IInt::Storage, IInt, usize, W>| #[trigger] runs(a, w, (n - 1) as nat).contains(x) && follow(a)(x).contains(z);
        let x = runs_are_runs(a, i, j, ts, s, same, w, (n - 1) as nat, zx);
        let g = |t: Transition<IInt, usize, W>| continued(zx, t).to_multiset();
        bind_has(a.at(A::key(zx.conf)), g, z);
        let c = choose|c: Transition<IInt, usize, W>| #[trigger] a.at(A::key(zx.conf)).contains(c) && g(c).contains(z);
        assert(from_one(i, j, ts, c));
        let l = choose|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, c);
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(continued(zx, c).contains(z));
        let k = choose|k: int| 0 <= k < continued(zx, c).len() && continued(zx, c)[k] == z;
        step_in_numbers(i, j, same, x, zx, ts[l], c);
        let y = continued(x, ts[l])[k];
        assert(continued(x, ts[l]).contains(y));
        assert(steps(ts, x, y));
        y
    }
}
proof fn spelt_letters<T: Clone + Eq + Hash, W: Clone + MulAssign + One, A: Automaton<T, W, TInt = usize>>(a: A, i: Seq<T>, w: Seq<T>)
    requires distinct(i), forall|t: T| #[trigger] a.letter(t) == number_of(i, t), forall|k: int| 0 <= k < w.len() ==> a.letter(#[trigger] w[k]) is Some
    ensures spelt(i, w, somes(letters(a, w)))
{
    assert forall|k: int| 0 <= k < w.len() implies numbers(i, w[k], #[trigger] somes(letters(a, w))[k]) by { assert(a.letter(w[k]) == number_of(i, w[k])); }
}
// every run of the transitions is one of the automaton, if it knows the word's symbols
proof fn runs_are_all<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, same: spec_fn(I::Storage, IInt::Storage) -> bool, w: Seq<T>, n: nat, y: Node<I::Storage, I, T, W>) -> (z: Node<IInt::Storage, IInt, usize, W>)
    requires renders(a, i, j, ts, s, same), run_of(ts, s, w, n, y), forall|k: int| 0 <= k < w.len() ==> a.letter(#[trigger] w[k]) is Some
    ensures runs(a, w, n).contains(z), in_numbers(i, j, same, y, z)
    decreases n
{
    if n == 0 {
        spelt_letters(a, i, w);
        Node { conf: Conf { word: somes(letters(a, w)), storage: a.start(), weight: W::unit() }, run: Seq::empty() }
    } else {
        let x = choose|x: Node<I::Storage, I, T, W>| #[trigger] steps(ts, x, y) && run_of(ts, s, w, (n - 1) as nat, x);
        let l = choose|l: int| 0 <= l < ts.len() && continued(x, #[trigger] ts[l]).contains(y);
        let zx = runs_are_all(a, i, j, ts, s, same, w, (n - 1) as nat, x);
        let k = choose|k: int| 0 <= k < continued(x, ts[l]).len() && continued(x, ts[l])[k] == y;
        assert(ts[l].instruction.outcomes(x.conf.storage).len() > 0);
        assert(as_one(i, j, ts[l], a.at(A::key(zx.conf))));
        let c = choose|c: Transition<IInt, usize, W>| #[trigger] a.at(A::key(zx.conf)).contains(c) && ts[l].stands(i, j, c);
        step_in_numbers(i, j, same, x, zx, ts[l], c);
        let z = continued(zx, c)[k];
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let g = |t: Transition<IInt, usize, W>| continued(zx, t).to_multiset();
        assert(continued(zx, c).contains(z));
        assert(g(c).contains(z));
        bind_has(a.at(A::key(zx.conf)), g, z);
        assert(follow(a)(zx).contains(z));
        bind_has(runs(a, w, (n - 1) as nat), follow(a), z);
        z
    }
}
// what has been read consists of symbols of the transitions
proof fn read_is_known<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, w: Seq<T>, n: nat, y: Node<I::Storage, I, T, W>)
    requires run_of(ts, s, w, n, y), forall|l: int| 0 <= l < ts.len() ==> stood_for(i, j, #[trigger] ts[l])
    ensures y.run.len() == n, y.conf.word.len() <= w.len(), y.conf.word == w.skip(w.len() - y.conf.word.len()), forall|k: int| 0 <= k < w.len() - y.conf.word.len() ==> number_of(i, #[trigger] w[k]) is Some
    decreases n
{
    if n == 0 { assert(w.skip(0) =~= w); } else {
        let x = choose|x: Node<I::Storage, I, T, W>| #[trigger] steps(ts, x, y) && run_of(ts, s, w, (n - 1) as nat, x);
        let l = choose|l: int| 0 <= l < ts.len() && continued(x, #[trigger] ts[l]).contains(y);
        read_is_known(i, j, ts, s, w, (n - 1) as nat, x);
        let k = choose|k: int| 0 <= k < continued(x, ts[l]).len() && continued(x, ts[l])[k] == y;
        let t = ts[l];
        assert(stood_for(i, j, t));
        let c = choose|c: Transition<IInt, usize, W>| #[trigger] t.stands(i, j, c);
        assert(y == Node { conf: moves(t, x.conf)[k], run: x.run.push(t) });
        assert(y.conf.word == x.conf.word.skip(t.word@.len() as int));
        assert(y.conf.word =~= w.skip(w.len() - y.conf.word.len()));
        let from = w.len() - x.conf.word.len();
        assert forall|k: int| 0 <= k < w.len() - y.conf.word.len() implies number_of(i, #[trigger] w[k]) is Some by {
            if k >= from {
                assert(x.conf.word.take(t.word@.len() as int)[k - from] == t.word@[k - from]);
                assert(numbers(i, t.word@[k - from], c.word@[k - from]));
            }
        }
    }
}
// what item_map shows of an item is what the item stands for
spec fn shows<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, same: spec_fn(I::Storage, IInt::Storage) -> bool, eqv: spec_fn(I::Storage, I::Storage) -> bool) -> bool {
    forall|y: Node<I::Storage, I, T, W>, n: Item<IInt::Storage, IInt, usize, W>, r: Item<I::Storage, I, T, W>| in_numbers(i, j, same, y, #[trigger] nv(n)) && #[trigger] a.shown(n, r) ==> #[trigger] same_node(eqv, nv(r), y)
}
// the same, but for storages that are told apart by nothing
spec fn same_node<S, I, T, W>(eqv: spec_fn(S, S) -> bool, x: Node<S, I, T, W>, y: Node<S, I, T, W>) -> bool { x.conf.word == y.conf.word && eqv(x.conf.storage, y.conf.storage) && x.conf.weight == y.conf.weight && x.run == y.run }
spec fn accepts_as<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, same: spec_fn(I::Storage, IInt::Storage) -> bool, end: spec_fn(I::Storage) -> bool) -> bool {
    forall|y: Node<I::Storage, I, T, W>, z: Node<IInt::Storage, IInt, usize, W>| #[trigger] in_numbers(i, j, same, y, z) ==> (a.accepting(z.conf) <==> y.conf.word.len() == 0 && end(y.conf.storage))
}
// y is a run of ts on w, from s, that reads all of w and ends where it may
spec fn accepted_run<I: Instruction, T, W: Mul<Output = W> + One>(ts: Seq<Transition<I, T, W>>, s: I::Storage, end: spec_fn(I::Storage) -> bool, w: Seq<T>, y: Node<I::Storage, I, T, W>) -> bool {
    run_of(ts, s, w, y.run.len(), y) && y.conf.word.len() == 0 && end(y.conf.storage)
}
spec fn found<S, I, T, W>(out: Seq<Item<S, I, T, W>>, y: Node<S, I, T, W>) -> bool { exists|k: int| 0 <= k < out.len() && nv(#[trigger] out[k]) == y }
spec fn found_as<S, I, T, W>(eqv: spec_fn(S, S) -> bool, out: Seq<Item<S, I, T, W>>, y: Node<S, I, T, W>) -> bool { exists|k: int| 0 <= k < out.len() && same_node(eqv, nv(#[trigger] out[k]), y) }
spec fn accepted_as<I: Instruction, T, W: Mul<Output = W> + One>(eqv: spec_fn(I::Storage, I::Storage) -> bool, ts: Seq<Transition<I, T, W>>, s: I::Storage, end: spec_fn(I::Storage) -> bool, w: Seq<T>, x: Node<I::Storage, I, T, W>) -> bool {
    exists|y: Node<I::Storage, I, T, W>| #[trigger] accepted_run(ts, s, end, w, y) && same_node(eqv, x, y)
}
// what recognise hands out for an automaton made of transitions are accepted runs of these transitions, and in the end all of them
proof fn reported_runs<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + Copy + MulAssign + One + Ord, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, same: spec_fn(I::Storage, IInt::Storage) -> bool, eqv: spec_fn(I::Storage, I::Storage) -> bool, end: spec_fn(I::Storage) -> bool, w: Seq<T>, out: Seq<Item<I::Storage, I, T, W>>, all: bool)
    requires renders(a, i, j, ts, s, same), shows(a, i, j, same, eqv), accepts_as(a, i, j, same, end), reports(a, w, out, all)
    ensures
        forall|k: int| 0 <= k < out.len() ==> accepted_as(eqv, ts, s, end, w, nv(#[trigger] out[k])),
        all ==> forall|y: Node<I::Storage, I, T, W>| #[trigger] accepted_run(ts, s, end, w, y) ==> found_as(eqv, out, y),
        shrinking(a) ==> forall|k: int, l: int| 0 <= k < l < out.len() ==> ord_le((#[trigger] out[l]).0.weight, (#[trigger] out[k]).0.weight),
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let pre = choose|pre: Seq<Item<IInt::Storage, IInt, usize, W>>| #[trigger] chosen(a, w, pre, all) && shown_as(a, pre, out);
    assert forall|k: int| 0 <= k < out.len() implies accepted_as(eqv, ts, s, end, w, nv(#[trigger] out[k])) && out[k].0.weight == pre[k].0.weight by {
        let z = nv(pre[k]);
        assert(nodes(pre)[k] == z);
        assert(nodes(pre).contains(z));
        assert(nodes(pre).to_multiset().count(z) <= accepted(a, w, z));
        let y = runs_are_runs(a, i, j, ts, s, same, w, z.run.len(), z);
        assert(accepted_run(ts, s, end, w, y));
        assert(a.shown(pre[k], out[k]));
        assert(same_node(eqv, nv(out[k]), y));
    }
    if all {
        assert forall|y: Node<I::Storage, I, T, W>| #[trigger] accepted_run(ts, s, end, w, y) implies found_as(eqv, out, y) by {
            let n = y.run.len();
            read_is_known(i, j, ts, s, w, n, y);
            assert forall|k: int| 0 <= k < w.len() implies a.letter(#[trigger] w[k]) is Some by { assert(number_of(i, w[k]) is Some); }
            let z = runs_are_all(a, i, j, ts, s, same, w, n, y);
            assert(nodes(pre).to_multiset().count(z) == accepted(a, w, z));
            assert(nodes(pre).contains(z));
            let k = choose|k: int| 0 <= k < nodes(pre).len() && nodes(pre)[k] == z;
            assert(a.shown(pre[k], out[k]));
            assert(same_node(eqv, nv(out[k]), y));
        }
    }
}
// numbers say which
proof fn spelt_one<T>(i: Seq<T>, v: Seq<T>, u: Seq<T>, n: Seq<usize>)
    requires spelt(i, v, n), spelt(i, u, n)
    ensures v == u
{ assert forall|k: int| 0 <= k < v.len() implies v[k] == u[k] by { assert(numbers(i, v[k], n[k]) && numbers(i, u[k], n[k])); } assert(v =~= u); }
// assumed: lists with the same elements are the same
#[verifier::external_body]
proof fn same_list<T>(v: Vec<T>, u: Vec<T>)
    ensures v@ == u@ ==> v == u
{}
proof fn coded_one<I: Integerisable1, T: Clone + Eq + Hash, W: Clone>(i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, v: Seq<Transition<I, T, W>>, u: Seq<Transition<I, T, W>>, n: Seq<Transition<I::AInt, usize, W>>)
    requires coded(i, j, v, n), coded(i, j, u, n)
    ensures v == u
{
    assert forall|k: int| 0 <= k < v.len() implies v[k] == u[k] by {
        assert(stands_for(i, j, v, n, k) && stands_for(i, j, u, n, k));
        spelt_one(i, v[k].word@, u[k].word@, n[k].word@);
        same_list(v[k].word, u[k].word);
        v[k].instruction.one_stands(&u[k].instruction, j, n[k].instruction);
    }
    assert(v =~= u);
}
spec fn can_weigh<I, T, W: Clone + Mul<Output = W>>(ts: Seq<Transition<I, T, W>>) -> bool { W::obeys_mul_spec() && forall|l: int, w: W| #![trigger ts[l], w.mul_req(ts[l].weight)] 0 <= l < ts.len() ==> w.mul_req(ts[l].weight) }
spec fn none_heavier<I, T, W: Clone + Mul<Output = W> + Ord>(ts: Seq<Transition<I, T, W>>) -> bool { forall|l: int, w: W| #![trigger w.mul_spec(ts[l].weight)] 0 <= l < ts.len() ==> ord_le(w.mul_spec(ts[l].weight), w) }
proof fn weights_rendered<I: Instruction + Integerisable1<AInt = IInt>, IInt: Clone + Eq + Instruction, T: Clone + Eq + Hash, W: Clone + MulAssign + One + Ord, A: Automaton<T, W, I = I, IInt = IInt, TInt = usize>>(a: A, i: Seq<T>, j: Seq<<I::I as Integeriser>::Item>, ts: Seq<Transition<I, T, W>>, s: I::Storage, same: spec_fn(I::Storage, IInt::Storage) -> bool)
    requires renders(a, i, j, ts, s, same)
    ensures can_weigh(ts) ==> weighs(a), none_heavier(ts) ==> shrinking(a)
{
    assert forall|k: A::Key, t: Transition<IInt, usize, W>, w: W| #![trigger a.at(k).contains(t), MulSpec::mul_req(w, t.weight)] a.at(k).contains(t) && can_weigh(ts) implies MulSpec::mul_req(w, t.weight) by {
        assert(from_one(i, j, ts, t));
        let l = choose|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, t);
        assert(MulSpec::mul_req(w, ts[l].weight));
    }
    assert forall|k: A::Key, t: Transition<IInt, usize, W>, w: W| #![trigger a.at(k).contains(t), w.mul_spec(t.weight)] a.at(k).contains(t) && none_heavier(ts) implies ord_le(w.mul_spec(t.weight), w) by {
        assert(from_one(i, j, ts, t));
        let l = choose|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, t);
        assert(ord_le(w.mul_spec(ts[l].weight), w));
    }
}
