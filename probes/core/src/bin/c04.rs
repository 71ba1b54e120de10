// C04: searches over random graphs against reachability and a naive frontier.
use pk::*;
use search::agenda::binary_heap::weighted::BinaryHeap as WHeap;
use search::agenda::weighted::Weighted;
use search::agenda::Agenda;
use search::Search;
use std::collections::{BTreeSet, VecDeque};

// a node; the weight is a function of the name
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct N(usize, i64);
impl Weighted for N {
    type Weight = i64;
    fn get_weight(&self) -> i64 {
        self.1
    }
}
type Graph = Vec<Vec<usize>>;

/// which of the frontier is taken next (the frontier lists nodes in order of arrival)
#[derive(Debug, Clone, Copy)]
enum Kind {
    Stack,
    Queue,
    Weighted,
}
fn take(f: &mut Vec<N>, k: Kind) -> Option<N> {
    if f.is_empty() {
        return None;
    }
    let i = match k {
        Kind::Stack => f.len() - 1,
        Kind::Queue => 0,
        Kind::Weighted => (0..f.len()).max_by_key(|i| f[*i].1).unwrap(),
    };
    Some(f.remove(i))
}
fn succ(g: &Graph, w: &[i64], x: &N) -> Vec<N> {
    g.get(x.0).map_or(Vec::new(), |v| v.iter().map(|y| N(*y, w[*y])).collect())
}
fn reach(g: &Graph, init: &[usize]) -> BTreeSet<usize> {
    let mut r: BTreeSet<usize> = init.iter().cloned().collect();
    let mut todo: Vec<usize> = init.to_vec();
    while let Some(x) = todo.pop() {
        for y in &g[x] {
            if r.insert(*y) {
                todo.push(*y);
            }
        }
    }
    r
}
/// `limit` answers of the plain search
fn plain<I: Iterator<Item = N>>(mut it: I, g: &Graph, w: &[i64], init: &[N], k: Kind, limit: usize) -> Result<(), String> {
    let mut front = init.to_vec();
    if let Kind::Queue = k {
        front.reverse(); // a queue yields the back of the given list first
    }
    for n in 0..limit {
        let want = take(&mut front, k);
        let got = it.next();
        same(&format!("answer {}", n), &got, &want)?;
        match want {
            None => return Ok(()),
            Some(x) => Extend::extend(&mut front, succ(g, w, &x)),
        }
    }
    Ok(())
}
fn unique<I: Iterator<Item = N>>(mut it: I, g: &Graph, w: &[i64], init: &[N], k: Kind) -> Result<(), String> {
    let mut front = init.to_vec();
    if let Kind::Queue = k {
        front.reverse();
    }
    let mut out: BTreeSet<usize> = BTreeSet::new();
    loop {
        let want = loop {
            match take(&mut front, k) {
                Some(x) if out.contains(&x.0) => {}
                x => break x,
            }
        };
        let got = it.next();
        same(&format!("answer {}", out.len()), &got, &want)?;
        match want {
            None => break,
            Some(x) => {
                out.insert(x.0);
                Extend::extend(&mut front, succ(g, w, &x));
            }
        }
    }
    let ids: Vec<usize> = init.iter().map(|n| n.0).collect();
    same("nodes handed out and nodes reachable", out, reach(g, &ids))?;
    same("after the end", it.next(), None)
}
/// an iterator that does not tell how long it is
struct Blind(std::vec::IntoIter<N>);
impl Iterator for Blind {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        self.0.next()
    }
}
fn run(g: &Graph, w: &[i64], init: &[usize], limit: usize) -> Result<(), String> {
    let i: Vec<N> = init.iter().map(|x| N(*x, w[*x])).collect();
    let s = |x: &N| succ(g, w, x);
    let tag = |t: &str, r: Result<(), String>| r.map_err(|e| format!("{}: {}", t, e));
    tag("dfs", plain(Search::dfs(i.clone(), s), g, w, &i, Kind::Stack, limit))?;
    tag("bfs", plain(Search::bfs(i.clone(), s), g, w, &i, Kind::Queue, limit))?;
    tag("unique dfs", unique(Search::dfs(i.clone(), s).uniques(), g, w, &i, Kind::Stack))?;
    tag("unique bfs", unique(Search::bfs(i.clone(), s).uniques(), g, w, &i, Kind::Queue))?;
    let b = |x: &N| Blind(succ(g, w, x).into_iter());
    tag("dfs, unknown number of successors", plain(Search::dfs(Blind(i.clone().into_iter()), b), g, w, &i, Kind::Stack, limit))?;
    tag("bfs, unknown number of successors", plain(Search::bfs(Blind(i.clone().into_iter()), b), g, w, &i, Kind::Queue, limit))?;
    tag("weighted, unknown number of successors", plain(Search::weighted(Blind(i.clone().into_iter()), b), g, w, &i, Kind::Weighted, limit))?;
    tag("unique dfs, unknown number of successors", unique(Search::dfs(i.clone(), b).uniques(), g, w, &i, Kind::Stack))?;
    let mut q: VecDeque<N> = VecDeque::new();
    let mut st: Vec<N> = Vec::new();
    let mut h: WHeap<N> = i.iter().cloned().collect();
    for x in &i {
        q.push(x.clone());
        Agenda::push(&mut st, x.clone());
    }
    let rev: Vec<N> = i.iter().rev().cloned().collect();
    tag("with a queue", plain(Search::with_agenda(q, s), g, w, &rev, Kind::Queue, limit))?;
    tag("with a stack", unique(Search::with_agenda(st, s).uniques(), g, w, &i, Kind::Stack))?;
    tag("weighted", plain(Search::weighted(i.clone(), s), g, w, &i, Kind::Weighted, limit))?;
    tag("unique weighted", unique(Search::weighted(i.clone(), s).uniques(), g, w, &i, Kind::Weighted))?;
    h.push(N(usize::MAX, i64::MAX));
    let mut it = Search::with_agenda(h, |x: &N| if x.0 == usize::MAX { Vec::new() } else { succ(g, w, x) });
    same("first of the heap", it.next(), Some(N(usize::MAX, i64::MAX)))?;
    tag("with a heap", plain(it, g, w, &i, Kind::Weighted, limit))
}
fn main() {
    let mut p = Probe::new("random graphs with up to 9 nodes (loops, parallel edges, repeated and empty starts), all agendas, plain and deduplicating; non-trivial: some node is put on the agenda twice");
    // all graphs with two nodes and up to two edges per node
    let outs: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![1, 1], vec![0, 0]];
    for a in &outs {
        for b in &outs {
            for init in &[vec![], vec![0], vec![1], vec![0, 1], vec![1, 0, 0], vec![1, 1]] {
                let g = vec![a.clone(), b.clone()];
                for w in &[vec![1, 2], vec![2, 1]] {
                    p.case(format!("edges {:?} weights {:?} start {:?}", g, w, init), true, || run(&g, w, init, 12));
                }
            }
        }
    }
    for _ in 0..p.rounds(3000, 40) {
        let n = 1 + p.rng.below(9);
        let dense = 1 + p.rng.below(4);
        let g: Graph = (0..n).map(|_| (0..p.rng.below(dense + 1)).map(|_| p.rng.below(n)).collect()).collect();
        let mut w: Vec<i64> = (0..n as i64).collect();
        p.rng.shuffle(&mut w);
        let init: Vec<usize> = (0..p.rng.below(4)).map(|_| p.rng.below(n)).collect();
        let r = reach(&g, &init);
        let hits = init.len() + r.iter().map(|x| g[*x].len()).sum::<usize>();
        p.case(format!("edges {:?} weights {:?} start {:?}", g, w, init), hits > r.len(), || run(&g, &w, &init, 60));
    }
    p.finish();
}
