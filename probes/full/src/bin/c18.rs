// C18: instructions of multiple Dyck automata against a table of labels by address and a pointer.
use pk::*;
use rustomata::automata::tree_stack_automaton::TreeStack;
use rustomata::dyck::multiple::{Bracket, MultipleDyckLanguage};
use rustomata::dyck::multiple::automaton::{MDTreeElem, MultipleDyckInstruction};
use rustomata::recognisable::Instruction;
use rustomata::util::partition::Partition;
use std::collections::{BTreeMap, BTreeSet};

type E = MDTreeElem<u8>;
type Model = (BTreeMap<Vec<usize>, E>, Vec<usize>);
type Ins = MultipleDyckInstruction<u8>;

#[derive(Clone, Debug)]
enum Op {
    /// apply and continue with the k-th result, if any
    Apply(Ins, usize),
    /// close what is open here
    Close,
    Set(E),
    Push(usize, E),
    Up(usize),
    Down,
}
fn show(t: &TreeStack<E>) -> Model {
    let (g, p) = t.to_tree();
    (g.into_iter().collect(), p)
}
fn with_child(p: &Vec<usize>, n: usize) -> Vec<usize> {
    let mut q = p.clone();
    q.push(n);
    q
}
fn less(c: &BTreeSet<u8>, a: u8) -> BTreeSet<u8> {
    c.iter().cloned().filter(|x| *x != a).collect()
}
fn moved(m: &Model, q: Vec<usize>, e: E) -> Model {
    let mut r = m.clone();
    r.0.insert(q.clone(), e);
    r.1 = q;
    r
}
fn again(m: &Model, n: usize, a: u8) -> Option<Model> {
    let q = with_child(&m.1, n);
    match m.0.get(&q) {
        Some(MDTreeElem::Node(None, s)) if s.contains(&a) => Some(moved(m, q, MDTreeElem::Node(Some(a), less(s, a)))),
        _ => None,
    }
}
fn expected(i: &Ins, m: &Model) -> Vec<Model> {
    let children: Vec<usize> = m.0.keys().filter(|k| k.len() == m.1.len() + 1 && k.starts_with(&m.1)).map(|k| k[k.len() - 1]).collect();
    let mut r = Vec::new();
    match i {
        MultipleDyckInstruction::Up(a, c) => {
            let n = (0..).find(|n| !children.contains(n)).unwrap();
            r.push(moved(m, with_child(&m.1, n), MDTreeElem::Node(Some(*a), less(c, *a))));
            r.extend(children.iter().filter_map(|n| again(m, *n, *a)));
        }
        MultipleDyckInstruction::UpAt(n, a, c) => {
            if children.contains(n) {
                r.extend(again(m, *n, *a));
            } else {
                r.push(moved(m, with_child(&m.1, *n), MDTreeElem::Node(Some(*a), less(c, *a))));
            }
        }
        MultipleDyckInstruction::Down(a) => match &m.0[&m.1] {
            MDTreeElem::Node(Some(b), s) if a == b && !m.1.is_empty() => {
                let mut x = m.clone();
                x.0.insert(m.1.clone(), MDTreeElem::Node(None, s.clone()));
                x.1.pop();
                r.push(x);
            }
            _ => {}
        },
    }
    r
}
fn sorted(mut v: Vec<Model>) -> Vec<Model> {
    v.sort();
    v
}
fn run(ops: &[Op]) -> Result<(), String> {
    let mut t: TreeStack<E> = TreeStack::new(MDTreeElem::Root);
    for op in ops {
        let m = show(&t);
        let close;
        let (i, k) = match op {
            Op::Apply(i, k) => (i, *k),
            Op::Close => {
                close = MultipleDyckInstruction::Down(match &m.0[&m.1] {
                    MDTreeElem::Node(Some(b), _) => *b,
                    _ => 0,
                });
                (&close, 0)
            }
            Op::Set(e) => {
                t = t.set(e.clone());
                continue;
            }
            Op::Push(n, e) => {
                t = t.push(*n, e.clone()).unwrap_or_else(|u| u);
                continue;
            }
            Op::Up(n) => {
                t = t.up(*n).unwrap_or_else(|u| u);
                continue;
            }
            Op::Down => {
                t = t.down().unwrap_or_else(|u| u);
                continue;
            }
        };
        let got = i.apply(t.clone());
        let want = expected(i, &m);
        if sorted(got.iter().map(show).collect()) != sorted(want.clone()) {
            return Err(format!("{:?} on {:?}: got {:?}, expected {:?}", i, m, got.iter().map(show).collect::<Vec<_>>(), want));
        }
        same("the stack it was applied to", show(&t), m)?;
        if !got.is_empty() {
            t = got[k % got.len()].clone();
        }
        let e = t.current_symbol();
        let empty = match e {
            MDTreeElem::Root => true,
            MDTreeElem::Node(x, s) => x.is_none() && s.is_empty(),
        };
        same("is_empty", e.is_empty(), empty)?;
    }
    Ok(())
}
// ---- words ----
/// forests of brackets
#[derive(Clone, Debug)]
struct Tr(u8, Vec<Tr>);
fn forest(w: &[Bracket<u8>]) -> Option<Vec<Tr>> {
    let mut open: Vec<(u8, Vec<Tr>)> = vec![(0, vec![])];
    for b in w {
        match b {
            Bracket::Open(a) => open.push((*a, vec![])),
            Bracket::Close(a) => {
                let (x, f) = open.pop().unwrap();
                if x != *a || open.is_empty() {
                    return None;
                }
                open.last_mut().unwrap().1.push(Tr(x, f));
            }
        }
    }
    if open.len() == 1 { Some(open.pop().unwrap().1) } else { None }
}
/// the roots can be gathered in groups with each symbol of a cell once whose inner forests together are members again;
/// with positions, all roots of one position are a group
fn member(f: &[Tr], cells: &[Vec<u8>], sort: &dyn Fn(u8) -> Option<usize>) -> bool {
    if f.is_empty() {
        return true;
    }
    let c = match cells.iter().find(|c| c.contains(&f[0].0)) {
        Some(c) => c,
        None => return false,
    };
    // choose the companions of the first root
    let pos = sort(f[0].0);
    let others: Vec<usize> = (1..f.len()).filter(|i| if pos.is_some() { sort(f[*i].0) == pos } else { true }).collect();
    let mut ways: Vec<Vec<usize>> = vec![vec![0]];
    for i in others {
        if pos.is_some() {
            ways[0].push(i);
            continue;
        }
        let more: Vec<Vec<usize>> = ways.iter().filter(|g| c.contains(&f[i].0) && g.iter().all(|j| f[*j].0 != f[i].0)).map(|g| g.iter().cloned().chain(Some(i)).collect()).collect();
        ways.extend(more);
    }
    ways.iter().any(|g| {
        let mut syms: Vec<u8> = g.iter().map(|i| f[*i].0).collect();
        syms.sort();
        let mut want = c.clone();
        want.sort();
        if syms != want {
            return false;
        }
        let inner: Vec<Tr> = g.iter().flat_map(|i| f[*i].1.clone()).collect();
        let rest: Vec<Tr> = (0..f.len()).filter(|i| !g.contains(i)).map(|i| f[i].clone()).collect();
        member(&inner, cells, sort) && member(&rest, cells, sort)
    })
}
/// a member: groups of brackets, each around pieces of what is inside
fn grown(r: &mut Rng, cells: &[Vec<u8>], budget: &mut usize, nested: usize) -> Vec<Tr> {
    let mut out: Vec<Tr> = Vec::new();
    let n = if nested == 0 { 1 + r.below(2) } else { r.below(3) };
    for _ in 0..n {
        let c = r.pick(cells).clone();
        if c.is_empty() || c.len() > *budget {
            continue;
        }
        *budget -= c.len();
        let mut syms = c.clone();
        r.shuffle(&mut syms);
        let mut parts: Vec<Vec<Tr>> = vec![vec![]; c.len()];
        let mut k = 0;
        for t in grown(r, cells, budget, nested + 1) {
            k = k + r.below(c.len() - k);
            parts[k].push(t);
        }
        // the pieces of the inner forest stay in order
        let mut at = 0;
        for (a, f) in syms.into_iter().zip(parts) {
            at = at + r.below(out.len() + 1 - at);
            out.insert(at, Tr(a, f));
            at += 1;
        }
    }
    out
}
fn spelled(f: &[Tr], w: &mut Vec<Bracket<u8>>) {
    for Tr(a, g) in f {
        w.push(Bracket::Open(*a));
        spelled(g, w);
        w.push(Bracket::Close(*a));
    }
}
fn words(cells: &[Vec<u8>], pos: &[usize], w: &[Bracket<u8>]) -> Result<(), String> {
    let p = || Partition::new(cells.iter().map(|c| c.iter().cloned().collect::<BTreeSet<u8>>()).collect()).unwrap();
    let f = forest(w);
    let plain = f.as_ref().map_or(false, |f| member(f, cells, &|_| None));
    same("member of the language", MultipleDyckLanguage::new(p()).recognize(w), plain)?;
    let sorted = f.as_ref().map_or(false, |f| member(f, cells, &|a| Some(pos[a as usize])));
    same("member of the sorted language", MultipleDyckLanguage::sorted(p(), |a: &u8| pos[*a as usize]).recognize(w), sorted)
}
fn set(r: &mut Rng) -> BTreeSet<u8> {
    (0..4u8).filter(|_| r.chance(1, 2)).collect()
}
fn elem(r: &mut Rng) -> E {
    if r.chance(1, 8) {
        return MDTreeElem::Root;
    }
    let a = if r.chance(1, 3) { Some(r.below(4) as u8) } else { None };
    MDTreeElem::Node(a, set(r))
}
fn ops(r: &mut Rng, len: usize, w: usize, wild: bool) -> Vec<Op> {
    (0..len)
        .map(|_| {
            let a = r.below(4) as u8;
            let mut c = set(r);
            if !r.chance(1, 5) {
                c.insert(a);
            }
            match r.below(if wild { 14 } else { 8 }) {
                0 | 1 => Op::Apply(MultipleDyckInstruction::Up(a, c), r.below(4)),
                2 | 3 | 4 => Op::Apply(MultipleDyckInstruction::UpAt(r.below(w), a, c), 0),
                5 => Op::Apply(MultipleDyckInstruction::Down(a), 0),
                6 | 7 => Op::Close,
                8 | 9 => Op::Set(elem(r)),
                10 | 11 => Op::Push(r.below(w), elem(r)),
                12 => Op::Up(r.below(w)),
                _ => Op::Down,
            }
        })
        .collect()
}
fn main() {
    let mut p = Probe::new("a history of instructions (and other changes of the tree stack) with an opening instruction; all results of each instruction are compared; partitions of up to 5 symbols and bracket words of up to 6 pairs, most of them members or close to one; non-trivial: two pairs at least");
    let n = p.rounds(5000, 12);
    for k in 0..n {
        let mut r = p.rng.clone();
        p.rng.next();
        let (len, w) = (1 + r.below(if k % 7 == 0 { 40 } else { 14 }), 1 + r.below(4));
        let o = ops(&mut r, len, w, k % 3 != 0);
        let nt = o.iter().any(|x| matches!(x, Op::Apply(MultipleDyckInstruction::Up(..), _) | Op::Apply(MultipleDyckInstruction::UpAt(..), _)));
        p.case(format!("{:?}", o), nt, || run(&o));
    }
    for _ in 0..p.rounds(4000, 12) {
        let r = &mut p.rng;
        // a partition of some of the symbols 0..5, positions for all of them
        let mut cells: Vec<Vec<u8>> = vec![vec![]; 1 + r.below(3)];
        for a in 0..5u8 {
            if r.chance(4, 5) {
                let i = r.below(cells.len());
                if cells[i].len() < 3 {
                    cells[i].push(a);
                }
            }
        }
        let apart = r.chance(1, 2);
        let pos: Vec<usize> = (0..5u8).map(|a| if apart { cells.iter().position(|c| c.contains(&a)).unwrap_or(3) } else { r.below(3) }).collect();
        let mut w = Vec::new();
        let mut budget = 6;
        spelled(&grown(r, &cells, &mut budget, 0), &mut w);
        for _ in 0..[0, 0, 0, 1, 2][r.below(5)] {
            if w.is_empty() {
                break;
            }
            let i = r.below(w.len());
            match r.below(3) {
                0 => {
                    w.remove(i);
                }
                1 => {
                    let j = r.below(w.len());
                    w.swap(i, j);
                }
                _ => {
                    let a = r.below(5) as u8;
                    let at = match &w[i] { Bracket::Open(b) | Bracket::Close(b) => *b };
                    w = w.into_iter().map(|b| match b { Bracket::Open(x) if x == at => Bracket::Open(a), Bracket::Close(x) if x == at => Bracket::Close(a), b => b }).collect();
                }
            }
        }
        let nt = w.len() > 3;
        p.case(format!("cells {:?} positions {:?} word {:?}", cells, pos, w), nt, || words(&cells, &pos, &w));
    }
    p.finish();
}
