// C03: agendas against lists of held (element, priority) in order of arrival.
use pk::*;
use search::agenda::binary_heap::weighted::BinaryHeap as WHeap;
use search::agenda::weighted::{Weighted, WeightedItem};
use search::agenda::{beam_heap, limited_heap, Agenda};
use std::collections::VecDeque;
use std::ops::Mul;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Pct(i64);
impl Mul for Pct {
    type Output = Pct;
    fn mul(self, o: Pct) -> Pct {
        Pct(self.0 * o.0 / 100)
    }
}
#[derive(Debug, Clone, PartialEq)]
struct El(usize, Pct);
impl Weighted for El {
    type Weight = Pct;
    fn get_weight(&self) -> Pct {
        self.1
    }
}
#[derive(Debug, Clone)]
enum Op {
    Push(Pct),
    Pop,
    Extend(Vec<Pct>),
    Clear,
}

// what one push may do
enum Keep {
    All,
    Beam(Pct),
    Limit(usize),
}

/// `say`: what the agenda answered to the push (beam: kept; limited: Some(dropped))
fn pushed(held: &mut Vec<El>, x: El, keep: &Keep, before: &Vec<El>, after: &Vec<El>) -> Result<(), String> {
    let mut all = before.clone();
    all.push(x.clone());
    match keep {
        Keep::All => *held = all,
        Keep::Beam(b) => {
            let top = before.iter().map(|e| e.1).max();
            if top.map_or(true, |t| x.1 >= t * *b) {
                *held = all
            } else {
                *held = before.clone()
            }
        }
        Keep::Limit(n) => {
            if before.len() < *n {
                *held = all
            } else {
                let min = all.iter().map(|e| e.1).min().unwrap();
                let gone: Vec<&El> = all.iter().filter(|e| !after.contains(e)).collect();
                if gone.len() != 1 || gone[0].1 != min {
                    return Err(format!("pushing {:?} to the full agenda {:?} left {:?}", x, before, after));
                }
                *held = all.iter().filter(|e| after.contains(e)).cloned().collect();
            }
        }
    }
    Ok(())
}
fn sorted(v: &Vec<El>) -> Vec<(usize, Pct)> {
    let mut r: Vec<(usize, Pct)> = v.iter().map(|e| (e.0, e.1)).collect();
    r.sort();
    r
}

/// Generic over the agenda trait; elements carry unique numbers. `dump` lists what is held.
fn run<A: Agenda<Item = El>>(mut a: A, start: &[El], ops: &[Op], keep: Keep, order: &str, dump: &dyn Fn(A) -> Vec<El>, again: &dyn Fn() -> A) -> Result<(), String> {
    // arrival order
    let mut held: Vec<El> = start.to_vec();
    let mut script: Vec<(bool, Option<El>)> = Vec::new();
    let mut n = 1000;
    let contents = |script: &Vec<(bool, Option<El>)>| -> Vec<El> {
        let mut b = again();
        for (push, e) in script {
            if *push {
                b.push(e.clone().unwrap())
            } else {
                b.pop();
            }
        }
        dump(b)
    };
    for (k, o) in ops.iter().enumerate() {
        let at = |e: String| format!("operation {} ({:?}): {}", k, o, e);
        match o {
            Op::Push(_) | Op::Extend(_) => {
                let ws: Vec<Pct> = match o {
                    Op::Push(w) => vec![*w],
                    Op::Extend(v) => v.clone(),
                    _ => vec![],
                };
                let es: Vec<El> = ws.iter().map(|w| { n += 1; El(n, *w) }).collect();
                if es.len() == 1 {
                    a.push(es[0].clone());
                } else {
                    a.extend(es.clone());
                }
                for e in es {
                    script.push((true, Some(e.clone())));
                    let after = contents(&script);
                    let before = held.clone();
                    pushed(&mut held, e, &keep, &before, &after).map_err(at)?;
                    same("held elements", sorted(&after), sorted(&held)).map_err(at)?;
                }
            }
            Op::Pop => {
                let p = a.peek().cloned();
                let x = a.pop();
                script.push((false, None));
                same("peek and pop", x.clone(), p).map_err(at)?;
                match (&x, order) {
                    (None, _) => same("pop of a non-empty agenda", held.len(), 0).map_err(at)?,
                    (Some(x), "last") => same("pop", Some(x), held.last()).map_err(at)?,
                    (Some(x), "first") => same("pop", Some(x), held.first()).map_err(at)?,
                    (Some(x), _) => {
                        if !held.contains(x) {
                            return Err(at(format!("popped {:?}, which is not held in {:?}", x, held)));
                        }
                        same("priority of the popped element", Some(x.1), held.iter().map(|e| e.1).max()).map_err(at)?
                    }
                }
                if let Some(x) = x {
                    let m = held.len();
                    held.retain(|e| *e != x);
                    same("popped element held", held.len() + 1, m).map_err(at)?;
                }
                same("held elements", sorted(&contents(&script)), sorted(&held)).map_err(at)?;
            }
            Op::Clear => {}
        }
        same("len", a.len(), held.len()).map_err(at)?;
        same("is_empty", a.is_empty(), held.is_empty()).map_err(at)?;
    }
    same("held at the end", sorted(&dump(a)), sorted(&held))
}
fn drain<A: Agenda<Item = El>>(mut a: A) -> Vec<El> {
    let mut v = Vec::new();
    while let Some(x) = a.pop() {
        v.push(x);
    }
    v
}

fn answers(beta: Pct, cap: usize, ops: &[Op]) -> Result<(), String> {
    let mut b = beam_heap::BeamHeap::new(beta);
    let mut l = limited_heap::LimitedHeap::with_capacity(cap);
    let (mut hb, mut hl): (Vec<El>, Vec<El>) = (vec![], vec![]);
    let mut n = 0;
    for o in ops {
        match o {
            Op::Push(w) => {
                n += 1;
                let keeps = hb.iter().map(|e| e.1).max().map_or(true, |t| *w >= t * beta);
                same("answer of the beam", b.push(El(n, *w), *w), keeps)?;
                if keeps {
                    hb.push(El(n, *w));
                }
                let r = l.push(El(n, *w), *w);
                hl.push(El(n, *w));
                if hl.len() > cap {
                    let min = hl.iter().map(|e| e.1).min().unwrap();
                    match r {
                        Some(x) if x.1 == min && hl.contains(&x) => hl.retain(|e| *e != x),
                        r => return Err(format!("full limited agenda dropped {:?} of {:?}", r, hl)),
                    }
                } else {
                    same("limited agenda dropped", r, None)?;
                }
            }
            Op::Pop => {
                same("beam peek", b.peek().map(|e| e.1), hb.iter().map(|e| e.1).max())?;
                if let Some(x) = b.pop() {
                    same("beam pop", Some(x.1), hb.iter().map(|e| e.1).max())?;
                    hb.retain(|e| *e != x);
                }
                let p = l.peek().cloned();
                let x = l.pop();
                same("limited peek", p, x.clone())?;
                if let Some(x) = x {
                    same("limited pop", Some(x.1), hl.iter().map(|e| e.1).max())?;
                    hl.retain(|e| *e != x);
                }
            }
            Op::Clear => {
                b.clear();
                l.clear();
                hb.clear();
                hl.clear();
            }
            Op::Extend(_) => {}
        }
        same("beam len", b.len(), hb.len())?;
        same("limited len", l.len(), hl.len())?;
    }
    same("beam entries", sorted(&b.clone().into_iter().collect()), sorted(&hb))?;
    same("limited entries", sorted(&l.clone().into_iter().collect()), sorted(&hl))
}

fn main() {
    let mut p = Probe::new("sequences of up to 16 pushes, extends and pops on every agenda (stack, queue, weighted, beam with factors 0-150 percent, limited with capacity 0-6), priorities with ties, elements distinguishable; held elements, peek, pop, length and answers are compared with a list after every operation; plus comparison of weighted items; non-trivial: at least 3 operations");
    for _ in 0..p.rounds(3000, 20) {
        let np = 1 + p.rng.below(6);
        let scale = *p.rng.pick(&[1i64, 10, 100]);
        let m = p.rng.below(17);
        let ops: Vec<Op> = (0..m)
            .map(|_| match p.rng.below(10) {
                0..=4 => Op::Push(Pct(scale * p.rng.below(np) as i64)),
                5 => Op::Extend((0..p.rng.below(4)).map(|_| Pct(scale * p.rng.below(np) as i64)).collect()),
                _ => Op::Pop,
            })
            .collect();
        let start: Vec<El> = (0..p.rng.below(5)).map(|i| El(i, Pct(scale * p.rng.below(np) as i64))).collect();
        let beta = Pct(*p.rng.pick(&[0i64, 10, 50, 90, 100, 150]));
        let cap = p.rng.below(7);
        let nt = m > 2;
        p.case(format!("stack {:?} then {:?}", start, ops), nt, || run(start.clone(), &start, &ops, Keep::All, "last", &|a| a, &|| start.clone()));
        p.case(format!("queue then {:?}", ops), nt, || run(VecDeque::new(), &[], &ops, Keep::All, "first", &|a| a.into_iter().rev().collect(), &|| VecDeque::new()));
        p.case(format!("weighted {:?} then {:?}", start, ops), nt, || run(start.iter().cloned().collect::<WHeap<El>>(), &start, &ops, Keep::All, "greatest", &|a| a.into_iter().collect(), &|| start.iter().cloned().collect()));
        p.case(format!("weighted, emptied by pops, {:?} then {:?}", start, ops), nt, || run(start.iter().cloned().collect::<WHeap<El>>(), &start, &ops, Keep::All, "greatest", &drain, &|| start.iter().cloned().collect()));
        p.case(format!("beam {:?} then {:?}", beta, ops), nt, || run(beam_heap::weighted::BeamHeap::new(beta), &[], &ops, Keep::Beam(beta), "greatest", &|a| a.into_iter().collect(), &|| beam_heap::weighted::BeamHeap::new(beta)));
        p.case(format!("limited {} then {:?}", cap, ops), nt, || run(limited_heap::weighted::LimitedHeap::with_capacity(cap), &[], &ops, Keep::Limit(cap), "greatest", &|a| a.into_iter().collect(), &|| limited_heap::weighted::LimitedHeap::with_capacity(cap)));
        p.case(format!("limited {}, emptied by pops, {:?}", cap, ops), nt, || run(limited_heap::weighted::LimitedHeap::with_capacity(cap), &[], &ops, Keep::Limit(cap), "greatest", &drain, &|| limited_heap::weighted::LimitedHeap::with_capacity(cap)));
        let mut ops2 = ops.clone();
        if p.rng.chance(1, 3) && m > 0 {
            ops2[m / 2] = Op::Clear;
        }
        p.case(format!("answers, beam {:?}, capacity {}: {:?}", beta, cap, ops2), nt, || answers(beta, cap, &ops2));
    }
    for a in 0..4 {
        for b in 0..4 {
            let (x, y) = (WeightedItem('x', a), WeightedItem('a', b));
            p.case(format!("comparison of items with priorities {} and {}", a, b), a != b, || {
                same("cmp", x.cmp(&y), a.cmp(&b))?;
                same("partial_cmp", x.partial_cmp(&y), a.partial_cmp(&b))?;
                same("eq", x == y, a == b)?;
                same("weight", x.get_weight(), a)
            });
        }
    }
    p.finish();
}
