// C14: tree stacks against a table of labels by address and a pointer.
use pk::*;
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::Instruction;
use std::cmp::Ordering;
use std::collections::BTreeMap;

type Model = (BTreeMap<Vec<usize>, u8>, Vec<usize>);
type Ins = TreeStackInstruction<u8>;

#[derive(Clone, Debug)]
enum Op {
    Push(usize, u8),
    PushWith(usize, u8),
    PushNext(u8),
    Up(usize),
    Ups(usize),
    Down,
    Set(u8),
    Apply(Ins),
    ApplyFitting(u8, usize, u8),
    Keep,
    Back(usize),
}
fn show(t: &TreeStack<u8>) -> Model {
    let (g, p) = t.to_tree();
    (g.into_iter().collect(), p)
}
fn with_child(p: &Vec<usize>, n: usize) -> Vec<usize> {
    let mut q = p.clone();
    q.push(n);
    q
}
fn look(t: &TreeStack<u8>, m: &Model) -> Result<(), String> {
    same("tree and pointer", show(t), m.clone())?;
    same("current_symbol", *t.current_symbol(), m.0[&m.1])?;
    same("is_at_bottom", t.is_at_bottom(), m.1.is_empty())?;
    let l = m.0[&m.1];
    for bound in &[0u8, 1, 2, 3] {
        let all = m.0.iter().filter(|(k, _)| k.starts_with(&m.1)).all(|(_, v)| v >= bound);
        same("all", t.all(&|x: &u8| *x >= *bound), all)?;
    }
    same("all but the label here", t.all(&|x: &u8| *x != l), false)?;
    let q = t.map(&mut |x| *x as u32 * 3 + 1);
    let (g, p) = q.to_tree();
    same("map", (g.into_iter().collect::<BTreeMap<_, _>>(), p), (m.0.iter().map(|(k, v)| (k.clone(), *v as u32 * 3 + 1)).collect(), m.1.clone()))
}
fn children(m: &Model) -> Vec<usize> {
    m.0.keys().filter(|k| k.len() == m.1.len() + 1 && k.starts_with(&m.1)).map(|k| k[k.len() - 1]).collect()
}
// what an instruction should yield
fn expected(i: &Ins, m: &Model) -> Option<Model> {
    let mut r = m.clone();
    match i {
        TreeStackInstruction::Up { n, current_val, old_val, new_val } => {
            let q = with_child(&m.1, *n);
            if m.0[&m.1] != *current_val || m.0.get(&q) != Some(old_val) {
                return None;
            }
            r.0.insert(q.clone(), *new_val);
            r.1 = q;
        }
        TreeStackInstruction::Push { n, current_val, new_val } => {
            let q = with_child(&m.1, *n);
            if m.0[&m.1] != *current_val || m.0.contains_key(&q) {
                return None;
            }
            r.0.insert(q.clone(), *new_val);
            r.1 = q;
        }
        TreeStackInstruction::Down { current_val, old_val, new_val } => {
            if m.0[&m.1] != *current_val || m.1.is_empty() {
                return None;
            }
            let q = m.1[..m.1.len() - 1].to_vec();
            if m.0[&q] != *old_val {
                return None;
            }
            r.0.insert(q.clone(), *new_val);
            r.1 = q;
        }
    }
    Some(r)
}
fn apply(i: &Ins, t: &TreeStack<u8>, m: &Model) -> Result<Option<(TreeStack<u8>, Model)>, String> {
    let got = i.apply(t.clone());
    match expected(i, m) {
        None => {
            same("results of an impossible instruction", got.len(), 0)?;
            Ok(None)
        }
        Some(w) => {
            same("results of a possible instruction", got.len(), 1)?;
            same("after the instruction", show(&got[0]), w.clone())?;
            Ok(Some((got[0].clone(), w)))
        }
    }
}
fn pushed(r: Result<TreeStack<u8>, TreeStack<u8>>, n: usize, a: u8, m: &mut Model) -> Result<TreeStack<u8>, String> {
    let q = with_child(&m.1, n);
    match (r, m.0.contains_key(&q)) {
        (Ok(u), false) => {
            m.0.insert(q.clone(), a);
            m.1 = q;
            Ok(u)
        }
        (Err(u), true) => Ok(u),
        (r, _) => Err(format!("push to {}: {:?} on {:?}", n, r, m)),
    }
}
fn run(ops: &[Op]) -> Result<(), String> {
    let mut t: TreeStack<u8> = TreeStack::new(1);
    let mut m: Model = (vec![(vec![], 1)].into_iter().collect(), vec![]);
    look(&t, &m)?;
    let mut kept = vec![(t.clone(), m.clone())];
    for op in ops {
        match op {
            Op::Push(n, a) => t = pushed(t.clone().push(*n, *a), *n, *a, &mut m)?,
            Op::PushWith(n, a) => t = pushed(t.clone().push_with(*n, || *a), *n, *a, &mut m)?,
            Op::PushNext(a) => {
                let c = children(&m);
                let n = (0..).find(|n| !c.contains(n)).unwrap();
                t = t.push_next(*a);
                m.1.push(n);
                m.0.insert(m.1.clone(), *a);
            }
            Op::Up(n) => match (t.clone().up(*n), children(&m).contains(n)) {
                (Ok(u), true) => {
                    t = u;
                    m.1.push(*n);
                }
                (Err(u), false) => t = u,
                (r, _) => return Err(format!("up to {}: {:?} on {:?}", n, r, m)),
            },
            Op::Ups(k) => {
                let c = children(&m);
                let us = t.clone().ups();
                same("moves up", us.iter().map(|u| show(u).1).collect::<Vec<_>>(), c.iter().map(|n| with_child(&m.1, *n)).collect())?;
                for u in &us {
                    same("tree after moving up", show(u).0, m.0.clone())?;
                }
                for (i, u) in us.iter().enumerate() {
                    for (j, v) in us.iter().enumerate() {
                        same("moves up are equal", u == v, i == j)?;
                    }
                }
                if !us.is_empty() {
                    t = us[k % us.len()].clone();
                    m.1.push(c[k % us.len()]);
                }
            }
            Op::Down => match (t.clone().down(), m.1.is_empty()) {
                (Ok(u), false) => {
                    t = u;
                    m.1.pop();
                }
                (Err(u), true) => t = u,
                (r, _) => return Err(format!("down: {:?} on {:?}", r, m)),
            },
            Op::Set(a) => {
                t = t.set(*a);
                m.0.insert(m.1.clone(), *a);
            }
            Op::Apply(i) => {
                if let Some((u, w)) = apply(i, &t, &m)? {
                    t = u;
                    m = w;
                }
            }
            Op::ApplyFitting(k, n, a) => {
                let here = m.0[&m.1];
                let i = match k % 3 {
                    0 => TreeStackInstruction::Up { n: *n, current_val: here, old_val: *m.0.get(&with_child(&m.1, *n)).unwrap_or(&0), new_val: *a },
                    1 => TreeStackInstruction::Push { n: *n, current_val: here, new_val: *a },
                    _ => TreeStackInstruction::Down { current_val: here, old_val: if m.1.is_empty() { 0 } else { m.0[&m.1[..m.1.len() - 1]] }, new_val: *a },
                };
                if let Some((u, w)) = apply(&i, &t, &m)? {
                    t = u;
                    m = w;
                }
            }
            Op::Keep => kept.push((t.clone(), m.clone())),
            Op::Back(k) => {
                let (q, n) = kept[k % kept.len()].clone();
                t = q;
                m = n;
            }
        }
        look(&t, &m)?;
        for (q, n) in &kept {
            same("kept stack unchanged", show(q), n.clone())?;
            same("equal to the kept stack", t == *q, m == *n)?;
            same("compared with the kept stack", t.cmp(q) == Ordering::Equal, m == *n)?;
            same("compared the other way round", t.cmp(q), q.cmp(&t).reverse())?;
        }
    }
    Ok(())
}
fn ops(r: &mut Rng, len: usize, w: usize) -> Vec<Op> {
    (0..len)
        .map(|_| {
            let a = r.below(4) as u8;
            let n = r.below(w);
            match r.below(20) {
                0 | 1 | 2 => Op::Push(n, a),
                3 | 4 => Op::PushWith(n, a),
                5 | 6 => Op::PushNext(a),
                7 | 8 => Op::Up(n),
                9 => Op::Ups(r.below(3)),
                10 | 11 | 12 => Op::Down,
                13 => Op::Set(a),
                14 => Op::Keep,
                15 => Op::Back(r.below(4)),
                16 => {
                    let (b, c) = (r.below(4) as u8, r.below(4) as u8);
                    Op::Apply(match r.below(3) {
                        0 => TreeStackInstruction::Up { n, current_val: a, old_val: b, new_val: c },
                        1 => TreeStackInstruction::Push { n, current_val: a, new_val: b },
                        _ => TreeStackInstruction::Down { current_val: a, old_val: b, new_val: c },
                    })
                }
                _ => Op::ApplyFitting(r.below(3) as u8, n, a),
            }
        })
        .collect()
}
fn main() {
    let mut p = Probe::new("a history of tree stack operations and instructions that pushes at least once");
    let n = p.rounds(4000, 12);
    for k in 0..n {
        let mut r = p.rng.clone();
        p.rng.next();
        let (len, w) = (1 + r.below(if k % 7 == 0 { 40 } else { 14 }), 1 + r.below(5));
        let o = ops(&mut r, len, w);
        let nt = o.iter().any(|x| matches!(x, Op::Push(..) | Op::PushWith(..) | Op::PushNext(_) | Op::ApplyFitting(1, ..)));
        p.case(format!("{:?}", o), nt, || run(&o));
    }
    p.finish();
}
