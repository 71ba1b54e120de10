// C05: VecMultiMap and its adapter against a map from indices to lists.
use pk::*;
use std::collections::BTreeMap;
use vecmultimap::{VecMultiMap, VecMultiMapAdapter};

#[derive(Debug, Clone)]
enum Op {
    Push(usize, u8),
    Get(usize),
    Fail(usize),
    Edit(usize, Vec<u8>),
    Index(usize),
    IndexMut(usize, u8),
}
type Model = BTreeMap<usize, Vec<u8>>;

fn at(m: &Model, i: usize) -> Vec<u8> {
    m.get(&i).cloned().unwrap_or_default()
}

fn run_map(ops: &[Op], size: usize) -> Result<(), String> {
    let build = || -> Result<(VecMultiMap<u8>, Model, usize), String> {
        let (mut v, mut m, mut touched) = (VecMultiMap::new(), Model::new(), 0);
        for o in ops {
            match o {
                Op::Push(i, x) => {
                    v.push_to(*i, *x);
                    m.entry(*i).or_default().push(*x);
                    touched = touched.max(i + 1);
                }
                Op::Get(i) | Op::Index(i) => {
                    same(&format!("get({})", i), v.get(*i).clone(), at(&m, *i))?;
                    touched = touched.max(i + 1);
                }
                Op::Fail(i) => match v.get_or_fail(*i) {
                    Some(l) => same(&format!("get_or_fail({})", i), l.clone(), at(&m, *i))?,
                    None => same(&format!("get_or_fail({}) of a filled index", i), Vec::new(), at(&m, *i))?,
                },
                Op::Edit(i, l) => {
                    same(&format!("get_mut({})", i), v.get_mut(*i).clone(), at(&m, *i))?;
                    *v.get_mut(*i) = l.clone();
                    m.insert(*i, l.clone());
                    touched = touched.max(i + 1);
                }
                Op::IndexMut(i, x) => {
                    v.get_mut(*i).insert(0, *x);
                    m.entry(*i).or_default().insert(0, *x);
                    touched = touched.max(i + 1);
                }
            }
        }
        Ok((v, m, touched))
    };
    let (v, m, _) = build()?;
    for (i, l) in &m {
        same(&format!("list of {}", i), v.get_or_fail(*i), Some(l))?;
    }
    let e: Vec<Vec<u8>> = v.into();
    let n = m.iter().filter(|(_, l)| !l.is_empty()).map(|(i, _)| i + 1).max().unwrap_or(0);
    same("export", e, (0..n).map(|i| at(&m, i)).collect())?;
    let (v, m, _) = build()?;
    same("export with size", v.into_vec_with_size(size), (0..size).map(|i| at(&m, i)).collect())
}

fn run_adapter(start: &Vec<Vec<u8>>, ops: &[Op]) -> Result<(), String> {
    let mut under = start.clone();
    let mut m: Model = start.iter().cloned().enumerate().collect();
    {
        let mut a = if ops.len() % 2 == 0 { VecMultiMapAdapter(&mut under) } else { VecMultiMapAdapter::from(&mut under) };
        for o in ops {
            match o {
                Op::Push(i, x) => {
                    a.push_to(*i, *x);
                    m.entry(*i).or_default().push(*x);
                }
                Op::Get(i) => same(&format!("get({})", i), a.get(*i).clone(), at(&m, *i))?,
                Op::Fail(i) => match a.get_or_fail(*i) {
                    Some(l) => same(&format!("get_or_fail({})", i), l.clone(), at(&m, *i))?,
                    None => same(&format!("get_or_fail({}) of a filled index", i), Vec::new(), at(&m, *i))?,
                },
                Op::Index(i) => {
                    if a.get_or_fail(*i).is_some() {
                        same(&format!("[{}]", i), a[*i].clone(), at(&m, *i))?;
                    }
                }
                Op::Edit(i, l) => {
                    same(&format!("get_mut({})", i), a.get_mut(*i).clone(), at(&m, *i))?;
                    *a.get_mut(*i) = l.clone();
                    m.insert(*i, l.clone());
                }
                Op::IndexMut(i, x) => {
                    a[*i].push(*x);
                    m.entry(*i).or_default().push(*x);
                }
            }
        }
    }
    let n = under.len();
    for i in 0..n.max(m.keys().next_back().map_or(0, |k| k + 1)) {
        same(&format!("list of {} in the vector", i), under.get(i).cloned().unwrap_or_default(), at(&m, i))?;
    }
    Ok(())
}

fn main() {
    let mut p = Probe::new("operation sequences of length up to 12 (append, access, replace through mutable access, indexing) over 1-10 indices, sometimes one far index; both exports (size 0-14) and all accesses compared with a map; the adapter starts from up to 5 given lists; non-trivial: at least 3 operations");
    for _ in 0..p.rounds(8000, 20) {
        let ni = 1 + p.rng.below(10);
        let n = p.rng.below(13);
        let ops: Vec<Op> = (0..n)
            .map(|_| {
                let i = if p.rng.chance(1, 60) { 300 + p.rng.below(50) } else { p.rng.below(ni) };
                let x = p.rng.below(7) as u8;
                match p.rng.below(9) {
                    0 | 1 | 2 => Op::Push(i, x),
                    3 => Op::Get(i),
                    4 => Op::Fail(i),
                    5 => Op::Edit(i, (0..p.rng.below(3)).map(|k| k as u8).collect()),
                    6 => Op::Index(i),
                    7 => Op::Edit(i, vec![]),
                    _ => Op::IndexMut(i, x),
                }
            })
            .collect();
        let size = if p.rng.chance(1, 50) { 400 } else { p.rng.below(15) };
        if p.rng.chance(1, 2) {
            p.case(format!("map, export size {}: {:?}", size, ops), n > 2, || run_map(&ops, size));
        } else {
            let start: Vec<Vec<u8>> = (0..p.rng.below(6)).map(|_| (0..p.rng.below(3)).map(|_| p.rng.below(5) as u8).collect()).collect();
            p.case(format!("adapter on {:?}: {:?}", start, ops), n > 2, || run_adapter(&start, &ops));
        }
    }
    p.finish();
}
