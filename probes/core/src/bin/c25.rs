// C25: trees by address.
use pk::*;
use rustomata::util::tree::GornTree;
use std::cmp::Ordering;

type A = Vec<usize>;
type L = Vec<(A, u32)>;

fn cmp(p: &[usize], q: &[usize]) -> Ordering {
    for i in 0..p.len().min(q.len()) {
        if p[i] != q[i] {
            return if p[i] < q[i] { Ordering::Less } else { Ordering::Greater };
        }
    }
    if p.len() < q.len() {
        Ordering::Less
    } else if p.len() > q.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
fn put(l: &mut L, k: A, v: u32) -> Option<u32> {
    for i in 0..l.len() {
        match cmp(&l[i].0, &k) {
            Ordering::Equal => return Some(std::mem::replace(&mut l[i].1, v)),
            Ordering::Greater => {
                l.insert(i, (k, v));
                return None;
            }
            Ordering::Less => {}
        }
    }
    l.push((k, v));
    None
}
fn find(l: &L, k: &A) -> Option<u32> {
    l.iter().find(|e| &e.0 == k).map(|e| e.1)
}
#[derive(Debug, Clone)]
enum Op {
    Insert(A, u32),
    Remove(A),
    Set(A, u32),
    Entry(A, u32),
    Append(L),
    Split(A, bool),
    AddAll(u32),
    Clear,
}
fn look(t: &GornTree<u32>, l: &L, asked: &[A]) -> Result<(), String> {
    for k in asked {
        same(&format!("get {:?}", k), t.get(k).cloned(), find(l, k))?;
        same(&format!("contains_key {:?}", k), t.contains_key(k), find(l, k).is_some())?;
    }
    same("len", t.len(), l.len())?;
    same("is_empty", t.is_empty(), l.is_empty())?;
    same("keys", t.keys().cloned().collect::<Vec<_>>(), l.iter().map(|e| e.0.clone()).collect::<Vec<_>>())?;
    same("values", t.values().cloned().collect::<Vec<_>>(), l.iter().map(|e| e.1).collect::<Vec<_>>())?;
    let mut got = Vec::new();
    for (k, v) in t {
        got.push((k.clone(), *v));
    }
    same("iteration over a reference", &got, l)?;
    let byref: GornTree<&u32> = t.into_iter().map(|(k, v)| (k.clone(), v)).collect();
    let copy: GornTree<u32> = byref.cloned();
    same("copy made by cloned equals the tree", &copy == t, true)?;
    same("nodes of the copy made by cloned", &copy.into_iter().collect::<L>(), l)?;
    Ok(())
}
fn run(ops: &[Op], asked: &[A]) -> Result<(), String> {
    let mut t: GornTree<u32> = GornTree::new();
    let mut l: L = Vec::new();
    let mut before: Vec<(GornTree<u32>, L)> = Vec::new();
    for op in ops {
        let at = |e: String| format!("after {:?}: {}", op, e);
        match op.clone() {
            Op::Insert(k, v) => same("insert", t.insert(k.clone(), v), put(&mut l, k, v)).map_err(at)?,
            Op::Remove(k) => {
                let want = find(&l, &k);
                l.retain(|e| e.0 != k);
                same("remove", t.remove(&k), want).map_err(at)?;
            }
            Op::Set(k, v) => {
                let mut old = None;
                if let Some(x) = t.get_mut(&k) {
                    old = Some(*x);
                    *x = v;
                }
                let want = if find(&l, &k).is_some() { put(&mut l, k, v) } else { None };
                same("get_mut", old, want).map_err(at)?;
            }
            Op::Entry(k, v) => {
                *t.entry(k.clone()).or_insert(v) += 1;
                let w = find(&l, &k).unwrap_or(v);
                put(&mut l, k, w + 1);
            }
            Op::Append(m) => {
                let mut o: GornTree<u32> = m.iter().cloned().collect();
                for (k, v) in m {
                    put(&mut l, k, v);
                }
                t.append(&mut o);
                same("the appended tree is empty", o.len(), 0).map_err(at)?;
            }
            Op::Split(k, low) => {
                let o = t.split_off(&k);
                let (lo, hi): (L, L) = l.into_iter().partition(|e| cmp(&e.0, &k) == Ordering::Less);
                look(&o, &hi, asked).map_err(at)?;
                look(&t, &lo, asked).map_err(at)?;
                if low {
                    l = lo;
                } else {
                    t = o;
                    l = hi;
                }
            }
            Op::AddAll(d) => {
                for v in t.values_mut() {
                    *v += d;
                }
                let mut n = 0;
                for (k, v) in &mut t {
                    *v += k.len() as u32;
                    n += 1;
                }
                same("nodes met by mutable iteration", n, l.len()).map_err(at)?;
                for e in l.iter_mut() {
                    e.1 += d + e.0.len() as u32;
                }
            }
            Op::Clear => {
                t.clear();
                l.clear();
            }
        }
        look(&t, &l, asked).map_err(at)?;
        for (u, m) in &before {
            same("equality of trees", t == *u, l == *m).map_err(at)?;
        }
        if before.len() < 6 {
            before.push((t.clone(), l.clone()));
        }
    }
    same("taking the tree apart", t.into_iter().collect::<L>(), l)
}
fn addr(r: &mut Rng) -> A {
    let big = r.chance(1, 10);
    (0..r.below(5)).map(|_| if big { *r.pick(&[0usize, 9, 10, 11, 100, usize::MAX]) } else { r.below(3) }).collect()
}
fn main() {
    let mut p = Probe::new("random histories of up to 14 operations on a tree of numbers, addresses up to length 4, looked up at random addresses and iterated over after every operation; the model is a list kept in lexicographic order by a comparison of its own; non-trivial: at least three insertions");
    for _ in 0..p.rounds(6000, 30) {
        let mut r = p.rng.clone();
        let n = 1 + r.below(14);
        let ops: Vec<Op> = (0..n)
            .map(|_| match r.below(14) {
                0..=4 => Op::Insert(addr(&mut r), r.below(4) as u32),
                5 => Op::Remove(addr(&mut r)),
                6 => Op::Set(addr(&mut r), 50 + r.below(4) as u32),
                7 => Op::Entry(addr(&mut r), r.below(4) as u32),
                8 | 9 | 10 => Op::Append((0..r.below(7)).map(|_| (addr(&mut r), 10 + r.below(4) as u32)).collect()),
                11 => Op::Split(addr(&mut r), r.chance(1, 2)),
                12 => Op::AddAll(r.below(3) as u32),
                _ => if r.chance(1, 4) { Op::Clear } else { Op::Insert(addr(&mut r), 7) },
            })
            .collect();
        let asked: Vec<A> = (0..6).map(|_| addr(&mut r)).collect();
        p.rng = r;
        let hard = ops.iter().filter(|o| matches!(o, Op::Insert(_, _) | Op::Append(_))).count() > 2;
        p.case(format!("asked {:?}, operations {:?}", asked, ops), hard, || run(&ops, &asked));
    }
    p.finish();
}
