// C02: UniqueHeap against a list of held entries in order of arrival.
use pk::*;
use std::hash::{BuildHasher, Hash};
use unique_heap::{FnvUniqueHeap, UniqueHeap};

#[derive(Debug, Clone)]
enum Op<I, W> {
    Push(I, W),
    Pop,
}

fn check<I, W, B>(h: &UniqueHeap<I, W, B>, held: &Vec<(W, I)>) -> Result<(), String>
where
    I: Ord + Hash + Clone + std::fmt::Debug,
    W: Ord + Clone + std::fmt::Debug,
    B: BuildHasher + Clone,
{
    let mut s = held.clone();
    s.sort();
    same("len", h.len(), held.len())?;
    same("is_empty", h.is_empty(), held.is_empty())?;
    same("peek", h.peek().cloned(), s.last().cloned())?;
    let mut it: Vec<(W, I)> = h.into_iter().cloned().collect();
    it.sort();
    same("entries by reference", it, s.clone())?;
    same("sorted export", h.clone().into_sorted_vec(), s.clone())?;
    let mut it: Vec<(W, I)> = h.clone().into_iter().collect();
    it.sort();
    same("entries", it, s)
}

fn run<I, W, B>(mut h: UniqueHeap<I, W, B>, given: &[(I, W)], ops: &[Op<I, W>]) -> Result<(), String>
where
    I: Ord + Hash + Clone + std::fmt::Debug,
    W: Ord + Clone + std::fmt::Debug,
    B: BuildHasher + Clone,
{
    let mut held: Vec<(W, I)> = Vec::new();
    for (i, w) in given {
        if held.iter().all(|e| &e.1 != i) {
            held.push((w.clone(), i.clone()));
        }
    }
    check(&h, &held)?;
    for (n, o) in ops.iter().enumerate() {
        let at = |e: String| format!("operation {}: {}", n, e);
        match o {
            Op::Push(i, w) => {
                let fresh = held.iter().all(|e| &e.1 != i);
                same("push", h.push(i.clone(), w.clone()), fresh).map_err(at)?;
                if fresh {
                    held.push((w.clone(), i.clone()));
                }
            }
            Op::Pop => {
                let mut s = held.clone();
                s.sort();
                let top = s.pop();
                same("pop", h.pop(), top.clone().map(|(w, i)| (i, w))).map_err(at)?;
                if let Some(t) = top {
                    held.retain(|e| e != &t);
                }
            }
        }
        check(&h, &held).map_err(|e| format!("after operation {}: {}", n, e))?;
    }
    Ok(())
}

fn main() {
    let mut p = Probe::new("queues created empty, from an iterator and from a vector (up to 8 entries, 1-5 items, 1-4 priorities, so equal items with equal and with different priorities), then up to 14 pushes and pops, with both hashers; after each operation all observers are compared with a list of held entries; plus all creations of up to 4 entries from 2 items and 2 priorities; non-trivial: an item is offered twice");
    for len in 0..=4u32 {
        for code in 0..4usize.pow(len) {
            let mut c = code;
            let mut v: Vec<(u8, i32)> = Vec::new();
            for _ in 0..len {
                v.push(((c % 2) as u8, (c / 2 % 2) as i32));
                c /= 4;
            }
            let drain: Vec<Op<u8, i32>> = vec![Op::Pop, Op::Push(0, 7), Op::Pop, Op::Push(1, 0), Op::Pop, Op::Pop];
            let flip: Vec<(i32, u8)> = v.iter().map(|&(i, w)| (w, i)).collect();
            p.case(format!("from iterator {:?}, then {:?}", v, drain), len > 2, || run::<_, _, std::collections::hash_map::RandomState>(v.iter().cloned().collect(), &v, &drain));
            p.case(format!("from vector {:?}, then {:?}", flip, drain), len > 2, || run(FnvUniqueHeap::from(flip.clone()), &v, &drain));
        }
    }
    for _ in 0..p.rounds(3000, 20) {
        let (ni, nw) = (1 + p.rng.below(5), 1 + p.rng.below(4));
        let n = p.rng.below(9);
        let given: Vec<(String, usize)> = (0..n).map(|_| (format!("i{}", p.rng.below(ni)), p.rng.below(nw))).collect();
        let m = p.rng.below(15);
        let ops: Vec<Op<String, usize>> = (0..m).map(|_| if p.rng.chance(3, 5) { Op::Push(format!("i{}", p.rng.below(ni)), p.rng.below(nw)) } else { Op::Pop }).collect();
        let kind = p.rng.below(5);
        let desc = format!("{} {:?} then {:?}", ["empty", "iterator", "vector", "fnv iterator", "fnv vector"][kind], given, ops);
        let flip: Vec<(usize, String)> = given.iter().cloned().map(|(i, w)| (w, i)).collect();
        p.case(desc, n + m > 4, || match kind {
            0 => run(UniqueHeap::<String, usize>::default(), &[], &ops),
            1 => run(given.iter().cloned().collect::<UniqueHeap<String, usize>>(), &given, &ops),
            2 => run(UniqueHeap::<String, usize>::from(flip), &given, &ops),
            3 => run(given.iter().cloned().collect::<FnvUniqueHeap<String, usize>>(), &given, &ops),
            _ => run(FnvUniqueHeap::<String, usize>::from(flip), &given, &ops),
        });
    }
    // iterators without an upper bound on their size
    for n in 0..12usize {
        let v: Vec<(usize, usize)> = (0..n).map(|i| (i % 5, i)).collect();
        p.case(format!("filtered iterator {:?}", v), n > 5, || run(v.iter().cloned().filter(|_| true).flat_map(|x| vec![x]).collect::<UniqueHeap<usize, usize>>(), &v, &[Op::Pop, Op::Push(3, 3)]));
    }
    p.finish();
}
