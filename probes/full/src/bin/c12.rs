// C12: the persistent pushdown against a list, bottom element first.
use pk::*;
use rustomata::util::push_down::Pushdown;

#[derive(Clone, Debug)]
enum Op {
    Push(u8),
    Pop,
    Set(u8),
    Peek,
    Round,
    Fresh(Vec<u8>),
    Keep,
    Back(usize),
}
fn look(p: &Pushdown<u8>, m: &Vec<u8>) -> Result<(), String> {
    same("to_vec", p.to_vec(), m.clone())?;
    same("iter", p.iter().collect::<Vec<_>>(), m.clone())?;
    let v: Vec<u8> = p.clone().into();
    same("into", v, m.clone())?;
    same("is_empty", p.is_empty(), m.is_empty())?;
    same("peek", p.peek(), m.last().cloned())?;
    same("peek_ref", p.peek_ref().cloned(), m.last().cloned())?;
    let mut calls = 0;
    let q = p.map(&mut |x| {
        calls += 1;
        *x as u32 * 3 + 1
    });
    same("map", q.to_vec(), m.iter().map(|x| *x as u32 * 3 + 1).collect::<Vec<_>>())?;
    same("calls of map", calls, m.len())
}
fn run(ops: &[Op]) -> Result<(), String> {
    let mut p: Pushdown<u8> = Pushdown::new();
    let mut m: Vec<u8> = Vec::new();
    same("default", Pushdown::<u8>::default().to_vec(), vec![])?;
    let mut kept: Vec<(Pushdown<u8>, Vec<u8>)> = vec![(p.clone(), m.clone())];
    for op in ops {
        match op {
            Op::Push(a) => {
                p = p.push(*a);
                m.push(*a);
            }
            Op::Pop => match (p.pop(), m.pop()) {
                (Ok((q, a)), Some(b)) => {
                    same("popped", a, b)?;
                    p = q;
                }
                (Err(q), None) => p = q,
                (r, n) => return Err(format!("pop: {:?} instead of {:?}", r, n)),
            },
            Op::Set(a) => match (p.set(*a), m.is_empty()) {
                (Ok(q), false) => {
                    *m.last_mut().unwrap() = *a;
                    p = q;
                }
                (Err(q), true) => p = q,
                (r, _) => return Err(format!("set: {:?} on {:?}", r, m)),
            },
            Op::Peek => {}
            Op::Round => p = Pushdown::from(p.to_vec().as_slice()),
            Op::Fresh(v) => {
                p = Pushdown::from(v.as_slice());
                m = v.clone();
            }
            Op::Keep => kept.push((p.clone(), m.clone())),
            Op::Back(k) => {
                let (q, n) = kept[k % kept.len()].clone();
                p = q;
                m = n;
            }
        }
        look(&p, &m)?;
        for (q, n) in &kept {
            same("unchanged", q.to_vec(), n.clone())?;
            same("equal", p == *q, m == *n)?;
            same("equal (turned)", *q == p, m == *n)?;
        }
    }
    Ok(())
}
/// a value that is not equal to itself (such a list is not equal to itself either)
#[derive(Clone, Debug)]
struct Never;
impl PartialEq for Never {
    fn eq(&self, _: &Never) -> bool {
        false
    }
}
fn main() {
    let mut p = Probe::new("histories of up to 30 operations on one pushdown with earlier versions kept and revisited, values 0..4; non-trivial: a kept version and a push after it");
    p.case("long pushdown".into(), true, || {
        let v: Vec<u8> = (0..250u8).collect();
        look(&Pushdown::from(v.as_slice()), &v)
    });
    p.case("unequal values".into(), true, || same("equal", Pushdown::new().push(Never) == Pushdown::new().push(Never), false));
    for _ in 0..p.rounds(6000, 30) {
        let r = &mut p.rng;
        let n = 1 + r.below(30);
        let ops: Vec<Op> = (0..n)
            .map(|_| match r.below(12) {
                0..=4 => Op::Push(r.below(4) as u8),
                5 | 6 => Op::Pop,
                7 => Op::Set(r.below(4) as u8),
                8 => Op::Keep,
                9 => Op::Back(r.below(6)),
                10 => Op::Round,
                _ => {
                    if r.chance(1, 2) {
                        Op::Fresh((0..r.below(7)).map(|_| r.below(4) as u8).collect())
                    } else {
                        Op::Peek
                    }
                }
            })
            .collect();
        let non = ops.iter().any(|o| matches!(o, Op::Keep)) && ops.iter().any(|o| matches!(o, Op::Push(_)));
        p.case(format!("{:?}", ops), non, || run(&ops));
    }
    p.finish();
}
