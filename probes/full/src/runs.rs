// Automata with costs as weights, and an exhaustive enumeration of their runs.
#![allow(dead_code)]
use num_traits::{One, Zero};
use pk::*;
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::{Item, Transition};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign};
use std::str::FromStr;

/// costs: the less, the better
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cost(pub u64);
impl PartialOrd for Cost {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cost {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Mul for Cost {
    type Output = Cost;
    fn mul(self, o: Cost) -> Cost {
        Cost(self.0.saturating_add(o.0))
    }
}
impl MulAssign for Cost {
    fn mul_assign(&mut self, o: Cost) {
        *self = *self * o
    }
}
impl One for Cost {
    fn one() -> Cost {
        Cost(0)
    }
}
impl Add for Cost {
    type Output = Cost;
    fn add(self, o: Cost) -> Cost {
        Cost(self.0.min(o.0))
    }
}
impl AddAssign for Cost {
    fn add_assign(&mut self, o: Cost) {
        *self = *self + o
    }
}
impl Zero for Cost {
    fn zero() -> Cost {
        Cost(u64::max_value())
    }
    fn is_zero(&self) -> bool {
        self.0 == u64::max_value()
    }
}
impl Div for Cost {
    type Output = Cost;
    fn div(self, o: Cost) -> Cost {
        Cost(self.0.saturating_sub(o.0))
    }
}
impl FromStr for Cost {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Cost, Self::Err> {
        s.parse().map(Cost)
    }
}
pub type Tr<I> = Transition<I, char, Cost>;
/// an accepting run: its transitions by number, the last storage and the cost
pub type Run<S> = (Vec<usize>, S, u64);

/// all accepting runs of an automaton whose instructions do what `step` says, if there are few beginnings of runs
pub fn all_runs<I, S: Clone>(ts: &[Tr<I>], init: S, w: &[char], step: &dyn Fn(&I, &S) -> Vec<S>, done: &dyn Fn(&S) -> bool) -> Option<Vec<Run<S>>> {
    let mut found = Vec::new();
    let mut todo = vec![(Vec::new(), init, 0u64, 0usize)];
    let mut steps = 0;
    while let Some((run, s, c, i)) = todo.pop() {
        steps += 1;
        if steps > 2000 {
            return None;
        }
        if i == w.len() && done(&s) {
            found.push((run.clone(), s.clone(), c));
        }
        for (k, t) in ts.iter().enumerate() {
            let n = t.word.len();
            if i + n <= w.len() && w[i..i + n] == t.word[..] {
                for s1 in step(&t.instruction, &s) {
                    let mut r = run.clone();
                    r.push(k);
                    todo.push((r, s1, c + t.weight.0, i + n));
                }
            }
        }
    }
    Some(found)
}
/// the items as runs
pub fn read<I: Clone + PartialEq + Debug, S0, S>(items: Vec<Item<S0, I, char, Cost>>, ts: &[Tr<I>], show: &dyn Fn(&S0) -> S) -> Result<Vec<Run<S>>, String> {
    items
        .into_iter()
        .map(|Item(c, run)| {
            let run = run
                .to_vec()
                .into_iter()
                .map(|t| ts.iter().position(|u| u.word == t.word && u.instruction == t.instruction && u.weight == t.weight).ok_or(format!("not a transition: {:?}", t)))
                .collect::<Result<Vec<_>, _>>()?;
            same("word left", c.word, vec![])?;
            Ok((run, show(&c.storage), c.weight.0))
        })
        .collect()
}
pub fn compare<S: Ord + Clone + Debug>(what: &str, got: Vec<Run<S>>, want: &Vec<Run<S>>, all: bool) -> Result<(), String> {
    for p in got.windows(2) {
        if p[0].2 > p[1].2 {
            return Err(format!("{}: cost {} before {}", what, p[0].2, p[1].2));
        }
    }
    let (mut g, mut w) = (got, want.clone());
    g.sort();
    w.sort();
    if all {
        same(what, g, w)
    } else {
        let mut w = w.into_iter();
        for x in g {
            if !w.any(|y| y == x) {
                return Err(format!("{}: {:?} is not an accepting run or reported too often", what, x));
            }
        }
        Ok(())
    }
}

// ---- pushdown automata ----
pub type PdI = PushDownInstruction<u8>;
pub fn replace(i: &PdI, s: &Vec<u8>) -> Vec<Vec<u8>> {
    let PushDownInstruction::Replace { current_val, new_val } = i;
    let n = current_val.len();
    if n <= s.len() && s.iter().rev().take(n).eq(current_val.iter()) {
        let mut r = s[..s.len() - n].to_vec();
        r.extend(new_val);
        vec![r]
    } else {
        vec![]
    }
}
pub fn elements(s: &PushDown<u8>) -> Vec<u8> {
    s.iter().cloned().collect()
}
// ---- tree-stack automata ----
pub type TsI = TreeStackInstruction<u8>;
pub type Tree = (BTreeMap<Vec<usize>, u8>, Vec<usize>);
pub fn walk(i: &TsI, (g, p): &Tree) -> Vec<Tree> {
    let mut q = p.clone();
    let (cur, old, new) = match i {
        TreeStackInstruction::Up { n, current_val, old_val, new_val } => {
            q.push(*n);
            (current_val, Some(old_val), new_val)
        }
        TreeStackInstruction::Push { n, current_val, new_val } => {
            q.push(*n);
            (current_val, None, new_val)
        }
        TreeStackInstruction::Down { current_val, old_val, new_val } => {
            if q.pop().is_none() {
                return vec![];
            }
            (current_val, Some(old_val), new_val)
        }
    };
    if g[p] != *cur || g.get(&q) != old {
        return vec![];
    }
    let mut h = g.clone();
    h.insert(q.clone(), *new);
    vec![(h, q)]
}
pub fn tree(t: &TreeStack<u8>) -> Tree {
    let (g, p) = t.to_tree();
    (g.into_iter().collect(), p)
}
pub fn word(r: &mut Rng, k: usize, n: usize) -> Vec<char> {
    (0..n).map(|_| ['a', 'b', 'c'][r.below(k)]).collect()
}
/// no two transitions alike, not even up to their weights
pub fn distinct<I: PartialEq>(ts: Vec<Tr<I>>) -> Vec<Tr<I>> {
    ts.into_iter().fold(vec![], |mut v: Vec<Tr<I>>, t| {
        if !v.iter().any(|u| u.word == t.word && u.instruction == t.instruction) {
            v.push(t);
        }
        v
    })
}
/// no two transitions the same; some that differ in their weights only
pub fn different<I: PartialEq + Clone>(r: &mut Rng, mut ts: Vec<Tr<I>>) -> Vec<Tr<I>> {
    if r.chance(1, 3) && !ts.is_empty() {
        let mut t = ts[r.below(ts.len())].clone();
        t.weight = Cost(r.below(5) as u64);
        let i = r.below(ts.len() + 1);
        ts.insert(i, t);
    }
    ts.into_iter().fold(vec![], |mut v: Vec<Tr<I>>, t| {
        if !v.iter().any(|u| u.word == t.word && u.instruction == t.instruction && u.weight == t.weight) {
            v.push(t);
        }
        v
    })
}
/// up to `n` transitions of a tree-stack automaton
pub fn walks(r: &mut Rng, ab: usize, n: usize) -> Vec<Tr<TsI>> {
    let ts = (0..n)
        .map(|_| {
            let s = |r: &mut Rng| r.below(3) as u8;
            let (a, b, c, m) = (s(r), s(r), s(r), r.below(2));
            let instruction = match r.below(5) {
                0 => TreeStackInstruction::Up { n: m, current_val: a, old_val: b, new_val: c },
                1 | 2 => TreeStackInstruction::Push { n: m, current_val: a, new_val: c },
                _ => TreeStackInstruction::Down { current_val: a, old_val: b, new_val: c },
            };
            let l = if r.chance(1, 5) { 2 } else { 1 };
            Transition { word: word(r, ab, l), weight: Cost(r.below(5) as u64), instruction }
        })
        .collect();
    different(r, ts)
}
/// up to `n` transitions of a tree-stack automaton that leave the root reading `a`, or try to, and up to 3 that return reading `b`
pub fn trips(r: &mut Rng, n: usize) -> Vec<Tr<TsI>> {
    let mut ts: Vec<Tr<TsI>> = (0..n)
        .map(|_| {
            let (c, m) = (1 + r.below(3) as u8, r.below(3));
            let instruction = if r.chance(1, 3) { TreeStackInstruction::Up { n: m, current_val: 0, old_val: 1 + r.below(3) as u8, new_val: c } } else { TreeStackInstruction::Push { n: m, current_val: 0, new_val: c } };
            Transition { word: vec!['a'], weight: Cost(r.below(7) as u64), instruction }
        })
        .collect();
    for c in 1..4 {
        if r.chance(5, 6) {
            ts.push(Transition { word: vec!['b'], weight: Cost(r.below(2) as u64), instruction: TreeStackInstruction::Down { current_val: c, old_val: 0, new_val: 0 } });
        }
    }
    different(r, ts)
}
pub fn back_and_forth(r: &mut Rng) -> Vec<char> {
    if r.chance(2, 3) { vec!['a', 'b'] } else { vec!['a', 'b', 'a', 'b'] }
}
