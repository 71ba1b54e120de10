// C10: the LCFRS of an MCFG.
use pk::*;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use std::collections::BTreeSet;

type R = PMCFGRule<u8, char, u32>;
type Comp = Vec<Vec<VarT<char>>>;
type Pair = (u8, BTreeSet<usize>);
type Out = (Pair, Vec<Pair>, Comp, u32);
fn fan(rs: &[R], n: u8) -> Option<usize> {
    rs.iter().find(|r| r.head == n).map(|r| r.composition.composition.len())
}
fn one(rs: &[R], r: &R, del: &BTreeSet<usize>) -> Option<Out> {
    let fans: Option<Vec<usize>> = r.tail.iter().map(|n| fan(rs, *n)).collect();
    let fans = fans?;
    let kept: Comp = (0..r.composition.composition.len()).filter(|i| !del.contains(i)).map(|i| r.composition.composition[i].clone()).collect();
    let mut tail: Vec<Pair> = Vec::new();
    for (i, n) in r.tail.iter().enumerate() {
        let unused = (0..fans[i]).filter(|j| !kept.iter().any(|c| c.contains(&VarT::Var(i, *j)))).collect();
        tail.push((*n, unused));
    }
    let comp = kept
        .iter()
        .map(|c| {
            c.iter()
                .map(|s| match s {
                    VarT::Var(i, j) => VarT::Var(*i, *j - tail[*i].1.iter().filter(|k| *k < j).count()),
                    t => t.clone(),
                })
                .collect()
        })
        .collect();
    Some(((r.head, del.clone()), tail, comp, r.weight))
}
fn convert(rs: &[R], init: u8) -> Vec<Out> {
    let mut seen: Vec<Pair> = vec![(init, BTreeSet::new())];
    let mut out = Vec::new();
    let mut k = 0;
    while k < seen.len() {
        let (n, del) = seen[k].clone();
        for r in rs.iter().filter(|r| r.head == n) {
            if let Some(o) = one(rs, r, &del) {
                for p in &o.1 {
                    if !seen.contains(p) {
                        seen.push(p.clone());
                    }
                }
                out.push(o);
            }
        }
        k += 1;
    }
    out
}
fn key(o: &Out) -> String {
    format!("{:?}", o)
}
fn run(rs: &Vec<R>, init: u8) -> Result<(), String> {
    let (got, i) = Lcfrs::from(Mcfg::new(rs.clone(), init)).destruct();
    same("initial nonterminal", i, (init, BTreeSet::new()))?;
    let mut got: Vec<String> = got.into_iter().map(|r| key(&(r.head, r.tail, r.composition.composition, r.weight))).collect();
    let mut want: Vec<String> = convert(rs, init).iter().map(key).collect();
    got.sort();
    want.sort();
    same("rules", got, want)
}
fn main() {
    let mut p = Probe::new("random rule lists over 4 nonterminals of fanout 0..4, variables dropped, repeated or none of them missing, sometimes a nonterminal without rules; the converted rules are compared as a multiset with a direct construction; non-trivial: at least two rules and a variable");
    for _ in 0..p.rounds(20000, 30) {
        let fans: Vec<usize> = (0..4).map(|_| *p.rng.pick(&[1usize, 1, 2, 2, 3, 3, 4, 0])).collect();
        let n = p.rng.below(7);
        let mut heads: Vec<u8> = (0..n).map(|_| p.rng.below(4) as u8).collect();
        if p.rng.chance(3, 4) {
            heads.extend(vec![0, 1, 2, 3]);
        }
        p.rng.shuffle(&mut heads);
        let mut rs: Vec<R> = Vec::new();
        for h in heads {
            let k = fans[h as usize];
            let tail: Vec<u8> = (0..p.rng.below(4)).map(|_| p.rng.below(4) as u8).collect();
            let mut c: Comp = vec![Vec::new(); k];
            let mut vs: Vec<VarT<char>> = Vec::new();
            let keep = 1 + p.rng.below(3);
            for (i, t) in tail.iter().enumerate() {
                for j in 0..fans[*t as usize] {
                    if p.rng.chance(keep, 3) {
                        vs.push(VarT::Var(i, j));
                    }
                    if p.rng.chance(1, 12) {
                        vs.push(VarT::Var(i, j));
                    }
                }
            }
            for _ in 0..p.rng.below(3) {
                vs.push(VarT::T('b'));
            }
            p.rng.shuffle(&mut vs);
            if k > 0 {
                for v in vs {
                    let i = p.rng.below(k);
                    c[i].push(v);
                }
            }
            rs.push(PMCFGRule { head: h, tail, composition: Composition::from(c), weight: p.rng.below(100) as u32 });
        }
        let hard = rs.len() > 1 && rs.iter().any(|r| r.composition.composition.iter().flatten().any(|s| s.is_var()));
        let init = p.rng.below(4) as u8;
        p.case(format!("Lcfrs::from, initial {}, rules {:?}", init, rs), hard, || run(&rs, init));
    }
    p.finish();
}
