// C07: which PMCFGs are MCFGs, and whether conversions keep the grammar.
use pk::*;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};

type R = PMCFGRule<u8, char, u32>;
type Plain = (u8, Vec<u8>, Vec<Vec<VarT<char>>>, u32);
fn plain(r: &R) -> Plain {
    (r.head, r.tail.clone(), r.composition.composition.clone(), r.weight)
}
fn copies(r: &R) -> bool {
    let mut seen = Vec::new();
    for c in &r.composition.composition {
        for s in c {
            if let VarT::Var(i, j) = s {
                if seen.contains(&(*i, *j)) {
                    return true;
                }
                seen.push((*i, *j));
            }
        }
    }
    false
}
fn run(rules: &Vec<R>, initial: &Vec<u8>) -> Result<(), String> {
    let want: Vec<Plain> = rules.iter().map(plain).collect();
    let list = |v: &Vec<R>| v.iter().map(plain).collect::<Vec<_>>();
    let ok = initial.len() == 1 && !rules.iter().any(copies);
    let got = Mcfg::from_pmcfg(PMCFG { initial: initial.clone(), rules: rules.clone() });
    same("converted", got.is_some(), ok)?;
    if let Some(m) = got {
        let (r, i) = m.clone().destruct();
        same("rules", list(&r), want.clone())?;
        same("initial", i, initial[0])?;
        let p: PMCFG<u8, char, u32> = m.into();
        same("rules, and back", list(&p.rules), want.clone())?;
        same("initial, and back", p.initial, initial.clone())?;
    }
    if let Some(n) = initial.first() {
        let (r, i) = Mcfg::new(rules.clone(), *n).destruct();
        same("rules of a new MCFG", list(&r), want.clone())?;
        same("initial of a new MCFG", i, *n)?;
        let p: PMCFG<u8, char, u32> = Mcfg::new(rules.clone(), *n).into();
        same("rules as PMCFG", list(&p.rules), want.clone())?;
        same("initial as PMCFG", p.initial, vec![*n])?;
        if let Some(l) = Lcfrs::new(rules.clone(), *n) {
            let m: Mcfg<u8, char, u32> = l.into();
            let (r, i) = m.destruct();
            same("rules of the LCFRS", list(&r), want.clone())?;
            same("initial of the LCFRS", i, *n)?;
        }
    }
    Ok(())
}
fn main() {
    let mut p = Probe::new("random rule lists over 3 nonterminals, each variable copied with some chance (within a component, across components, far out of range), 0 to 2 initial nonterminals, some admissible as LCFRS; non-trivial: two rules and a variable");
    for _ in 0..p.rounds(20000, 30) {
        let r = &mut p.rng;
        let dup = r.chance(1, 3);
        let fan = if r.chance(1, 3) { vec![1usize, 1, 1] } else { vec![1, 2, 1 + r.below(2)] };
        let mut vars = 0;
        let rules: Vec<R> = (0..r.below(4))
            .map(|k| {
                let head = if k < 3 && r.chance(2, 3) { k as u8 } else { r.below(3) as u8 };
                let tail: Vec<u8> = (0..r.below(3)).map(|_| r.below(3) as u8).collect();
                let n = fan[head as usize];
                let mut cs: Vec<Vec<VarT<char>>> = (0..n).map(|_| (0..r.below(2)).map(|_| VarT::T(*r.pick(&['a', 'b']))).collect()).collect();
                let mut vs: Vec<(usize, usize)> = Vec::new();
                for (i, t) in tail.iter().enumerate() {
                    for j in 0..fan[*t as usize] {
                        vs.push((i, j));
                    }
                }
                if r.chance(1, 10) {
                    vs.push((usize::MAX, 1 + r.below(2)));
                }
                if dup && !vs.is_empty() && r.chance(1, 3) {
                    let v = *r.pick(&vs);
                    vs.push(v);
                }
                r.shuffle(&mut vs);
                for (i, j) in vs {
                    let c = r.below(n);
                    let at = r.below(cs[c].len() + 1);
                    cs[c].insert(at, VarT::Var(i, j));
                    vars += 1;
                }
                PMCFGRule { head, tail, composition: Composition { composition: cs }, weight: r.below(100) as u32 }
            })
            .collect();
        let initial: Vec<u8> = if r.chance(3, 4) { vec![r.below(3) as u8] } else { (0..r.below(3)).map(|_| r.below(3) as u8).collect() };
        p.case(format!("rules {:?} initial {:?}", rules, initial), rules.len() > 1 && vars > 0, || run(&rules, &initial));
    }
    p.finish();
}
