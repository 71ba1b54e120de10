// C06: which rule lists are LCFRSs, and which are in normal form.
use pk::*;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};

type R = PMCFGRule<u8, char, u32>;
type Plain = (u8, Vec<u8>, Vec<Vec<VarT<char>>>, u32);
fn plain(r: &R) -> Plain {
    (r.head, r.tail.clone(), r.composition.composition.clone(), r.weight)
}
fn fan(rs: &[Plain], n: u8) -> Option<usize> {
    rs.iter().find(|r| r.0 == n).map(|r| r.2.len())
}
fn valid(rs: &[Plain], init: u8) -> bool {
    for r in rs {
        if fan(rs, r.0) != Some(r.2.len()) {
            return false;
        }
        let mut left: Vec<(usize, usize)> = Vec::new();
        for (i, n) in r.1.iter().enumerate() {
            match fan(rs, *n) {
                None => return false,
                Some(k) => left.extend((0..k).map(|j| (i, j))),
            }
        }
        for c in &r.2 {
            for s in c {
                if let VarT::Var(i, j) = s {
                    match left.iter().position(|p| *p == (*i, *j)) {
                        None => return false,
                        Some(p) => {
                            left.remove(p);
                        }
                    }
                }
            }
        }
        if !left.is_empty() {
            return false;
        }
    }
    fan(rs, init) == Some(1)
}
fn normal(rs: &[Plain]) -> bool {
    for r in rs {
        let mut terminals = 0;
        let mut all = 0;
        for c in &r.2 {
            if c.is_empty() {
                return false;
            }
            for s in c {
                all += 1;
                if let VarT::T(_) = s {
                    terminals += 1;
                }
            }
        }
        if terminals > 0 && !(terminals == 1 && all == 1) {
            return false;
        }
    }
    true
}
fn run(rs: &Vec<R>, init: u8) -> Result<(), String> {
    let want: Vec<Plain> = rs.iter().map(plain).collect();
    let ok = valid(&want, init);
    let g = Lcfrs::new(rs.clone(), init);
    same("accepted", g.is_some(), ok)?;
    if let Some(g) = g {
        same("normal form", g.in_normal_form(), normal(&want))?;
        let (r, i) = g.destruct();
        same("rules", r.iter().map(plain).collect::<Vec<_>>(), want)?;
        same("initial nonterminal", i, init)?;
    }
    Ok(())
}
fn main() {
    let mut p = Probe::new("random rule lists over 4 nonterminals of fanout 0..3, linear compositions, then damaged (variable dropped, repeated, out of range up to the largest number, other fanout, nonterminal without rules); non-trivial: at least two rules and a variable");
    for _ in 0..p.rounds(20000, 30) {
        let mut fans: Vec<usize> = (0..4).map(|_| *p.rng.pick(&[1usize, 1, 2, 2, 3, 0])).collect();
        fans[0] = if p.rng.chance(1, 12) { p.rng.below(4) } else { 1 };
        let n = p.rng.below(7);
        let nf = p.rng.chance(1, 2);
        let mut rs: Vec<R> = Vec::new();
        let mut heads: Vec<u8> = (0..n).map(|_| p.rng.below(4) as u8).collect();
        if p.rng.chance(3, 4) {
            heads.extend(vec![0, 1, 2, 3]);
        }
        p.rng.shuffle(&mut heads);
        for h in heads {
            let k = fans[h as usize];
            let mut tail: Vec<u8> = (0..p.rng.below(4)).map(|_| p.rng.below(4) as u8).collect();
            let leaf = k == 1 && nf && p.rng.chance(1, 2);
            if leaf {
                tail.clear();
            }
            let mut c: Vec<Vec<VarT<char>>> = vec![Vec::new(); k];
            if leaf {
                c[0].push(VarT::T('a'));
            }
            let mut vs: Vec<VarT<char>> = Vec::new();
            for (i, t) in tail.iter().enumerate() {
                for j in 0..fans[*t as usize] {
                    vs.push(VarT::Var(i, j));
                }
            }
            if !nf {
                for _ in 0..p.rng.below(3) {
                    vs.push(VarT::T('b'));
                }
            }
            p.rng.shuffle(&mut vs);
            if k == 0 {
                if vs.iter().any(|v| v.is_var()) {
                    tail.retain(|t| fans[*t as usize] == 0);
                }
            } else {
                for v in vs {
                    let i = p.rng.below(k);
                    c[i].push(v);
                }
            }
            rs.push(PMCFGRule { head: h, tail, composition: Composition::from(c), weight: p.rng.below(100) as u32 });
        }
        if p.rng.chance(1, 2) && !rs.is_empty() {
            let k = p.rng.below(rs.len());
            let kind = p.rng.below(8);
            let (big, a) = (*p.rng.pick(&[usize::max_value(), usize::max_value() - 1, 1 << 40, 7, 3]), p.rng.below(3));
            let places: Vec<(usize, usize)> = rs[k].composition.composition.iter().enumerate().flat_map(|(i, c)| (0..c.len()).map(move |j| (i, j))).collect();
            let at = if places.is_empty() { None } else { Some(*p.rng.pick(&places)) };
            let r = &mut rs[k];
            match (kind, at) {
                (0, Some((i, j))) => {
                    r.composition.composition[i].remove(j);
                }
                (1, Some((i, j))) => {
                    let v = r.composition.composition[i][j].clone();
                    r.composition.composition[i].push(v);
                }
                (2, Some((i, j))) => r.composition.composition[i][j] = VarT::Var(big, a),
                (3, Some((i, j))) => r.composition.composition[i][j] = VarT::Var(a, big),
                (4, _) => r.tail.push(9),
                (5, _) => r.tail.push(a as u8),
                (6, _) => r.composition.composition.push(vec![]),
                (7, Some((i, _))) => {
                    let c = r.composition.composition[i].clone();
                    let m = r.composition.composition.len();
                    r.composition.composition[(i + 1) % m] = c;
                }
                _ => {}
            }
        }
        let init = if p.rng.chance(1, 8) { p.rng.below(6) as u8 } else { 0 };
        let vars = rs.iter().any(|r| r.composition.iter().any(|c| c.iter().any(|s| s.is_var())));
        p.case(format!("rules {:?} initial {}", rs, init), rs.len() > 1 && vars, || run(&rs, init));
    }
    p.finish();
}
