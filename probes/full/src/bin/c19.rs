// C19: rule files of discodop and rparse against what they spell out.
use pk::*;
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
use rustomata::grammars::lcfrs::from_rparse::RparseClauses;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;

// head, successors, bits of each component, weight
type Line = (String, Vec<String>, Vec<Vec<bool>>, (u64, u64));

fn name(r: &mut Rng) -> String {
    r.pick(&["ROOT", "A", "NP_1", "VP^<S>|*", "$,", "PIAT|<0,1>", "10", "Ä"]).to_string()
}
fn meaning(y: &Vec<Vec<bool>>) -> Vec<Vec<VarT<String>>> {
    let mut n = [0, 0];
    y.iter()
        .map(|c| {
            c.iter()
                .map(|b| {
                    let i = *b as usize;
                    n[i] += 1;
                    VarT::Var(i, n[i] - 1)
                })
                .collect()
        })
        .collect()
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs()
}
fn value(w: (u64, u64)) -> f64 {
    w.0 as f64 / w.1 as f64
}
type Shown<T> = (String, Vec<String>, Vec<Vec<VarT<T>>>);
fn compare<T: Clone + PartialEq + std::fmt::Debug>(g: Lcfrs<String, T, f64>, init: &str, want: Vec<(Shown<T>, f64)>, ordered: usize) -> Result<(), String> {
    let (rules, i) = g.destruct();
    same("initial nonterminal", i, init.to_string())?;
    let got: Vec<(Shown<T>, f64)> = rules.into_iter().map(|r| ((r.head, r.tail, r.composition.composition), r.weight)).collect();
    same("number of rules", got.len(), want.len())?;
    let (mut got, mut want) = (got, want);
    got[ordered..].sort_by_key(|r| format!("{:?}", r.0));
    want[ordered..].sort_by_key(|r| format!("{:?}", r.0));
    for (k, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        same(&format!("rule {}", k), &g.0, &w.0)?;
        if !close(g.1, w.1) {
            return Err(format!("weight of rule {} ({:?}): got {}, expected {}", k, g.0, g.1, w.1));
        }
    }
    Ok(())
}
fn weight_text(w: (u64, u64), fraction: bool) -> String {
    if fraction || w.1 != 1 {
        format!("{}/{}", w.0, w.1)
    } else {
        format!("{}", w.0)
    }
}
fn bits_text(y: &Vec<Vec<bool>>) -> String {
    y.iter().map(|c| c.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()).collect::<Vec<_>>().join(",")
}
fn disco_text(lines: &Vec<Line>) -> String {
    lines.iter().map(|(h, t, y, w)| format!("{}\t{}\t{}\t{}", h, t.join("\t"), bits_text(y), weight_text(*w, false))).collect::<Vec<_>>().join("\n")
}
fn lexer_text(lex: &Vec<(String, Vec<(String, (u64, u64))>)>) -> String {
    lex.iter().map(|(w, ps)| format!("{}\t{}", w, ps.iter().map(|(p, c)| format!("{}\t{}", p, weight_text(*c, false))).collect::<Vec<_>>().join("\t"))).collect::<Vec<_>>().join("\n")
}
fn shares(counts: &Vec<(String, f64)>, n: &String, w: f64) -> f64 {
    w / counts.iter().filter(|c| c.0 == *n).map(|c| c.1).sum::<f64>()
}
fn disco(lines: &Vec<Line>, lex: &Option<Vec<(String, Vec<(String, (u64, u64))>)>>, newline: bool) -> Result<(), String> {
    let mut text = disco_text(lines);
    if newline && !lines.is_empty() {
        text.push('\n');
    }
    let g: DiscoDopGrammar<String, (), f64> = text.parse().map_err(|e| format!("refused: {:?}", e))?;
    let mut entries: Vec<(String, String, f64)> = Vec::new();
    match lex {
        Some(l) => {
            for (w, ps) in l {
                for (p, c) in ps {
                    entries.push((w.clone(), p.clone(), value(*c)));
                }
            }
        }
        None => {
            for (_, t, _, _) in lines {
                for n in t {
                    if !lines.iter().any(|l| l.0 == *n) && !entries.iter().any(|e| e.0 == *n) {
                        entries.push((n.clone(), n.clone(), 1.0));
                    }
                }
            }
        }
    }
    let mut counts: Vec<(String, f64)> = lines.iter().map(|l| (l.0.clone(), value(l.3))).collect();
    counts.extend(entries.iter().map(|e| (e.1.clone(), e.2)));
    let mut want: Vec<(Shown<String>, f64)> = lines.iter().map(|(h, t, y, w)| ((h.clone(), t.clone(), meaning(y)), shares(&counts, h, value(*w)))).collect();
    want.extend(entries.iter().map(|(w, p, c)| ((p.clone(), vec![], vec![vec![VarT::T(w.clone())]]), shares(&counts, p, *c))));
    let lcfrs: Lcfrs<String, String, f64> = match lex {
        Some(l) => {
            let lt: DiscoLexer<String, String, f64> = lexer_text(l).parse().map_err(|e| format!("lexer refused: {:?}", e))?;
            g.with_lexer(lt).into()
        }
        None => g.with_default_lexer().into(),
    };
    compare(lcfrs, "ROOT", want, if lex.is_some() { lines.len() + entries.len() } else { lines.len() })
}
// a component with too many variables, or a line that is not a rule
fn refused(lines: &Vec<Line>, at: usize, bad: &str) -> Result<(), String> {
    let text = disco_text(lines);
    let mut ls: Vec<&str> = if lines.is_empty() { vec![] } else { text.split('\n').collect() };
    ls.insert(at, bad);
    match ls.join("\n").parse::<DiscoDopGrammar<String, (), f64>>() {
        Err(_) => Ok(()),
        Ok(_) => Err("read without an error".into()),
    }
}
fn rparse(lines: &Vec<Line>, spaces: usize) -> Result<(), String> {
    let text = lines
        .iter()
        .map(|(h, t, y, w)| {
            let cs: Vec<String> = y.iter().map(|c| format!("[{}]", c.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "))).collect();
            format!("{} {}:{} --> {}{}[[{}]]", w.1, value(*w), h, t.join(" "), " ".repeat(if t.len() == 1 { spaces } else { 1 }), cs.join(", "))
        })
        .collect::<Vec<_>>()
        .join("\n");
    let c: RparseClauses<String, f64> = text.parse().map_err(|_| "refused".to_string())?;
    let g: Lcfrs<String, (), f64> = c.into();
    let want = lines
        .iter()
        .map(|(h, t, y, w)| {
            let comp = meaning(y).into_iter().map(|c| c.into_iter().map(|v| match v { VarT::Var(i, j) => VarT::Var(i, j), VarT::T(_) => VarT::T(()) }).collect()).collect();
            ((h.clone(), t.clone(), comp), value(*w))
        })
        .collect();
    compare(g, "VROOT1", want, lines.len())
}
fn lines(r: &mut Rng, rparse: bool) -> Vec<Line> {
    let n = r.below(6) + rparse as usize;
    let mut v: Vec<Line> = Vec::new();
    for _ in 0..n {
        let k = 1 + r.below(2);
        let t: Vec<String> = (0..k).map(|_| name(r)).collect();
        let y: Vec<Vec<bool>> = (0..1 + r.below(4))
            .map(|_| {
                let l = if r.chance(1, 8) { *r.pick(&[31, 32, 33, 63, 64]) } else { 1 + r.below(5) };
                (0..l).map(|_| k == 2 && r.chance(1, 2)).collect()
            })
            .collect();
        let w = (1 + r.below(40) as u64, if r.chance(1, 3) { 1 + r.below(9) as u64 } else { 1 });
        v.push((name(r), t, y, w));
        if r.chance(1, 6) {
            let mut d = v[r.below(v.len())].clone();
            if r.chance(1, 2) {
                d.3 = (1 + r.below(40) as u64, 1);
            }
            v.push(d);
        }
    }
    v
}
fn main() {
    let mut p = Probe::new("random rule files: up to 12 rules over 8 names, up to 4 components of up to 64 variables, repeated rules, integer and fractional counts, lexers with up to 4 words; files with one overlong or malformed line; non-trivial: at least two rules, one of them binary");
    for k in 0..p.rounds(6000, 30) {
        let r = &mut p.rng;
        let kind = k % 4;
        let ls = lines(r, kind == 3);
        let nontrivial = ls.len() > 1 && ls.iter().any(|l| l.1.len() == 2);
        match kind {
            0 | 1 => {
                let lex = if kind == 0 {
                    None
                } else {
                    Some((0..r.below(4)).map(|i| (format!("w{}", i % 3), (0..1 + r.below(3)).map(|_| (name(r), (1 + r.below(9) as u64, 1 + r.below(3) as u64))).collect())).collect())
                };
                let nl = r.chance(1, 4);
                p.case(format!("discodop {:?} lexer {:?}", disco_text(&ls), lex), nontrivial, || disco(&ls, &lex, nl));
            }
            2 => {
                let at = r.below(ls.len() + 1);
                let bad = if r.chance(2, 3) {
                    let l = *r.pick(&[65, 66, 128, 255, 256, 257, 300]);
                    let ones = r.chance(1, 2);
                    let c: String = (0..l).map(|_| if ones && r.chance(1, 2) { '1' } else { '0' }).collect();
                    format!("A\tB\tC\t{}\t1", c)
                } else {
                    r.pick(&["A\tB", "A\tB\tC\t012\t", "A\tB\t01\tx", "A\t2\t1/2"]).to_string()
                };
                p.case(format!("discodop {:?} with line {} {:?}", disco_text(&ls), at, bad), nontrivial, || refused(&ls, at, &bad));
            }
            _ => {
                let s = 1 + r.below(2);
                p.case(format!("rparse {:?}", ls), nontrivial, || rparse(&ls, s));
            }
        }
    }
    p.finish();
}
