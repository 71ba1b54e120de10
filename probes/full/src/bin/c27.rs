// C27: automata made of grammars against an enumeration of the derivations.
#[path = "../runs.rs"]
mod runs;
use num_traits::{One, Zero};
use pk::*;
use runs::*;
use rustomata::automata::push_down_automaton::{PushDownAutomaton, PushDownInstruction, PushState};
use rustomata::automata::tree_stack_automaton::{to_abstract_syntax_tree, PosState, TreeStackAutomaton};
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use rustomata::recognisable::{Item, Recognisable};
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign};
use std::str::FromStr;

// ---- context-free grammars ----
type Letter = LetterT<u8, char>;
type Cf = CFG<u8, char, Cost>;
/// initial nonterminal, expansions, cost
type Derived = (u8, Vec<(u8, Vec<Letter>)>, u64);

/// the rules, those alike made one with the sum of their weights (the least cost)
fn rules_made_one(g: &Cf) -> Vec<(u8, Vec<Letter>, u64)> {
    let mut v: Vec<(u8, Vec<Letter>, u64)> = vec![];
    for r in &g.rules {
        match v.iter_mut().find(|q| q.0 == r.head && q.1 == r.composition.composition) {
            Some(q) => q.2 = q.2.min(r.weight.0),
            None => v.push((r.head, r.composition.composition.clone(), r.weight.0)),
        }
    }
    v
}
fn leftmost(rules: &[(u8, Vec<Letter>, u64)], form: &[Letter], w: &[char], steps: &mut usize) -> Option<Vec<(Vec<(u8, Vec<Letter>)>, u64)>> {
    *steps += 1;
    if *steps > 3000 {
        return None;
    }
    match form.first() {
        None => Some(if w.is_empty() { vec![(vec![], 0)] } else { vec![] }),
        Some(LetterT::Value(x)) => {
            if w.first() == Some(x) {
                leftmost(rules, &form[1..], &w[1..], steps)
            } else {
                Some(vec![])
            }
        }
        Some(LetterT::Label(n)) => {
            let mut all = vec![];
            for r in rules.iter().filter(|r| r.0 == *n) {
                let mut f = r.1.clone();
                f.extend_from_slice(&form[1..]);
                for (mut d, c) in leftmost(rules, &f, w, steps)? {
                    d.insert(0, (r.0, r.1.clone()));
                    all.push((d, c + r.2));
                }
            }
            Some(all)
        }
    }
}
fn context_free(g: &Cf, w: &[char]) -> Result<(), String> {
    let mut inits = g.initial.clone();
    inits.sort();
    inits.dedup();
    let rules = rules_made_one(g);
    let mut want: Vec<Derived> = vec![];
    let mut steps = 0;
    for n in inits {
        match leftmost(&rules, &[LetterT::Label(n)], w, &mut steps) {
            Some(ds) => want.extend(ds.into_iter().map(|(d, c)| (n, d, c))),
            None => return Ok(()),
        }
    }
    let a = PushDownAutomaton::from(g.clone());
    let items: Vec<_> = a.recognise(w.to_vec()).collect();
    let mut got: Vec<Derived> = vec![];
    let mut last = 0;
    for Item(c, run) in items {
        if c.weight.0 < last {
            return Err(format!("cost {} after {}", c.weight.0, last));
        }
        last = c.weight.0;
        let (mut start, mut d) = (None, vec![]);
        for t in run.to_vec() {
            let PushDownInstruction::Replace { current_val, new_val } = t.instruction;
            match current_val.first() {
                Some(PushState::Initial) => match new_val.first() {
                    Some(PushState::Nt(n)) => start = Some(*n),
                    _ => return Err("no initial nonterminal".into()),
                },
                Some(PushState::Nt(n)) => d.push((
                    *n,
                    new_val
                        .iter()
                        .rev()
                        .map(|s| match s {
                            PushState::Nt(m) => Ok(LetterT::Label(*m)),
                            PushState::T(x) => Ok(LetterT::Value(*x)),
                            _ => Err("a special symbol in a right side".to_string()),
                        })
                        .collect::<Result<_, _>>()?,
                )),
                Some(PushState::T(_)) => (),
                s => return Err(format!("{:?} replaced", s)),
            }
        }
        got.push((start.ok_or("a run without beginning")?, d, c.weight.0));
    }
    got.sort();
    want.sort();
    same("derivations", got, want)
}
/// numbers, whose sum is not idempotent (the less, the better, as with costs)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Count(u64);
impl PartialOrd for Count {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Count {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Mul for Count {
    type Output = Count;
    fn mul(self, o: Count) -> Count {
        Count(self.0.saturating_mul(o.0))
    }
}
impl MulAssign for Count {
    fn mul_assign(&mut self, o: Count) {
        *self = *self * o
    }
}
impl One for Count {
    fn one() -> Count {
        Count(1)
    }
}
impl Add for Count {
    type Output = Count;
    fn add(self, o: Count) -> Count {
        Count(self.0.saturating_add(o.0))
    }
}
impl AddAssign for Count {
    fn add_assign(&mut self, o: Count) {
        *self = *self + o
    }
}
impl Zero for Count {
    fn zero() -> Count {
        Count(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl Div for Count {
    type Output = Count;
    fn div(self, o: Count) -> Count {
        Count(self.0 / o.0.max(1))
    }
}
impl FromStr for Count {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Count, Self::Err> {
        s.parse().map(Count)
    }
}
/// rules alike weigh what they weigh together, initial nonterminals as often as they are listed, and reading weighs nothing
fn counted(g: &Cf, w: &[char]) -> Result<(), String> {
    let rules = rules_made_one(g);
    let mut inits = g.initial.clone();
    inits.sort();
    inits.dedup();
    let mut want = vec![];
    let mut steps = 0;
    for n in inits {
        match leftmost(&rules, &[LetterT::Label(n)], w, &mut steps) {
            Some(ds) => {
                for (d, _) in ds {
                    let mut c = Count(g.initial.iter().filter(|m| **m == n).count() as u64);
                    for (m, f) in d {
                        c *= Count(g.rules.iter().filter(|q| q.head == m && q.composition.composition == f).map(|q| q.weight.0 + 1).sum());
                    }
                    want.push(c);
                }
            }
            None => return Ok(()),
        }
    }
    let h = CFG { initial: g.initial.clone(), rules: g.rules.iter().map(|q| CFGRule { head: q.head, composition: q.composition.clone(), weight: Count(q.weight.0 + 1) }).collect() };
    let mut got: Vec<Count> = PushDownAutomaton::from(h).recognise(w.to_vec()).map(|Item(c, _)| c.weight).collect();
    got.sort();
    want.sort();
    same("weights", got, want)
}
fn some_cfg(r: &mut Rng) -> Cf {
    let n = 1 + r.below(3);
    let rules = (0..1 + r.below(7))
        .map(|_| {
            let head = r.below(n);
            let composition = (0..r.below(4))
                .map(|_| if head + 1 < n && r.chance(1, 2) { LetterT::Label((head + 1 + r.below(n - head - 1)) as u8) } else { LetterT::Value(['a', 'b'][r.below(2)]) })
                .collect();
            CFGRule { head: head as u8, composition: CFGComposition { composition }, weight: Cost(r.below(5) as u64) }
        })
        .collect::<Vec<_>>();
    let mut rules = rules;
    if r.chance(1, 4) {
        let mut q = r.pick(&rules).clone();
        q.weight = Cost(r.below(5) as u64);
        rules.push(q);
    }
    CFG { initial: (0..r.below(3)).map(|_| if r.chance(2, 3) { 0 } else { r.below(n) as u8 }).collect(), rules }
}
/// a word derived from an initial nonterminal, choosing rules at random
fn derive(r: &mut Rng, g: &Cf) -> Vec<char> {
    let mut form: Vec<Letter> = g.initial.iter().take(1).map(|n| LetterT::Label(*n)).collect();
    let mut w = vec![];
    for _ in 0..40 {
        if form.is_empty() {
            break;
        }
        match form.remove(0) {
            LetterT::Value(x) => w.push(x),
            LetterT::Label(n) => {
                let rs: Vec<_> = g.rules.iter().filter(|q| q.head == n).collect();
                if rs.is_empty() {
                    break;
                }
                let mut f = r.pick(&rs).composition.composition.clone();
                f.extend(form);
                form = f;
            }
        }
    }
    w
}

// ---- multiple context-free grammars ----
type Mc = PMCFG<u8, char, Cost>;
type Rule = PMCFGRule<u8, char, Cost>;
/// what a nonterminal derives: the tree of rules by number (by address), its components, its cost
type Tree0 = Vec<(Vec<usize>, usize)>;
fn derivations(g: &Mc, n: u8, room: &mut usize) -> Option<Vec<(Tree0, Vec<Vec<char>>, u64)>> {
    let mut all = vec![];
    for (k, q) in g.rules.iter().enumerate().filter(|(_, q)| q.head == n) {
        let mut combos: Vec<(Tree0, Vec<Vec<Vec<char>>>, u64)> = vec![(vec![(vec![], k)], vec![], q.weight.0)];
        for (i, m) in q.tail.iter().enumerate() {
            let subs = derivations(g, *m, room)?;
            let mut next = vec![];
            for (t, cs, c) in &combos {
                for (t1, c1, w1) in &subs {
                    if *room == 0 {
                        return None;
                    }
                    *room -= 1;
                    let mut t = t.clone();
                    t.extend(t1.iter().map(|(a, j)| ([&[i][..], &a[..]].concat(), *j)));
                    let mut cs = cs.clone();
                    cs.push(c1.clone());
                    next.push((t, cs, c + w1));
                }
            }
            combos = next;
        }
        for (t, cs, c) in combos {
            let comps = q
                .composition
                .composition
                .iter()
                .map(|v| {
                    v.iter()
                        .flat_map(|x| match x {
                            VarT::Var(i, j) => cs[*i][*j].clone(),
                            VarT::T(t) => vec![*t],
                        })
                        .collect()
                })
                .collect();
            all.push((t, comps, c));
        }
    }
    Some(all)
}
fn multiple(g: &Mc, pick: usize, other: &[char]) -> Result<(), String> {
    let mut want = vec![];
    let mut room = 3000;
    for n in &g.initial {
        match derivations(g, *n, &mut room) {
            Some(v) => want.extend(v),
            None => return Ok(()),
        }
    }
    let w = if want.is_empty() || pick == 0 { other.to_vec() } else { want[pick % want.len()].1[0].clone() };
    let a = TreeStackAutomaton::from(g.clone());
    let mut got = vec![];
    let mut last = 0;
    let mut before_any_step = 0;
    for Item(c, run) in a.recognise(w.clone()).collect::<Vec<_>>() {
        if c.weight.0 < last {
            return Err(format!("cost {} after {}", c.weight.0, last));
        }
        last = c.weight.0;
        // listed in known-findings.txt: the run without steps accepts the empty word
        if w.is_empty() && run.to_vec().is_empty() && c.weight.0 == 0 && before_any_step == 0 {
            before_any_step += 1;
            continue;
        }
        let mut t: Tree0 = vec![];
        for (addr, rule) in to_abstract_syntax_tree(c.storage.to_tree()) {
            let k = g.rules.iter().position(|q| q.head == rule.head && q.tail == rule.tail && q.composition == rule.composition && q.weight == rule.weight).ok_or(format!("not a rule: {:?}", rule))?;
            t.push((addr, k));
        }
        t.sort();
        got.push((t, c.weight.0));
    }
    let mut want: Vec<(Tree0, u64)> = want
        .into_iter()
        .filter(|(_, c, _)| c[0] == w)
        .map(|(mut t, _, c)| {
            t.sort();
            (t, c)
        })
        .collect();
    got.sort();
    want.sort();
    same(&format!("derivations of {:?}", w), got, want)
}
/// rules that use each component of each successor once, those of a successor in order; nonterminals derive greater ones only
fn some_mcfg(r: &mut Rng) -> Mc {
    let n = 1 + r.below(3);
    let fan: Vec<usize> = (0..n).map(|k| if k == 0 { 1 } else { 1 + r.below(2) }).collect();
    let mut rules: Vec<Rule> = vec![];
    for k in 0..n + r.below(4) {
        let head = if k < n { k } else { r.below(n) };
        if k > 0 && k < n && r.chance(1, 8) {
            continue; // a nonterminal without rules, perhaps
        }
        let tail: Vec<u8> = if head + 1 < n { (0..r.below(3)).map(|_| (head + 1 + r.below(n - head - 1)) as u8).collect() } else { vec![] };
        let mut comps: Vec<Vec<VarT<char>>> = vec![vec![]; fan[head]];
        // the occurrences of each successor's components, in order
        let mut left: Vec<usize> = tail.iter().map(|_| 0).collect();
        let mut vars = vec![];
        loop {
            let open: Vec<usize> = (0..tail.len()).filter(|i| left[*i] < fan[tail[*i] as usize]).collect();
            if open.is_empty() {
                break;
            }
            let i = *r.pick(&open);
            vars.push(VarT::Var(i, left[i]));
            left[i] += 1;
        }
        let mut at = 0;
        let many = vars.len();
        for (j, v) in vars.into_iter().enumerate() {
            while at + 1 < comps.len() && r.chance(1, 2) && j * 2 >= many {
                at += 1;
            }
            comps[at].push(v);
        }
        for c in comps.iter_mut() {
            for _ in 0..r.below(3) {
                let p = r.below(c.len() + 1);
                c.insert(p, VarT::T(['a', 'b'][r.below(2)]));
            }
        }
        let q = PMCFGRule { head: head as u8, tail, composition: Composition { composition: comps }, weight: Cost(r.below(5) as u64) };
        if !rules.iter().any(|p| p.head == q.head && p.tail == q.tail && p.composition == q.composition) {
            rules.push(q);
        }
    }
    PMCFG { initial: vec![0], rules }
}
fn states() -> Result<(), String> {
    let p: Vec<PosState<u8>> = vec![PosState::Designated, PosState::Initial, PosState::Position(3, 1, 2)];
    same("mapped", p.iter().map(|s| s.map(|x| x + 1)).collect::<Vec<_>>(), vec![PosState::Designated, PosState::Initial, PosState::Position(4, 1, 2)])?;
    let q: Vec<PushState<u8, char>> = vec![PushState::Designated, PushState::Initial, PushState::Nt(3), PushState::T('a')];
    same("mapped", q.iter().map(|s| s.map(|x| x + 1)).collect::<Vec<_>>(), vec![PushState::Designated, PushState::Initial, PushState::Nt(4), PushState::T('a')])
}

fn main() {
    let mut p = Probe::new("random grammars without cycles, over up to 3 nonterminals and two letters, with costs up to 4: context-free ones of up to 8 rules with right sides of up to 3 symbols, sometimes with rules that differ in their weights only, of one, several or no initial nonterminals (some listed twice); multiple context-free ones of up to 6 rules with up to 2 components, up to 2 successors whose components are used once each and in order; words they derive, and others; all derivations enumerated, context-free ones also with numbers that add up as weights; non-trivial: at least two rules and a word of two symbols");
    p.case("states".into(), false, states);
    for k in 0..p.rounds(16000, 30) {
        let r = &mut p.rng;
        let l = r.below(6);
        if k % 2 == 0 {
            let g = some_cfg(r);
            let w = if r.chance(3, 4) { derive(r, &g) } else { word(r, 3, l) };
            let non = g.rules.len() > 1 && w.len() > 1;
            p.case(format!("{:?} on {:?}", g, w), non, || context_free(&g, &w).and_then(|_| counted(&g, &w)));
        } else {
            let g = some_mcfg(r);
            let (pick, w) = (r.below(12), word(r, 2, l));
            p.case(format!("{:?}, derivation {} or {:?}", g, pick, w), g.rules.len() > 1, || multiple(&g, pick, &w));
        }
    }
    let _ = Cost::one();
    p.finish();
}
