// C13: replace instructions on pushdown stores.
use pk::*;
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::recognisable::Instruction;

fn els(p: &PushDown<u8>) -> Vec<u8> {
    p.iter().cloned().collect()
}
fn run(s: &Vec<u8>, cur: &Vec<u8>, new: &Vec<u8>) -> Result<(), String> {
    let p = PushDown::from(s.clone());
    let fits = cur.len() <= s.len() && (0..cur.len()).all(|i| s[s.len() - 1 - i] == cur[i]);
    let mut want: Vec<u8> = s[..s.len() - if fits { cur.len() } else { 0 }].to_vec();
    if fits {
        want.extend(new.iter().cloned());
    }
    match p.clone().replace(cur, new) {
        Ok(q) if fits => same("replaced", els(&q), want.clone())?,
        Err(q) if !fits => same("refused", els(&q), s.clone())?,
        r => return Err(format!("replace answers {:?} where the symbols {}", r, if fits { "fit" } else { "do not fit" })),
    }
    let i = PushDownInstruction::Replace { current_val: cur.clone(), new_val: new.clone() };
    let got: Vec<Vec<u8>> = i.apply(p.clone()).iter().map(els).collect();
    same("apply", got, if fits { vec![want] } else { vec![] })?;
    if !s.is_empty() {
        same("current symbol", *p.current_symbol(), *s.last().unwrap())?;
        same("empty symbol", *p.empty(), s[0])?;
    }
    same("is_bottom", p.is_bottom(), s.len() == 1)?;
    let q: PushDown<u32> = p.map(&|x| *x as u32 + 7);
    same("map", q.iter().cloned().collect::<Vec<u32>>(), s.iter().map(|x| *x as u32 + 7).collect::<Vec<_>>())?;
    let mut n = 0u32;
    let q: PushDown<(u32, u8)> = p.map_mut(&mut |x| {
        n += 1;
        (n, *x)
    });
    same("map_mut", q.iter().cloned().collect::<Vec<_>>(), s.iter().enumerate().map(|(i, x)| (i as u32 + 1, *x)).collect::<Vec<_>>())
}
fn main() {
    let mut p = Probe::new("random stores of up to 9 symbols over an alphabet of 1 to 3, replaced symbols mostly read off the top and sometimes changed, up to 5 new symbols; non-trivial: at least two replaced symbols");
    p.case("new".into(), true, || same("new", els(&PushDown::new(3, 4)), vec![3, 4]));
    for _ in 0..p.rounds(30000, 30) {
        let r = &mut p.rng;
        let k = 1 + r.below(3);
        let s: Vec<u8> = (0..r.below(10)).map(|_| r.below(k) as u8).collect();
        let n = r.below(s.len().min(5) + 1);
        let mut cur: Vec<u8> = s.iter().rev().take(n).cloned().collect();
        match r.below(8) {
            0 => cur = (0..r.below(6)).map(|_| r.below(k) as u8).collect(),
            1 => cur.reverse(),
            2 => cur.push(r.below(k) as u8),
            3 if n > 0 => {
                let i = r.below(n);
                cur[i] = r.below(k) as u8;
            }
            4 if r.chance(1, 4) => {
                cur = s.iter().rev().cloned().collect();
                cur.push(r.below(k) as u8)
            }
            _ => {}
        }
        let new: Vec<u8> = (0..r.below(6)).map(|_| r.below(k) as u8).collect();
        p.case(format!("store {:?} current {:?} new {:?}", s, cur, new), cur.len() > 1, || run(&s, &cur, &new));
    }
    p.finish();
}
