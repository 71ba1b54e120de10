// C16: reversed weights over weights that record what is done to them, and over numbers.
use num_traits::{One, Zero};
use pk::*;
use rustomata::util::factorizable::Factorizable;
use rustomata::util::reverse::Reverse;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Sym(String);
macro_rules! ops {
    ($($t:ident $m:ident $ta:ident $ma:ident $s:expr),*) => {$(
        impl $t for Sym { type Output = Sym; fn $m(self, o: Sym) -> Sym { Sym(format!("({}{}{})", self.0, $s, o.0)) } }
        impl $ta for Sym { fn $ma(&mut self, o: Sym) { self.0 = format!("[{}{}={}]", self.0, $s, o.0) } }
    )*};
}
ops!(Add add AddAssign add_assign "+", Sub sub SubAssign sub_assign "-", Mul mul MulAssign mul_assign "*", Div div DivAssign div_assign "/", Rem rem RemAssign rem_assign "%");
impl Zero for Sym {
    fn zero() -> Sym {
        Sym("0".into())
    }
    fn is_zero(&self) -> bool {
        self.0 == "0"
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym("1".into())
    }
}
impl Factorizable for Sym {
    fn factorize(self, n: usize) -> Vec<Sym> {
        (0..n).map(|i| Sym(format!("{}#{}", self.0, i))).collect()
    }
}
fn cmp<W: PartialOrd + Clone>(a: &W, b: &W) -> Result<(), String> {
    let (x, y) = (Reverse::from(a.clone()), Reverse::from(b.clone()));
    same("partial_cmp", x.partial_cmp(&y), b.partial_cmp(a))?;
    same("<", x < y, b < a)?;
    same("<=", x <= y, b <= a)?;
    same(">", x > y, b > a)?;
    same(">=", x >= y, b >= a)?;
    same("==", x == y, a == b)?;
    same("!=", x != y, a != b)
}
fn total<W: Ord + Clone + std::fmt::Debug>(a: &W, b: &W) -> Result<(), String> {
    let (x, y) = (Reverse::from(a.clone()), Reverse::from(b.clone()));
    same("cmp", x.cmp(&y), b.cmp(a))?;
    same("max", Reverse::from(a.clone()).max(Reverse::from(b.clone())).unwrap(), a.clone().min(b.clone()))?;
    same("min", Reverse::from(a.clone()).min(Reverse::from(b.clone())).unwrap(), a.clone().max(b.clone()))
}
fn sym(a: &Sym, b: &Sym, n: usize) -> Result<(), String> {
    cmp(a, b)?;
    total(a, b)?;
    let r = |x: &Sym| Reverse::from(x.clone());
    same("+", (r(a) + r(b)).unwrap(), a.clone() + b.clone())?;
    same("-", (r(a) - r(b)).unwrap(), a.clone() - b.clone())?;
    same("*", (r(a) * r(b)).unwrap(), a.clone() * b.clone())?;
    same("/", (r(a) / r(b)).unwrap(), a.clone() / b.clone())?;
    same("%", (r(a) % r(b)).unwrap(), a.clone() % b.clone())?;
    macro_rules! asg {
        ($o:tt) => {{
            let (mut x, mut y) = (r(a), a.clone());
            x $o r(b);
            y $o b.clone();
            same(stringify!($o), x.inner().clone(), y)?;
        }};
    }
    asg!(+=);
    asg!(-=);
    asg!(*=);
    asg!(/=);
    asg!(%=);
    same("zero", Reverse::<Sym>::zero().unwrap(), Sym::zero())?;
    same("one", Reverse::<Sym>::one().unwrap(), Sym::one())?;
    same("is_zero", r(a).is_zero(), a.is_zero())?;
    same("factorize", r(a).factorize(n).into_iter().map(|x| x.unwrap()).collect::<Vec<_>>(), a.clone().factorize(n))?;
    same("clone", r(a).clone() == r(a), true)
}
fn main() {
    let mut p = Probe::new("pairs of weights that record every operation applied to them, of integers and of floats with NaN; non-trivial: different weights");
    let names = ["0", "1", "", "a", "b", "ab", "ba", "-"];
    for a in &names {
        for b in &names {
            for n in 0..4 {
                p.case(format!("{:?} {:?} {}", a, b, n), a != b, || sym(&Sym(a.to_string()), &Sym(b.to_string()), n));
            }
        }
    }
    let fl = [0.0, -0.0, 1.0, -1.0, 2.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    for a in &fl {
        for b in &fl {
            p.case(format!("{:?} {:?}", a, b), a != b, || {
                cmp(a, b)?;
                same("is_zero", Reverse::from(*a).is_zero(), a.is_zero())?;
                let bits = |x: f64| if x.is_nan() { 1 } else { x.to_bits() };
                let s = |x: Reverse<f64>| bits(x.unwrap());
                same("-", s(Reverse::from(*a) - Reverse::from(*b)), bits(*a - *b))?;
                same("/", s(Reverse::from(*a) / Reverse::from(*b)), bits(*a / *b))
            });
        }
    }
    for _ in 0..p.rounds(3000, 20) {
        let (a, b) = (p.rng.below(7) as i64 - 3, p.rng.below(7) as i64 - 3);
        p.case(format!("{} {}", a, b), a != b, || {
            cmp(&a, &b)?;
            total(&a, &b)?;
            let mut v: Vec<Reverse<i64>> = vec![Reverse::from(a), Reverse::from(b), Reverse::from(0)];
            v.sort();
            let mut w = vec![a, b, 0];
            w.sort_by(|x, y| y.cmp(x));
            same("sorted", v.into_iter().map(|x| x.unwrap()).collect::<Vec<_>>(), w)?;
            same("text", format!("{}", Reverse::from(a)), format!("{}", a))?;
            same("parsed", a.to_string().parse::<Reverse<i64>>().ok().map(|x| x.unwrap()), Some(a))?;
            same("ordering", Reverse::from(a).cmp(&Reverse::from(a)), Ordering::Equal)
        });
    }
    p.finish();
}
