// C16: reversed weights.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::cmp::Ordering;
use std::ops::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/ord.rs

//@@ type src/util/reverse.rs Reverse
//@ derives PartialEq Eq Clone Copy
//@ public
//@@ end
// `#[derive(PartialEq, Eq)]` compares the wrapped weights (assumed; the derivation is checked above)
impl<W: PartialEq> PartialEqSpecImpl for Reverse<W> {
    open spec fn obeys_eq_spec() -> bool { W::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.0.eq_spec(&other.0) }
}
impl<W: PartialEq> PartialEq for Reverse<W> {
    fn eq(&self, other: &Self) -> bool { self.0 == other.0 }
}
impl<W: Eq> Eq for Reverse<W> {}

// the reversed order
impl<W: PartialOrd> PartialOrdSpecImpl for Reverse<W> {
    open spec fn obeys_partial_cmp_spec() -> bool { W::obeys_partial_cmp_spec() }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { other.0.partial_cmp_spec(&self.0) }
}
impl<W: Ord> OrdSpecImpl for Reverse<W> {
    open spec fn obeys_cmp_spec() -> bool { W::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { other.0.cmp_spec(&self.0) }
}
//@@ impl src/util/reverse.rs <PartialOrd~for~Reverse> partial_cmp
//@@ fn src/util/reverse.rs <PartialOrd~for~Reverse>::partial_cmp
//@ implhead impl<W: PartialOrd> PartialOrd for Reverse<W>
//@@ end
//@@ impl src/util/reverse.rs <Ord~for~Reverse> cmp
//@@ fn src/util/reverse.rs <Ord~for~Reverse>::cmp
//@ implhead impl<W: Ord> Ord for Reverse<W>
//@@ end
// a total preorder stays one, and every comparison is swapped
proof fn reversed<W: Ord>(a: W, b: W)
    requires lawful_ord::<W>()
    ensures
        lawful_ord::<Reverse<W>>(),
        ord_le(Reverse(a), Reverse(b)) <==> ord_le(b, a),
        OrdSpec::cmp_spec(&Reverse(a), &Reverse(b)) == flip(a.cmp_spec(&b)),
{
    assert forall|x: Reverse<W>, y: Reverse<W>, z: Reverse<W>| #[trigger] ord_le(x, y) && #[trigger] ord_le(y, z) implies ord_le(x, z) by { assert(ord_le(z.0, y.0) && ord_le(y.0, x.0)); }
}

// ---- arithmetic: whatever the wrapped weights answer ----
// the traits of the crate num-traits (signatures as used here)
pub trait Zero: Sized + Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; }
pub trait One: Sized + Mul<Self, Output = Self> { fn one() -> Self; }
//@@ trait src/util/factorizable.rs Factorizable factorize
pub trait Factorizable: Sized { fn factorize(self, n: usize) -> Vec<Self>; }

//@@ impl src/util/reverse.rs <Zero~for~Reverse> zero is_zero
//@@ fn src/util/reverse.rs <Zero~for~Reverse>::zero
//@ implhead impl<W: Zero> Reverse<W>
//@ ret r
//@ requires call_requires(W::zero, ())
//@ ensures call_ensures(W::zero, (), r.0)
//@@ end
//@@ fn src/util/reverse.rs <Zero~for~Reverse>::is_zero
//@ implhead impl<W: Zero> Reverse<W>
//@ ret r
//@ requires call_requires(W::is_zero, (&self.0,))
//@ ensures call_ensures(W::is_zero, (&self.0,), r)
//@@ end
//@@ impl src/util/reverse.rs <One~for~Reverse> one
//@@ fn src/util/reverse.rs <One~for~Reverse>::one
//@ implhead impl<W: One> Reverse<W>
//@ ret r
//@ requires call_requires(W::one, ())
//@ ensures call_ensures(W::one, (), r.0)
//@@ end
//@@ impl src/util/reverse.rs <Add~for~Reverse> add
//@@ fn src/util/reverse.rs <Add~for~Reverse>::add
//@ implhead impl<W: Add> Reverse<W>
//@ params other
//@ newret Reverse<<W as Add>::Output>
//@ ret r
//@ requires call_requires(<W as Add>::add, (self.0, other.0))
//@ ensures call_ensures(<W as Add>::add, (self.0, other.0), r.0)
//@@ end
//@@ impl src/util/reverse.rs <AddAssign~for~Reverse> add_assign
//@@ fn src/util/reverse.rs <AddAssign~for~Reverse>::add_assign
//@ implhead impl<W: AddAssign> Reverse<W>
//@ params other
//@ requires W::obeys_add_assign_spec(), old(self).0.add_assign_req(other.0)
//@ ensures final(self).0 == old(self).0.add_assign_spec(other.0)
//@@ end
//@@ impl src/util/reverse.rs <Sub~for~Reverse> sub
//@@ fn src/util/reverse.rs <Sub~for~Reverse>::sub
//@ implhead impl<W: Sub> Reverse<W>
//@ params other
//@ newret Reverse<<W as Sub>::Output>
//@ ret r
//@ requires call_requires(<W as Sub>::sub, (self.0, other.0))
//@ ensures call_ensures(<W as Sub>::sub, (self.0, other.0), r.0)
//@@ end
//@@ impl src/util/reverse.rs <SubAssign~for~Reverse> sub_assign
//@@ fn src/util/reverse.rs <SubAssign~for~Reverse>::sub_assign
//@ implhead impl<W: SubAssign> Reverse<W>
//@ params other
//@ requires W::obeys_sub_assign_spec(), old(self).0.sub_assign_req(other.0)
//@ ensures final(self).0 == old(self).0.sub_assign_spec(other.0)
//@@ end
//@@ impl src/util/reverse.rs <Mul~for~Reverse> mul
//@@ fn src/util/reverse.rs <Mul~for~Reverse>::mul
//@ implhead impl<W: Mul> Reverse<W>
//@ params other
//@ newret Reverse<<W as Mul>::Output>
//@ ret r
//@ requires call_requires(<W as Mul>::mul, (self.0, other.0))
//@ ensures call_ensures(<W as Mul>::mul, (self.0, other.0), r.0)
//@@ end
//@@ impl src/util/reverse.rs <MulAssign~for~Reverse> mul_assign
//@@ fn src/util/reverse.rs <MulAssign~for~Reverse>::mul_assign
//@ implhead impl<W: MulAssign> Reverse<W>
//@ params other
//@ requires W::obeys_mul_assign_spec(), old(self).0.mul_assign_req(other.0)
//@ ensures final(self).0 == old(self).0.mul_assign_spec(other.0)
//@@ end
//@@ impl src/util/reverse.rs <Div~for~Reverse> div
//@@ fn src/util/reverse.rs <Div~for~Reverse>::div
//@ implhead impl<W: Div> Reverse<W>
//@ params other
//@ newret Reverse<<W as Div>::Output>
//@ ret r
//@ requires call_requires(<W as Div>::div, (self.0, other.0))
//@ ensures call_ensures(<W as Div>::div, (self.0, other.0), r.0)
//@@ end
//@@ impl src/util/reverse.rs <DivAssign~for~Reverse> div_assign
//@@ fn src/util/reverse.rs <DivAssign~for~Reverse>::div_assign
//@ implhead impl<W: DivAssign> Reverse<W>
//@ params other
//@ requires W::obeys_div_assign_spec(), old(self).0.div_assign_req(other.0)
//@ ensures final(self).0 == old(self).0.div_assign_spec(other.0)
//@@ end
//@@ impl src/util/reverse.rs <Rem~for~Reverse> rem
//@@ fn src/util/reverse.rs <Rem~for~Reverse>::rem
//@ implhead impl<W: Rem> Reverse<W>
//@ params other
//@ newret Reverse<<W as Rem>::Output>
//@ ret r
//@ requires call_requires(<W as Rem>::rem, (self.0, other.0))
//@ ensures call_ensures(<W as Rem>::rem, (self.0, other.0), r.0)
//@@ end
//@@ impl src/util/reverse.rs <RemAssign~for~Reverse> rem_assign
//@@ fn src/util/reverse.rs <RemAssign~for~Reverse>::rem_assign
//@ implhead impl<W: RemAssign> Reverse<W>
//@ params other
//@ requires W::obeys_rem_assign_spec(), old(self).0.rem_assign_req(other.0)
//@ ensures final(self).0 == old(self).0.rem_assign_spec(other.0)
//@@ end
//@@ impl src/util/reverse.rs <Factorizable~for~Reverse> factorize
//@@ fn src/util/reverse.rs <Factorizable~for~Reverse>::factorize
//@ implhead impl<W: Factorizable> Reverse<W>
//@ params n
//@ mapmethod into_iter vt_collect
//@ mapmethod map vt_map
//@ mapmethod collect vt_collect
//@ ret r
//@ requires call_requires(W::factorize, (self.0, n))
//@ closure 0 (w: W) -> (x: Reverse<W>)
    ensures x == Reverse(w)
//@ ensures exists|v: Vec<W>| #[trigger] call_ensures(W::factorize, (self.0, n), v) && r@ == v@.map_values(|w: W| Reverse(w))
//@@ end

//@@ fn src/util/reverse.rs <From~for~Reverse>::from
//@ implhead impl<W> Reverse<W>
//@ params v
//@ ret r
//@ ensures r.0 == v
//@@ end
//@@ fn src/util/reverse.rs self::Reverse::unwrap
//@ ret r
//@ ensures r == self.0
//@@ end
//@@ fn src/util/reverse.rs self::Reverse::inner
//@ ret r
//@ ensures *r == self.0
//@@ end
} // verus!
