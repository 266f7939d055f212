//! Symbolic elements: an operation's result records which operation ran, in which form, on which operands in which
//! order; every operation is counted. Nothing but the operators the property names is implemented.
use crate::rng::mix;
use std::cell::Cell;

thread_local! { static OPS: Cell<u64> = const { Cell::new(0) }; }
pub fn ops_reset() {
    OPS.with(|o| o.set(0));
}
pub fn ops() -> u64 {
    OPS.with(|o| o.get())
}
fn op() {
    OPS.with(|o| o.set(o.get() + 1));
}

/// Left operands, right operands and results are different types.
#[derive(PartialEq, Debug)]
pub struct L(pub u64);
#[derive(PartialEq, Debug)]
pub struct Rt(pub u64);
/// A right operand usable as a scalar.
#[derive(PartialEq, Debug, Clone)]
pub struct Sc(pub u64);
#[derive(PartialEq, Debug, Clone)]
pub struct Out {
    pub op: &'static str,
    pub l: u64,
    pub r: u64,
}
pub fn out(op: &'static str, l: u64, r: u64) -> Out {
    Out { op, l, r }
}
/// What an in-place operation leaves.
pub fn upd(op: &'static str, l: u64, r: u64) -> u64 {
    mix(mix(l) ^ crate::rng::hash_str(op)).wrapping_sub(r.rotate_left(7))
}

macro_rules! bin {
    ($L:ty, $R:ty, $($tr:ident $f:ident $n:expr),*) => { $(
        impl std::ops::$tr<$R> for $L { type Output = Out; fn $f(self, o: $R) -> Out { op(); out(concat!("T", $n, "U"), self.0, o.0) } }
        impl<'a> std::ops::$tr<&'a $R> for $L { type Output = Out; fn $f(self, o: &'a $R) -> Out { op(); out(concat!("T", $n, "&U"), self.0, o.0) } }
        impl<'b> std::ops::$tr<$R> for &'b $L { type Output = Out; fn $f(self, o: $R) -> Out { op(); out(concat!("&T", $n, "U"), self.0, o.0) } }
        impl<'a, 'b> std::ops::$tr<&'a $R> for &'b $L { type Output = Out; fn $f(self, o: &'a $R) -> Out { op(); out(concat!("&T", $n, "&U"), self.0, o.0) } }
    )* };
}
macro_rules! asg {
    ($L:ty, $R:ty, $($tr:ident $f:ident $n:expr),*) => { $(
        impl std::ops::$tr<$R> for $L { fn $f(&mut self, o: $R) { op(); self.0 = upd($n, self.0, o.0) } }
    )* };
}
bin!(L, Rt, Add add "+", Sub sub "-");
bin!(L, Sc, Mul mul "*", Div div "/");
asg!(L, Rt, AddAssign add_assign "+=", SubAssign sub_assign "-=");
asg!(L, Sc, MulAssign mul_assign "*=", DivAssign div_assign "/=");
impl std::ops::Neg for L {
    type Output = Out;
    fn neg(self) -> Out {
        op();
        out("-T", self.0, 0)
    }
}

/// The element of matrices: sums have a result type of their own, scaling stays in the type (as the API demands).
#[derive(PartialEq, Debug, Clone)]
pub struct E(pub u64);
bin!(E, E, Add add "+", Sub sub "-");
asg!(E, Rt, AddAssign add_assign "+=", SubAssign sub_assign "-=");
asg!(E, E, MulAssign mul_assign "*=", DivAssign div_assign "/=");
impl std::ops::Neg for E {
    type Output = Out;
    fn neg(self) -> Out {
        op();
        out("-T", self.0, 0)
    }
}
macro_rules! scale {
    ($($tr:ident $f:ident $n:expr),*) => { $(
        impl std::ops::$tr<E> for E { type Output = E; fn $f(self, o: E) -> E { op(); E(upd(concat!("T", $n, "T"), self.0, o.0)) } }
        impl<'a> std::ops::$tr<&'a E> for E { type Output = E; fn $f(self, o: &'a E) -> E { op(); E(upd(concat!("T", $n, "&T"), self.0, o.0)) } }
    )* };
}
scale!(Mul mul "*", Div div "/");
