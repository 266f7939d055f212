//! C22: shape errors are refused by the type system. Trait-presence probes over pairs of lengths and shapes; the
//! compile probes (probes/c22r.rs) are run by `/verif/check`.
#![recursion_limit = "512"]
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::Vector;
use std::marker::PhantomData;
use std::ops::*;
#[path = "../pairs.rs"]
#[macro_use]
mod pairs;

/// Whether a bound holds: the inherent constant exists exactly when it does.
trait Nope { const HAS: bool = false; }
macro_rules! probe { ($([$p:ident: $a:ident, $b:ident, $($w:tt)*])*) => { $(
    struct $p<$a: 'static, $b: 'static>(PhantomData<($a, $b)>);
    #[allow(dead_code)] impl<$a: 'static, $b: 'static> $p<$a, $b> where $($w)* { const HAS: bool = true; }
    impl<$a: 'static, $b: 'static> Nope for $p<$a, $b> {}
)* } }
probe! {
    [PAdd: A, B, A: Add<B>]
    [PAddR: A, B, A: Add<&'static B>]
    [PRAdd: A, B, &'static A: Add<B>, A: 'static]
    [PRAddR: A, B, &'static A: Add<&'static B>]
    [PSub: A, B, A: Sub<B>]
    [PSubR: A, B, A: Sub<&'static B>]
    [PRSub: A, B, &'static A: Sub<B>]
    [PRSubR: A, B, &'static A: Sub<&'static B>]
    [PMul: A, B, A: Mul<B>]
    [PMulR: A, B, A: Mul<&'static B>]
    [PRMul: A, B, &'static A: Mul<B>]
    [PRMulR: A, B, &'static A: Mul<&'static B>]
    [PAddA: A, B, A: AddAssign<B>]
    [PSubA: A, B, A: SubAssign<B>]
    [PMulA: A, B, A: MulAssign<B>]
    [PEq: A, B, A: PartialEq<B>]
    [PFrom: A, B, A: From<B>]
    [PIndex: A, B, A: Index<B>]
    [PIndexM: A, B, A: IndexMut<B>]
    [PDet: A, B, A: Determinant, B: Sized]
    [PInv: A, B, A: Inverse, B: Sized]
    [PCof: A, B, A: Cofactor, B: Sized]
    [POne: A, B, A: num::One, B: Sized]
    [PZero: A, B, A: num::Zero, B: Sized]
}
type V<N> = Vector<f64, N>;
type X<R, C> = Matrix<f64, R, C>;

/// One table row per type, to keep the code small: (what, available, expected).
fn judge(c: &mut Case, key: u64, rows: &[(&str, bool, bool)]) {
    for (what, got, want) in rows {
        c.check(got == want, || format!("{what} is {}, expected it to be {}", if *got { "available" } else { "refused" }, if *want { "available" } else { "refused" }));
        c.count(if *got { "observed available" } else { "observed refused" }, 1);
    }
    c.unit(key, true);
    c.sample(|| rows.iter().map(|r| format!("{}: {}", r.0, if r.1 { "yes" } else { "no" })).collect::<Vec<_>>().join(", "));
}
macro_rules! vp { ($m:ident $n:ident, $k:ident, $nn:expr, $kk:expr) => {
    $m.case(concat!("vectors/", $nn, " and ", $kk), |c| {
        let e = $nn == $kk;
        judge(c, $nn * 64 + $kk, &[
            ("+", PAdd::<V<$n>, V<$k>>::HAS, e), ("+ &", PAddR::<V<$n>, V<$k>>::HAS, e), ("& +", PRAdd::<V<$n>, V<$k>>::HAS, e), ("& + &", PRAddR::<V<$n>, V<$k>>::HAS, e),
            ("-", PSub::<V<$n>, V<$k>>::HAS, e), ("- &", PSubR::<V<$n>, V<$k>>::HAS, e), ("& -", PRSub::<V<$n>, V<$k>>::HAS, e), ("& - &", PRSubR::<V<$n>, V<$k>>::HAS, e),
            ("+=", PAddA::<V<$n>, V<$k>>::HAS, e), ("-=", PSubA::<V<$n>, V<$k>>::HAS, e), ("==", PEq::<V<$n>, V<$k>>::HAS, e),
        ]);
    });
} }
macro_rules! mp { ($m:ident $r:ident, $c:ident, $r2:ident, $c2:ident, $rr:expr, $cc:expr, $rr2:expr, $cc2:expr) => {
    $m.case(concat!("matrices/", $rr, "x", $cc, " and ", $rr2, "x", $cc2), |c| {
        let e = ($rr, $cc) == ($rr2, $cc2);
        let f = $cc == $rr2;
        judge(c, (($rr * 64 + $cc) * 64 + $rr2) * 64 + $cc2, &[
            ("+", PAdd::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("+ &", PAddR::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("& +", PRAdd::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("& + &", PRAddR::<X<$r, $c>, X<$r2, $c2>>::HAS, e),
            ("-", PSub::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("- &", PSubR::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("& -", PRSub::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("& - &", PRSubR::<X<$r, $c>, X<$r2, $c2>>::HAS, e),
            ("*", PMul::<X<$r, $c>, X<$r2, $c2>>::HAS, f), ("* &", PMulR::<X<$r, $c>, X<$r2, $c2>>::HAS, f), ("& *", PRMul::<X<$r, $c>, X<$r2, $c2>>::HAS, f), ("& * &", PRMulR::<X<$r, $c>, X<$r2, $c2>>::HAS, f),
            ("+=", PAddA::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("-=", PSubA::<X<$r, $c>, X<$r2, $c2>>::HAS, e), ("==", PEq::<X<$r, $c>, X<$r2, $c2>>::HAS, e),
            ("*= of a square matrix", PMulA::<X<$r, $c>, X<$r2, $c2>>::HAS, e && $rr == $cc),
            ("* vector", PMul::<X<$r, $c>, V<$r2>>::HAS, f), ("* &vector", PMulR::<X<$r, $c>, V<$r2>>::HAS, f),
        ]);
    });
} }
macro_rules! sq { ($m:ident $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    $m.case(concat!("square only/", $rr, "x", $cc), |c| {
        let e = $rr == $cc;
        let mut rows = vec![("one", POne::<X<$r, $c>, ()>::HAS, e), ("zero", PZero::<X<$r, $c>, ()>::HAS, true)];
        if $rr + $cc > 0 {
            rows.push(("determinant", PDet::<X<$r, $c>, ()>::HAS, e));
            rows.push(("inverse", PInv::<X<$r, $c>, ()>::HAS, e));
        }
        if $rr + $cc > 2 || !e { rows.push(("cofactor", PCof::<X<$r, $c>, ()>::HAS, e)); }
        judge(c, $rr * 64 + $cc, &rows);
    });
} }
macro_rules! fl { ($m:ident $r:ident, $c:ident, $l:ident, $rr:expr, $cc:expr, $ll:expr) => {
    $m.case(concat!("from flat/", $rr, "x", $cc, " from ", $ll), |c| {
        judge(c, ($rr * 64 + $cc) * 64 + $ll, &[("from a flat vector", PFrom::<X<$r, $c>, V<$l>>::HAS, $rr * $cc == $ll)]);
    });
} }
macro_rules! ix { ($m:ident $n:ident, $i:ident, $nn:expr, $ii:expr) => {
    $m.case(concat!("type-level index/", $ii, " of ", $nn), |c| {
        judge(c, $nn * 64 + $ii, &[("index", PIndex::<V<$n>, $i>::HAS, $ii < $nn), ("index_mut", PIndexM::<V<$n>, $i>::HAS, $ii < $nn)]);
    });
} }
macro_rules! ix2 { ($m:ident $r:ident, $c:ident, $i:ident, $j:ident, $rr:expr, $cc:expr, $ii:expr, $jj:expr) => {
    $m.case(concat!("type-level index/(", $ii, ",", $jj, ") of ", $rr, "x", $cc), |c| {
        let e = $ii < $rr && $jj < $cc;
        judge(c, (($rr * 64 + $cc) * 64 + $ii) * 64 + $jj, &[("index", PIndex::<X<$r, $c>, ($i, $j)>::HAS, e), ("index_mut", PIndexM::<X<$r, $c>, ($i, $j)>::HAS, e)]);
    });
} }
fn vectors(m: &mut Mon) { for_vpairs! {vp m} }
fn matrices(m: &mut Mon) { for_mpairs! {mp m} }
fn squares(m: &mut Mon) { for_mshapes_all! {sq m} }
fn flats(m: &mut Mon) { for_flat_all! {fl m} }
fn indices(m: &mut Mon) { for_index! {ix m} }
fn indices2(m: &mut Mon) { for_index2! {ix2 m} }
fn main() {
    let mut mon = Mon::new("C22");
    let m = &mut mon;
    vectors(m);
    matrices(m);
    squares(m);
    flats(m);
    indices(m);
    indices2(m);
    mon.finish();
}
