//! C18: operands are left alone; in-place forms agree with value forms.
use num::{Complex, One, Zero};
use rcmon::field::{Fp, M2, P61};
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::fmt::Debug;

/// Elements compared bit by bit.
trait Bits: Clone + Debug + 'static {
    fn rnd(c: &mut Case) -> Self;
    fn bits(&self) -> (u128, String);
    /// Overwrites everything the element owns.
    fn scribble(&mut self);
}
macro_rules! num_bits { ($($t:ty, |$c:ident| $e:expr, |$s:ident| $b:expr;)*) => { $( impl Bits for $t {
    fn rnd($c: &mut Case) -> Self { $e }
    fn bits(&self) -> (u128, String) { let $s = self; ($b, String::new()) }
    fn scribble(&mut self) { *self = { let z = <$t>::zero(); z.clone() + <$t as One>::one() + self.clone() * self.clone() } }
} )* } }
const F: [f64; 12] = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.0, -7.0];
num_bits! {
    Fp<{ P61 }>, |c| Fp(c.rng.below(P61)), |s| s.0 as u128;
    Fp<5>, |c| Fp(c.rng.below(5)), |s| s.0 as u128;
    M2, |c| M2::rand(&mut c.rng), |s| s.0.iter().fold(0u128, |h, x| h << 31 | *x as u128);
    std::num::Wrapping<i8>, |c| std::num::Wrapping(c.rng.next() as i8), |s| s.0 as u8 as u128;
    std::num::Wrapping<u64>, |c| std::num::Wrapping(c.rng.next()), |s| s.0 as u128;
    f64, |c| if c.rng.chance(1, 2) { *c.rng.pick(&F) } else { c.rng.f64(-10.0, 10.0) }, |s| if s.is_nan() { 1 } else { s.to_bits() as u128 };
    f32, |c| if c.rng.chance(1, 2) { *c.rng.pick(&F) as f32 } else { c.rng.f64(-10.0, 10.0) as f32 }, |s| if s.is_nan() { 1 } else { s.to_bits() as u128 };
    Complex<i64>, |c| Complex::new(c.rng.range(-9, 9), c.rng.range(-9, 9)), |s| (s.re as u64 as u128) << 64 | s.im as u64 as u128;
}
impl Bits for num::BigInt {
    fn rnd(c: &mut Case) -> Self { num::BigInt::from(c.rng.next() as i64) * num::BigInt::from(c.rng.range(-1 << 40, 1 << 40)) }
    fn bits(&self) -> (u128, String) { (0, self.to_string()) }
    fn scribble(&mut self) { *self = num::BigInt::from(-1) }
}
impl Bits for String {
    fn rnd(c: &mut Case) -> Self { format!("{}", c.rng.below(10000)) }
    fn bits(&self) -> (u128, String) { (0, self.clone()) }
    fn scribble(&mut self) { unsafe { for b in self.as_bytes_mut() { *b = b'#' } } self.push('!') }
}
impl Bits for Vec<u16> {
    fn rnd(c: &mut Case) -> Self { (0..c.rng.below(4)).map(|i| i as u16 * 100).collect() }
    fn bits(&self) -> (u128, String) { (0, format!("{self:?}")) }
    fn scribble(&mut self) { for x in self.iter_mut() { *x = 0xffff } self.push(1) }
}
thread_local! { static SLOTS: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) } }
/// Refers to a cell of its own; nothing to drop, but a clone needs a new cell.
#[derive(Debug)]
struct Slot(usize);
impl Slot {
    fn new(x: u64) -> Slot { SLOTS.with(|s| { let mut s = s.borrow_mut(); s.push(x); Slot(s.len() - 1) }) }
    fn get(&self) -> u64 { SLOTS.with(|s| s.borrow()[self.0]) }
}
impl Clone for Slot { fn clone(&self) -> Slot { Slot::new(self.get()) } }
impl PartialEq for Slot { fn eq(&self, o: &Slot) -> bool { self.get() == o.get() } }
impl Eq for Slot {}
impl PartialOrd for Slot { fn partial_cmp(&self, o: &Slot) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Slot { fn cmp(&self, o: &Slot) -> std::cmp::Ordering { self.get().cmp(&o.get()) } }
impl Bits for Slot {
    fn rnd(c: &mut Case) -> Self { Slot::new(c.rng.below(1000)) }
    fn bits(&self) -> (u128, String) { (self.get() as u128, String::new()) }
    fn scribble(&mut self) { SLOTS.with(|s| s.borrow_mut()[self.0] ^= 1 << 40) }
}
type G<T> = Grid<T>;
fn bits<T: Bits>(g: &G<T>) -> Vec<Vec<(u128, String)>> { g.iter().map(|r| r.iter().map(T::bits).collect()).collect() }
fn vbits<T: Bits, N: ArrayLen<T>>(v: &Vector<T, N>) -> Vec<(u128, String)> { v.as_slice().iter().map(T::bits).collect() }
fn mbits<T: Bits, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: &Matrix<T, R, C>) -> Vec<Vec<(u128, String)>> { bits(&grid(m)) }
fn rv<T: Bits, N: ArrayLen<T>>(c: &mut Case) -> Vector<T, N> { Vector::generate(|_| T::rnd(c)) }
fn rm<T: Bits, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(c: &mut Case) -> Matrix<T, R, C> { Matrix::generate(|_| T::rnd(c)) }

/// An operation taking `$src` by reference: it must leave it alone, and scribbling over the result must too.
macro_rules! byref { ($c:ident, $bits:ident, [$($src:ident),*], $name:expr, $e:expr, |$r:ident| $scribble:expr) => {{
    let before = ($($bits(&$src),)*);
    #[allow(unused_mut)] let mut $r = $e;
    let after = ($($bits(&$src),)*);
    $c.check(before == after, || format!("{} changed an operand: {before:?} became {after:?}", $name));
    $scribble;
    let after = ($($bits(&$src),)*);
    $c.check(before == after, || format!("changing the result of {} changed an operand: {before:?} became {after:?}", $name));
    $c.count("operands snapshotted", 1);
}} }
/// The two forms give the same bits.
macro_rules! forms { ($c:ident, $bits:ident, $a:ident, $name:expr, |$x:ident| $inplace:expr, $value:expr) => {{
    let mut $x = $a.clone();
    $inplace;
    let v = $value;
    let (got, want) = ($bits(&$x), $bits(&v));
    $c.check(got == want, || format!("{}: in place {got:?}, by value {want:?}, from {:?}", $name, $bits(&$a)));
    $c.count("in-place and value forms compared", 1);
}} }
fn sv<T: Bits, N: ArrayLen<T>>(v: &mut Vector<T, N>) { for x in v.as_slice_mut() { x.scribble() } }
fn sm<T: Bits, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: &mut Matrix<T, R, C>) { for i in 0..R::to_usize() { for j in 0..C::to_usize() { m[(i, j)].scribble() } } }

fn structural<T: Bits + PartialEq + Debug, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize, reps: u64)
where R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> {
    m.case(&format!("by reference/{kind}/{r}x{k}"), |c| {
        for _ in 0..reps {
            let (a, b): (Matrix<T, R, C>, Matrix<T, R, C>) = (rm(c), rm(c));
            byref!(c, mbits, [a], "clone", a.clone(), |x| sm(&mut x));
            byref!(c, mbits, [a], "transposed", a.transposed(), |x| sm(&mut x));
            byref!(c, mbits, [a], "rows_iter", a.rows_iter().collect::<Vec<_>>(), |x| x.iter_mut().for_each(sv));
            byref!(c, mbits, [a], "rows_iter.rev", a.rows_iter().rev().collect::<Vec<_>>(), |x| x.iter_mut().for_each(sv));
            byref!(c, mbits, [a], "cols_iter", a.cols_iter().collect::<Vec<_>>(), |x| x.iter_mut().for_each(sv));
            byref!(c, mbits, [a], "rows_iter_ref", a.rows_iter_ref().map(|s| s.len()).sum::<usize>(), |_x| ());
            byref!(c, mbits, [a], "cols_iter_ref", a.cols_iter_ref().map(|s| s.count()).sum::<usize>(), |_x| ());
            byref!(c, mbits, [a, b], "==", a == b, |_x| ());
            byref!(c, mbits, [a], "all", a.all(|_, _| true) ^ a.any(|_, _| false), |_x| ());
            byref!(c, mbits, [a], "Debug", format!("{a:?} {a:#?}"), |_x| ());
            let v: Vector<T, C> = rv(c);
            let w: Vector<T, C> = rv(c);
            byref!(c, vbits, [v], "clone", v.clone(), |x| sv(&mut x));
            byref!(c, vbits, [v], "clone().into_iter", v.clone().into_iter().rev().collect::<Vec<_>>(), |x| x.iter_mut().for_each(T::scribble));
            byref!(c, vbits, [v, w], "==", v == w, |_x| ());
            byref!(c, vbits, [v], "Debug", format!("{v:?} {v:#?}"), |_x| ());
            byref!(c, vbits, [v], "iter", v.iter().count() + v.as_ref().len() + v.len(), |_x| ());
            // clones are the same value
            c.eq("clone", &mbits(&a.clone()), &mbits(&a));
            c.eq("clone", &vbits(&v.clone()), &vbits(&v));
            let mut x = b.clone();
            x.clone_from(&a);
            c.eq("clone_from", &mbits(&x), &mbits(&a));
            let mut x = w.clone();
            x.clone_from(&v);
            c.eq("clone_from", &vbits(&x), &vbits(&v));
            let h = c.rng.next();
            c.unit(h, r * k > 0);
        }
        c.sample(|| format!("16 by-reference operations, results overwritten afterwards, {r}x{k} {kind}"));
    });
}
fn copies<T: Bits + Copy, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize)
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>, Matrix<T, R, C>: Copy, Vector<T, C>: Copy {
    m.case(&format!("copies/{kind}/{r}x{k}"), |c| {
        let a: Matrix<T, R, C> = rm(c);
        let before = mbits(&a);
        let mut b = a;
        c.eq("copy", &mbits(&b), &before);
        sm(&mut b);
        c.eq("source of a copy", &mbits(&a), &before);
        let v: Vector<T, C> = rv(c);
        let before = vbits(&v);
        let mut w = v;
        sv(&mut w);
        c.eq("source of a copy", &vbits(&v), &before);
        let mut it = v.into_iter();
        it.next();
        let mut w = v;
        sv(&mut w);
        c.eq("iterator over a copy", &it.map(|x| x.bits()).collect::<Vec<_>>(), &before.iter().skip(1).cloned().collect());
        let h = c.rng.next();
        c.unit(h, r * k > 0);
    });
}
trait Ar: Bits + PartialEq + Zero + One + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Neg<Output = Self>
    + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + for<'a> std::ops::Mul<&'a Self, Output = Self>
    + for<'a> std::ops::Add<&'a Self, Output = Self> + for<'a> std::ops::Sub<&'a Self, Output = Self> {}
impl<T> Ar for T where T: Bits + PartialEq + Zero + One + std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::Neg<Output = T>
    + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + for<'a> std::ops::Mul<&'a T, Output = T>
    + for<'a> std::ops::Add<&'a T, Output = T> + for<'a> std::ops::Sub<&'a T, Output = T> {}

fn arith<T: Ar, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize, reps: u64)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T> + ArrayLen<Vector<T, R>>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> + ArrayLen<Vector<T, C>>,
    for<'a> &'a T: std::ops::Add<&'a T, Output = T> + std::ops::Sub<&'a T, Output = T> + std::ops::Add<T, Output = T> + std::ops::Sub<T, Output = T>,
{
    m.case(&format!("arithmetic/{kind}/{r}x{k}"), |c| {
        for _ in 0..reps {
            let (a, b): (Matrix<T, R, C>, Matrix<T, R, C>) = (rm(c), rm(c));
            let s = T::rnd(c);
            byref!(c, mbits, [a, b], "&a + &b", &a + &b, |x| sm(&mut x));
            byref!(c, mbits, [a, b], "&a - &b", &a - &b, |x| sm(&mut x));
            byref!(c, mbits, [a, b], "&a + b", &a + b.clone(), |x| sm(&mut x));
            byref!(c, mbits, [a, b], "a - &b", a.clone() - &b, |x| sm(&mut x));
            byref!(c, mbits, [a], "&a + &a", &a + &a, |x| sm(&mut x));
            byref!(c, mbits, [a], "&a - &a", &a - &a, |x| sm(&mut x));
            byref!(c, mbits, [a], "sum", a.sum(), |x| x.scribble());
            byref!(c, mbits, [a], "is_zero", a.is_zero(), |_x| ());
            let t: Matrix<T, C, R> = rm(c);
            { let tb = mbits(&t); byref!(c, mbits, [a], "&a * &t", &a * &t, |x| sm(&mut x)); byref!(c, mbits, [a], "&a * t", &a * t.clone(), |x| sm(&mut x)); byref!(c, mbits, [a], "t * &a", t.clone() * &a, |x| sm(&mut x)); c.eq("right operand of a product", &mbits(&t), &tb); }
            let v: Vector<T, C> = rv(c);
            { let vb = vbits(&v); byref!(c, mbits, [a], "a * &v", a.clone() * &v, |x| sv(&mut x)); c.eq("vector operand", &vbits(&v), &vb); }
            forms!(c, mbits, a, "+=", |x| x += b.clone(), a.clone() + b.clone());
            forms!(c, mbits, a, "-=", |x| x -= b.clone(), a.clone() - b.clone());
            forms!(c, mbits, a, "*= scalar", |x| x *= s.clone(), a.clone() * s.clone());
            forms!(c, mbits, a, "+= itself", |x| { let y = x.clone(); x += y }, a.clone() + a.clone());
            forms!(c, mbits, a, "-= itself", |x| { let y = x.clone(); x -= y }, a.clone() - a.clone());
            let w: Vector<T, C> = rv(c);
            byref!(c, vbits, [v, w], "&v + &w", &v + &w, |x| sv(&mut x));
            byref!(c, vbits, [v, w], "&v - w", &v - w.clone(), |x| sv(&mut x));
            byref!(c, vbits, [v, w], "v - &w", v.clone() - &w, |x| sv(&mut x));
            byref!(c, vbits, [v], "&v + &v", &v + &v, |x| sv(&mut x));
            byref!(c, vbits, [v, w], "dot", v.dot(&w), |x| x.scribble());
            byref!(c, vbits, [v], "dot itself", v.dot(&v), |x| x.scribble());
            byref!(c, vbits, [v], "sum", v.sum(), |x| x.scribble());
            forms!(c, vbits, v, "+=", |x| x += w.clone(), v.clone() + w.clone());
            forms!(c, vbits, v, "-=", |x| x -= w.clone(), v.clone() - w.clone());
            forms!(c, vbits, v, "*=", |x| x *= s.clone(), v.clone() * s.clone());
            let h = c.rng.next();
            c.unit(h, r * k > 0);
        }
        c.sample(|| format!("operand snapshots and in-place/value pairs over {kind}, {r}x{k}"));
    });
}
fn division<T: Ar + std::ops::Div<Output = T> + std::ops::DivAssign, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize)
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    m.case(&format!("division/{kind}/{r}x{k}"), |c| {
        for _ in 0..6 {
            let a: Matrix<T, R, C> = rm(c);
            let v: Vector<T, C> = rv(c);
            let s = loop { let s = T::rnd(c); if !s.is_zero() { break s } };
            forms!(c, mbits, a, "/= scalar", |x| x /= s.clone(), a.clone() / s.clone());
            forms!(c, vbits, v, "/=", |x| x /= s.clone(), v.clone() / s.clone());
            let h = c.rng.next();
            c.unit(h, r * k > 0);
        }
    });
}
fn ordered<T: Bits + Ord, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize)
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    m.case(&format!("clamp/{kind}/{r}x{k}"), |c| {
        for _ in 0..6 {
            let a: Matrix<T, R, C> = rm(c);
            let v: Vector<T, C> = rv(c);
            let (p, q) = (T::rnd(c), T::rnd(c));
            // now and then the bounds are the wrong way round: the two forms must still agree
            let (p, q) = if p <= q || c.rng.chance(1, 3) { (p, q) } else { (q, p) };
            byref!(c, mbits, [a], "clamped", a.clamped(p.clone(), q.clone()), |x| sm(&mut x));
            byref!(c, vbits, [v], "clamped", v.clamped(p.clone(), q.clone()), |x| sv(&mut x));
            forms!(c, mbits, a, "clamp", |x| x.clamp(p.clone(), q.clone()), a.clamped(p.clone(), q.clone()));
            forms!(c, vbits, v, "clamp", |x| x.clamp(p.clone(), q.clone()), v.clamped(p.clone(), q.clone()));
            let h = c.rng.next();
            c.unit(h, r * k > 0);
        }
    });
}
fn square<T: Ar, N>(m: &mut Mon, kind: &str, n: usize, reps: u64)
where N: ArrayLen<Vector<T, N>> + ArrayLen<T>, for<'a> &'a T: std::ops::Add<&'a T, Output = T> {
    m.case(&format!("square/{kind}/N{n}"), |c| {
        for _ in 0..reps {
            let (a, b): (Matrix<T, N, N>, Matrix<T, N, N>) = (rm(c), rm(c));
            forms!(c, mbits, a, "transpose", |x| x.transpose(), a.transposed());
            forms!(c, mbits, a, "*= matrix", |x| x *= b.clone(), a.clone() * b.clone());
            forms!(c, mbits, a, "*= itself", |x| { let y = x.clone(); x *= y }, a.clone() * a.clone());
            byref!(c, mbits, [a, b], "&a * &b", &a * &b, |x| sm(&mut x));
            byref!(c, mbits, [a], "&a * &a", &a * &a, |x| sm(&mut x));
            for e in [0, 1, 2, 5] { byref!(c, mbits, [a], "pow", a.pow(e), |x| sm(&mut x)); }
            let h = c.rng.next();
            c.unit(h, n > 0);
        }
    });
}
macro_rules! linear { ($m:ident, $t:ty, $kind:expr, $n:ident, $nn:expr) => {
    $m.case(&format!("linear algebra/{}/N{}", $kind, $nn), |c| {
        for _ in 0..10 {
            let a: Matrix<$t, $n, $n> = rm(c);
            byref!(c, mbits, [a], "determinant", a.determinant(), |x| x.scribble());
            byref!(c, mbits, [a], "inverse", a.inverse(), |x| if let Some(ref mut x) = x { sm(x) });
            let h = c.rng.next();
            c.unit(h, true);
        }
    });
} }
macro_rules! cof { ($m:ident, $t:ty, $kind:expr, $n:ident, $nn:expr) => {
    $m.case(&format!("cofactor/{}/N{}", $kind, $nn), |c| {
        let a: Matrix<$t, $n, $n> = rm(c);
        for i in 0..$nn { for j in 0..$nn { byref!(c, mbits, [a], "cofactor", a.cofactor((i, j)), |x| x.scribble()); } }
        let h = c.rng.next();
        c.unit(h, true);
    });
} }
/// Random histories over a pool of values, against a pool of nested lists; everything is compared after every step.
fn history<T: Ar, N>(m: &mut Mon, kind: &str, n: usize, hists: u64, steps: u64)
where N: ArrayLen<Vector<T, N>> + ArrayLen<T>, for<'a> &'a T: std::ops::Add<&'a T, Output = T> + std::ops::Sub<&'a T, Output = T> + std::ops::Add<T, Output = T> + std::ops::Sub<T, Output = T> {
    for h in 0..hists {
        m.case(&format!("history/{kind}/N{n}/{h}"), |c| {
            let mut pm: Vec<Matrix<T, N, N>> = (0..3).map(|_| rm(c)).collect();
            let mut pv: Vec<Vector<T, N>> = (0..3).map(|_| rv(c)).collect();
            let mut gm: Vec<G<T>> = pm.iter().map(grid).collect();
            let mut gv: Vec<Vec<T>> = pv.iter().map(list).collect();
            let zip = |a: &G<T>, b: &G<T>, f: &dyn Fn(T, T) -> T| gen_grid(n, n, |i, j| f(a[i][j].clone(), b[i][j].clone()));
            let zv = |a: &Vec<T>, b: &Vec<T>, f: &dyn Fn(T, T) -> T| -> Vec<T> { a.iter().zip(b).map(|(a, b)| f(a.clone(), b.clone())).collect() };
            let add = |a: T, b: T| a + b;
            let sub = |a: T, b: T| a - b;
            let mut log: Vec<(u64, usize, usize, usize)> = vec![];
            for _ in 0..steps {
                let (op, i, j, k) = (c.rng.below(34), c.rng.usize(3), c.rng.usize(3), c.rng.usize(3));
                log.push((op, i, j, k));
                let s = T::rnd(c);
                match op {
                    0 => { let x = &pm[i] + &pm[j]; pm[k] = x; gm[k] = zip(&gm[i], &gm[j], &add); }
                    1 => { let x = &pm[i] - &pm[j]; pm[k] = x; gm[k] = zip(&gm[i], &gm[j], &sub); }
                    2 => { let x = pm[i].clone() + &pm[j]; pm[k] = x; gm[k] = zip(&gm[i], &gm[j], &add); }
                    3 => { let x = &pm[i] - pm[j].clone(); pm[k] = x; gm[k] = zip(&gm[i], &gm[j], &sub); }
                    4 => { let y = pm[j].clone(); pm[i] += y; gm[i] = zip(&gm[i], &gm[j], &add); }
                    5 => { let y = pm[j].clone(); pm[i] -= y; gm[i] = zip(&gm[i], &gm[j], &sub); }
                    6 => { pm[i] *= s.clone(); gm[i] = zip(&gm[i], &gm[i], &|a, _| a * s.clone()); }
                    7 => { let x = &pm[i] * &pm[j]; pm[k] = x; gm[k] = matmul(&gm[i], &gm[j], n, n, n); }
                    8 => { let y = pm[j].clone(); pm[i] *= y; gm[i] = matmul(&gm[i], &gm[j], n, n, n); }
                    9 => { let x = pm[i].clone() * pm[j].clone(); pm[k] = x; gm[k] = matmul(&gm[i], &gm[j], n, n, n); }
                    10 => { pm[i].transpose(); gm[i] = transpose(&gm[i], n, n); }
                    11 => { let x = pm[i].transposed(); pm[k] = x; gm[k] = transpose(&gm[i], n, n); }
                    12 => { let x = -pm[i].clone(); pm[k] = x; gm[k] = zip(&gm[i], &gm[i], &|a, _| -a); }
                    13 => { let x = pm[i].pow(3); pm[k] = x; let q = matmul(&gm[i], &gm[i], n, n, n); gm[k] = matmul(&q, &gm[i], n, n, n); }
                    14 => { let x = pm[i].clone(); pm[k].clone_from(&x); gm[k] = gm[i].clone(); }
                    15 => { if n > 0 { pm[i][(j % n, k % n)] = s.clone(); gm[i][j % n][k % n] = s.clone(); } }
                    16 => { let x = pm[i].clone().map(|(p, q), e| if (p + q) % 2 == 0 { e } else { s.clone() }); pm[k] = x; gm[k] = gen_grid(n, n, |p, q| if (p + q) % 2 == 0 { gm[i][p][q].clone() } else { s.clone() }); }
                    17 => { pm.swap(i, j); gm.swap(i, j); }
                    18 => { let x = std::mem::replace(&mut pm[i], Matrix::identity()); pm[k] = x; let y = std::mem::replace(&mut gm[i], eye(n)); gm[k] = y; }
                    19 => { let x = pm[i].clone() * &pv[j]; pv[k] = x; gv[k] = (0..n).map(|p| (0..n).fold(T::zero(), |t, q| t + gm[i][p][q].clone() * gv[j][q].clone())).collect(); }
                    20 => { let x = &pv[i] + &pv[j]; pv[k] = x; gv[k] = zv(&gv[i], &gv[j], &add); }
                    21 => { let x = &pv[i] - &pv[j]; pv[k] = x; gv[k] = zv(&gv[i], &gv[j], &sub); }
                    22 => { let y = pv[j].clone(); pv[i] += y; gv[i] = zv(&gv[i], &gv[j], &add); }
                    23 => { let y = pv[j].clone(); pv[i] -= y; gv[i] = zv(&gv[i], &gv[j], &sub); }
                    24 => { pv[i] *= s.clone(); gv[i] = gv[i].iter().map(|a| a.clone() * s.clone()).collect(); }
                    25 => { let x = pv[i].clone().into_iter().rev().collect(); pv[k] = x; let mut g = gv[i].clone(); g.reverse(); gv[k] = g; }
                    26 => { if n > 0 { pv[i].as_slice_mut()[j % n] = s.clone(); gv[i][j % n] = s.clone(); } }
                    27 => { let x: Matrix<T, N, N> = mat_of(pm[i].rows_iter().rev().map(|r| r.into_iter().collect()).collect()); pm[k] = x; let mut g = gm[i].clone(); g.reverse(); gm[k] = g; }
                    28 => { if let Some(r) = pm[i].rows_iter().nth(j) { pv[k] = r; gv[k] = gm[i][j].clone(); } }
                    29 => { if let Some(r) = pm[i].cols_iter().nth(j) { pv[k] = r; gv[k] = (0..n).map(|p| gm[i][p][j].clone()).collect(); } }
                    30 => { for (p, x) in pv[i].iter_mut().enumerate() { if p % 2 == j % 2 { *x = s.clone() } } for (p, x) in gv[i].iter_mut().enumerate() { if p % 2 == j % 2 { *x = s.clone() } } }
                    31 => { let _ = (pm[i].sum(), pv[i].sum(), pv[i].dot(&pv[j]), pm[i] == pm[j], pm[i].is_zero()); }
                    32 => { let x = -pv[i].clone(); pv[k] = x; gv[k] = gv[i].iter().map(|a| -a.clone()).collect(); }
                    _ => { let x = pv[i].clone() * s.clone(); pv[k] = x; gv[k] = gv[i].iter().map(|a| a.clone() * s.clone()).collect(); }
                }
                for q in 0..3 {
                    let (a, b) = (mbits(&pm[q]), bits(&gm[q]));
                    c.check(a == b, || format!("matrix {q} is {a:?}, expected {b:?}, after (op,i,j,k) {log:?}"));
                    let (a, b) = (vbits(&pv[q]), gv[q].iter().map(T::bits).collect::<Vec<_>>());
                    c.check(a == b, || format!("vector {q} is {a:?}, expected {b:?}, after (op,i,j,k) {log:?}"));
                }
                if !c.ok() { break; }
                c.count("history steps", 1);
            }
            c.unit(log.iter().fold(n as u64, |h, l| mix(h ^ (l.0 * 64 + l.1 as u64 * 16 + l.2 as u64 * 4 + l.3 as u64))), n > 0);
            c.sample(|| format!("{steps} steps over a pool of 3 {n}x{n} matrices and 3 vectors: {:?}...", &log[..log.len().min(5)]));
        });
    }
}
macro_rules! s { ($m:ident $q:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    structural::<Fp<{ P61 }>, $r, $c>($m, "GF(2^61-1)", $rr, $cc, $q);
    arith::<Fp<{ P61 }>, $r, $c>($m, "GF(2^61-1)", $rr, $cc, $q);
    division::<Fp<{ P61 }>, $r, $c>($m, "GF(2^61-1)", $rr, $cc);
    division::<f64, $r, $c>($m, "f64", $rr, $cc);
    ordered::<Slot, $r, $c>($m, "Slot", $rr, $cc);
    ordered::<Fp<5>, $r, $c>($m, "GF(5)", $rr, $cc);
    copies::<f64, $r, $c>($m, "f64", $rr, $cc);
} }
// vectors of every length
macro_rules! l { ($m:ident $q:expr => $n:ident, $nn:expr) => {
    structural::<Slot, U1, $n>($m, "Slot", 1, $nn, $q);
    arith::<std::num::Wrapping<u64>, U1, $n>($m, "Wrapping<u64>", 1, $nn, $q);
    arith::<f64, U1, $n>($m, "f64", 1, $nn, $q);
    division::<f32, U1, $n>($m, "f32", 1, $nn);
    ordered::<Vec<u16>, U1, $n>($m, "Vec<u16>", 1, $nn);
} }
macro_rules! e { ($m:ident $q:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    structural::<String, $r, $c>($m, "String", $rr, $cc, $q);
    structural::<Vec<u16>, $r, $c>($m, "Vec<u16>", $rr, $cc, $q);
    structural::<Slot, $r, $c>($m, "Slot", $rr, $cc, $q);
    copies::<std::num::Wrapping<i8>, $r, $c>($m, "Wrapping<i8>", $rr, $cc);
    arith::<f64, $r, $c>($m, "f64", $rr, $cc, $q);
    arith::<f32, $r, $c>($m, "f32", $rr, $cc, $q);
    arith::<M2, $r, $c>($m, "M2", $rr, $cc, $q);
    division::<f32, $r, $c>($m, "f32", $rr, $cc);
    ordered::<String, $r, $c>($m, "String", $rr, $cc);
    ordered::<Vec<u16>, $r, $c>($m, "Vec<u16>", $rr, $cc);
    
} }
macro_rules! q { ($m:ident $q:expr => $n:ident, $nn:expr) => {
    square::<Fp<{ P61 }>, $n>($m, "GF(2^61-1)", $nn, if $nn > 12 { 1 } else { $q });
    square::<f64, $n>($m, "f64", $nn, if $nn > 12 { 1 } else { $q });
} }
macro_rules! h { ($m:ident ($h:expr, $st:expr) => $n:ident, $nn:expr) => {
    history::<Fp<{ P61 }>, $n>($m, "GF(2^61-1)", $nn, $h, $st);
    history::<std::num::Wrapping<i8>, $n>($m, "Wrapping<i8>", $nn, $h, $st);
    history::<M2, $n>($m, "M2", $nn, $h, $st);
} }
fn main() {
    let mut mon = Mon::new("C18");
    let m = &mut mon;
    let q = m.scale(1, 4, 60);
    for_shapes! {s m q =>}
    for_shapes_small! {e m q =>}
    for_squares! {q m q =>}
    let (hs, st) = (m.scale(1, 40, 1500), m.scale(20, 60, 150));
    for_squares_small! {h m (hs, st) =>}
    let (hs, st) = (m.scale(1, 3, 60), m.scale(20, 40, 100));
    h!(m (hs, st) => U9, 9);
    h!(m (hs, st) => U17, 17);
    for_lens! {l m q =>}
    linear!(m, f64, "f64", U1, 1); linear!(m, f64, "f64", U2, 2); linear!(m, f64, "f64", U3, 3); linear!(m, f64, "f64", U4, 4); linear!(m, f64, "f64", U6, 6);
    linear!(m, Fp<5>, "GF(5)", U1, 1); linear!(m, Fp<5>, "GF(5)", U2, 2); linear!(m, Fp<5>, "GF(5)", U3, 3); linear!(m, Fp<5>, "GF(5)", U4, 4); linear!(m, Fp<5>, "GF(5)", U5, 5);
    linear!(m, Fp<{ P61 }>, "GF(2^61-1)", U8, 8);
    linear!(m, Fp<{ P61 }>, "GF(2^61-1)", U9, 9); linear!(m, Fp<{ P61 }>, "GF(2^61-1)", U17, 17); linear!(m, Fp<{ P61 }>, "GF(2^61-1)", U32, 32);
    cof!(m, Fp<{ P61 }>, "GF(2^61-1)", U9, 9); cof!(m, Fp<{ P61 }>, "GF(2^61-1)", U13, 13);
    cof!(m, f64, "f64", U2, 2); cof!(m, f64, "f64", U3, 3); cof!(m, f64, "f64", U4, 4); cof!(m, Fp<5>, "GF(5)", U5, 5); cof!(m, Fp<{ P61 }>, "GF(2^61-1)", U7, 7);
    m.case("conjugate", |c| {
        let a: Matrix<Complex<i64>, U3, U4> = rm(c);
        byref!(c, mbits, [a], "conjugate", a.conjugate(), |x| sm(&mut x));
        let v: Vector<f64, U3> = Vector::generate(|i| i as f64 + 0.5);
        let w: Vector<f64, U3> = Vector::generate(|i| i as f64 - 2.5);
        byref!(c, vbits, [v, w], "cross", v.cross(&w), |x| sv(&mut x));
        byref!(c, vbits, [v], "norm", v.norm(), |_x| ());
        byref!(c, vbits, [v], "normalized", v.normalized(), |x| sv(&mut x));
        let v: Vector<String, U5> = rv(c);
        byref!(c, vbits, [v], "max", v.max(), |x| x.scribble());
        byref!(c, vbits, [v], "min", v.min(), |x| x.scribble());
        byref!(c, vbits, [v], "max_by", v.max_by(|a, b| b.cmp(a)), |x| x.scribble());
        byref!(c, vbits, [v], "min_by", v.min_by(|a, b| b.cmp(a)), |x| x.scribble());
        let a: Matrix<String, U4, U4> = rm(c);
        byref!(c, mbits, [a], "max", a.max(), |x| x.scribble());
        byref!(c, mbits, [a], "min", a.min(), |x| x.scribble());
        byref!(c, mbits, [a], "max_by", a.max_by(|a, b| b.cmp(a)), |x| x.scribble());
        byref!(c, mbits, [a], "min_by", a.min_by(|a, b| b.cmp(a)), |x| x.scribble());
        #[cfg(feature = "std")] byref!(c, mbits, [a], "Display", format!("{a}"), |_x| ());
        byref!(c, mbits, [a], "Debug", format!("{a:?}"), |_x| ());
        c.distinct(1);
    });
    mon.finish();
}
