//! C09: matrix products are row-by-column sums in every operand form; pow is the repeated product.
use rcmon::field::*;
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::fmt::Debug;
use std::num::Wrapping;
use std::ops::{Add, Mul};

trait Ring: Clone + PartialEq + Debug + num::Zero + num::One + Add<Self, Output = Self> + Mul<Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> {
    fn rand(c: &mut Case) -> Self;
}
impl Ring for M2 {
    fn rand(c: &mut Case) -> Self { M2::rand(&mut c.rng) }
}
impl Ring for num::BigInt {
    fn rand(c: &mut Case) -> Self {
        match c.rng.below(8) { 0 => 0.into(), 1 => 1.into(), 2 => (-1).into(), _ => num::BigInt::from(c.rng.range(-1 << 40, 1 << 40)) * num::BigInt::from(c.rng.next() >> c.rng.below(64)) }
    }
}
impl Ring for i64 {
    fn rand(c: &mut Case) -> Self { match c.rng.below(8) { 0 => 0, 1 => 1, _ => c.rng.range(-1 << 20, 1 << 20) } }
}
impl Ring for num::Complex<i64> {
    fn rand(c: &mut Case) -> Self { num::Complex::new(c.rng.range(-9999, 9999), c.rng.range(-9999, 9999)) }
}
impl Ring for Fp<5> {
    fn rand(c: &mut Case) -> Self { Fp(c.rng.below(5)) }
}
/// Z/256 through wrapping arithmetic; a newtype because Wrapping has no product with a reference of its own type here.
#[derive(Clone, Copy, PartialEq, Debug)]
struct W8(Wrapping<u8>);
impl Add for W8 { type Output = W8; fn add(self, o: W8) -> W8 { W8(self.0 + o.0) } }
impl Mul for W8 { type Output = W8; fn mul(self, o: W8) -> W8 { W8(self.0 * o.0) } }
impl<'a> Mul<&'a W8> for W8 { type Output = W8; fn mul(self, o: &'a W8) -> W8 { W8(self.0 * o.0) } }
impl num::Zero for W8 { fn zero() -> W8 { W8(Wrapping(0)) } fn is_zero(&self) -> bool { (self.0).0 == 0 } }
impl num::One for W8 { fn one() -> W8 { W8(Wrapping(1)) } }
impl Ring for W8 {
    fn rand(c: &mut Case) -> Self { W8(Wrapping(c.rng.next() as u8)) }
}

/// Integer polynomials in non-commuting symbols: an entry shows exactly which products, in which order, were added.
#[derive(Clone, PartialEq)]
struct Poly(std::collections::BTreeMap<Vec<u16>, i64>);
impl Poly {
    fn sym(s: u16) -> Poly { Poly([(vec![s], 1)].into_iter().collect()) }
    fn norm(mut self) -> Poly { self.0.retain(|_, k| *k != 0); self }
}
impl Debug for Poly {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) }
}
impl Add for Poly {
    type Output = Poly;
    fn add(mut self, o: Poly) -> Poly { for (w, k) in o.0 { *self.0.entry(w).or_insert(0) += k } self.norm() }
}
impl<'a> Mul<&'a Poly> for Poly {
    type Output = Poly;
    fn mul(self, o: &'a Poly) -> Poly {
        let mut r = Poly(Default::default());
        for (w, k) in &self.0 { for (x, l) in &o.0 { let mut y = w.clone(); y.extend(x); *r.0.entry(y).or_insert(0) += k * l } }
        r.norm()
    }
}
impl Mul for Poly { type Output = Poly; fn mul(self, o: Poly) -> Poly { self * &o } }
impl num::Zero for Poly { fn zero() -> Poly { Poly(Default::default()) } fn is_zero(&self) -> bool { self.0.is_empty() } }
impl num::One for Poly { fn one() -> Poly { Poly([(vec![], 1)].into_iter().collect()) } }
thread_local! { static NEXT: std::cell::Cell<u16> = const { std::cell::Cell::new(0) }; }
impl Ring for Poly {
    fn rand(_: &mut Case) -> Self { NEXT.with(|n| { n.set(n.get() + 1); Poly::sym(n.get()) }) }
}

fn rand_grid<T: Ring>(c: &mut Case, r: usize, k: usize) -> Grid<T> {
    let kind = c.rng.below(8);
    let mut perm: Vec<usize> = (0..k.max(r)).collect();
    c.rng.shuffle(&mut perm);
    let hot = (c.rng.usize(r.max(1)), c.rng.usize(k.max(1)));
    let density = 1 + c.rng.below(4);
    let mut g = gen_grid(r, k, |_, _| T::zero());
    for i in 0..r {
        for j in 0..k {
            g[i][j] = match kind {
                0 => if perm[i] == j { T::one() } else { T::zero() },
                1 => if (i, j) == hot { T::rand(c) } else { T::zero() },
                2 => if i < j { T::rand(c) } else { T::zero() },
                3 => if i == j { T::one() } else { T::zero() },
                4 => if c.rng.chance(density, 4) { T::rand(c) } else { T::zero() },
                _ => T::rand(c),
            }
        }
    }
    g
}

fn product<T, A, K, B>(m: &mut Mon, kind: &str, a: usize, k: usize, b: usize, reps: u64)
where
    T: Ring + 'static,
    A: ArrayLen<Vector<T, K>> + ArrayLen<Vector<T, B>> + ArrayLen<T>,
    K: ArrayLen<T> + ArrayLen<Vector<T, B>>,
    B: ArrayLen<T>,
{
    m.case(&format!("{kind}/{a}x{k}x{b}"), |c| {
        for rep in 0..reps {
            NEXT.with(|n| n.set(0));
            let (x, y) = if rep == 0 {
                let x = gen_grid(a, k, |_, _| ()).iter().map(|r| r.iter().map(|_| T::rand(c)).collect()).collect::<Grid<T>>();
                let y = gen_grid(k, b, |_, _| ()).iter().map(|r| r.iter().map(|_| T::rand(c)).collect()).collect::<Grid<T>>();
                (x, y)
            } else { (rand_grid::<T>(c, a, k), rand_grid::<T>(c, k, b)) };
            let l = || mat_of::<T, A, K>(x.clone());
            let r = || mat_of::<T, K, B>(y.clone());
            let want = matmul(&x, &y, a, k, b);
            let h = c.rng.next();
            c.eq("m*m", &grid(&(l() * r())), &want);
            let (p, q) = (l(), r());
            c.eq("m*&m", &grid(&(l() * &q)), &want);
            c.eq("&m*m", &grid(&(&p * r())), &want);
            c.eq("&m*&m", &grid(&(&p * &q)), &want);
            // matrix * vector
            let mut v = Vec::new();
            for _ in 0..k { v.push(if c.rng.chance(1, 5) { T::zero() } else { T::rand(c) }) }
            let col: Grid<T> = v.iter().map(|e| vec![e.clone()]).collect();
            let want: Vec<T> = matmul(&x, &col, a, k, 1).into_iter().map(|r| r.into_iter().next().unwrap()).collect();
            let vv = vec_of::<T, K>(v.clone());
            c.eq("m*&v", &list(&(l() * &vv)), &want);
            c.eq("m*v", &list(&(l() * vv)), &want);
            c.unit(h, a * k * b > 0);
        }
        c.sample(|| format!("{a}x{k} times {k}x{b}, {reps} operand pairs, 6 forms, over {kind}"));
    });
}

fn square<T, N>(m: &mut Mon, kind: &str, n: usize, reps: u64, max_exp: usize, big: bool)
where
    T: Ring + 'static,
    N: ArrayLen<Vector<T, N>> + ArrayLen<T>,
{
    m.case(&format!("square-{kind}/{n}"), |c| {
        for _ in 0..reps {
            NEXT.with(|n| n.set(0));
            let (x, y) = (rand_grid::<T>(c, n, n), rand_grid::<T>(c, n, n));
            let mut p = mat_of::<T, N, N>(x.clone());
            p *= mat_of(y.clone());
            c.eq("m*=m", &grid(&p), &matmul(&x, &y, n, n, n));
            let mut q = mat_of::<T, N, N>(y.clone());
            q *= q.clone();
            let want = matmul(&y, &y, n, n, n);
            c.eq("m*=m.clone()", &grid(&q), &want);
            let q = mat_of::<T, N, N>(y.clone());
            c.eq("&m*&m, one object", &grid(&(&q * &q)), &want);
            c.eq("&m*m.clone()", &grid(&(&q * q.clone())), &want);
            c.eq("m.clone()*&m", &grid(&(q.clone() * &q)), &want);
            c.unit(c.rng.clone().next(), n > 0);
        }
        // every small exponent
        NEXT.with(|n| n.set(0));
        let x = rand_grid::<T>(c, n, n);
        let xm = mat_of::<T, N, N>(x.clone());
        let mut acc = eye::<T>(n);
        for e in 0..=max_exp {
            c.eq("pow", &(e, grid(&xm.pow(e))), &(e, acc.clone()));
            c.unit(mix(c.rng.clone().next() ^ e as u64), n > 0);
            acc = matmul(&acc, &x, n, n, n);
        }
        if big {
            for t in 0..24u32 {
                let e = match t { 0 => usize::MAX, 1 => usize::MAX - 1, 2 => 1 << 63, 3 => (1 << 32) + 1, 4 => 1 << 32, 5 => (1 << 31) - 1, _ => (c.rng.next() >> c.rng.below(60)) as usize };
                let (mut b, mut k, mut r) = (x.clone(), e, eye::<T>(n));
                while k > 0 {
                    if k & 1 == 1 { r = matmul(&r, &b, n, n, n) }
                    b = matmul(&b, &b, n, n, n);
                    k >>= 1;
                }
                c.eq("pow", &(e, grid(&xm.pow(e))), &(e, r));
                c.unit(mix(c.rng.clone().next() ^ e as u64), n > 0);
            }
        }
        c.sample(|| format!("{n}x{n} over {kind}: *=, powers 0..={max_exp}{}", if big { " and exponents up to usize::MAX" } else { "" }));
    });
}

macro_rules! pr { ($m:ident $kind:expr, $t:ty, $x:expr => $a:ident, $k:ident, $b:ident, $aa:expr, $kk:expr, $bb:expr) => {
    product::<$t, $a, $k, $b>($m, $kind, $aa, $kk, $bb, ($x / (1 + $aa * $kk * $bb / 32) as u64).max(2));
} }
macro_rules! sq { ($m:ident $kind:expr, $t:ty, $x:expr, $e:expr, $big:expr => $n:ident, $nn:expr) => {
    square::<$t, $n>($m, $kind, $nn, ($x / (1 + $nn * $nn * $nn / 32) as u64).max(2), if $nn <= 5 { $e } else { 6 }, $big && $nn <= 17);
} }

fn main() {
    let mut mon = Mon::new("C09");
    let m = &mut mon;
    let x = m.scale(2, 120, 4000);
    for_triples! {pr m "m2", M2, x =>}
    for_triples_small! {pr m "poly", Poly, 6 =>}
    for_triples_small! {pr m "bigint", num::BigInt, x / 2 =>}
    for_triples_small! {pr m "i64", i64, x =>}
    for_triples_small! {pr m "complex", num::Complex<i64>, x / 2 =>}
    for_triples_small! {pr m "wrapping8", W8, x =>}
    for_triples_small! {pr m "gf5", Fp<5>, x =>}
    let e = if m.thorough { 300 } else { 70 };
    for_squares! {sq m "m2", M2, x, e, true =>}
    for_squares_small! {sq m "wrapping8", W8, x, e, true =>}
    for_squares_small! {sq m "gf5", Fp<5>, x, e, true =>}
    for_squares_small! {sq m "bigint", num::BigInt, 8, 9, false =>}
    sq!(m "poly", Poly, 3, 4, false => U2, 2);
    sq!(m "poly", Poly, 3, 3, false => U3, 3);
    mon.finish();
}
