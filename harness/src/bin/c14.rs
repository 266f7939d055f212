//! C14: structural operations move elements where linear algebra says.
use num::{Bounded, Complex, One, Zero};
use rcmon::elems::Elem;
use rcmon::field::Fp;
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::fmt::Debug;

/// Zero, one and every other value are distinguishable; several values are zero.
#[derive(Clone, Debug, PartialEq)]
enum K { Zero, OtherZero, One, V(u64) }
impl Zero for K {
    fn zero() -> K { K::Zero }
    fn is_zero(&self) -> bool { matches!(self, K::Zero | K::OtherZero) }
}
impl One for K { fn one() -> K { K::One } }
impl std::ops::Add for K { type Output = K; fn add(self, _: K) -> K { K::V(99) } }
impl std::ops::Mul for K { type Output = K; fn mul(self, _: K) -> K { K::V(98) } }
/// Bounds that no arithmetic type has.
#[derive(Clone, Debug, PartialEq)]
struct B(&'static str);
impl Bounded for B {
    fn min_value() -> B { B("lowest") }
    fn max_value() -> B { B("highest") }
}

fn moves<T: Elem, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T> + ArrayLen<Vector<(u64, String), C>> + ArrayLen<Vector<(), C>>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>> + ArrayLen<(u64, String)> + ArrayLen<()>,
{
    m.case(&format!("moves/{kind}/{r}x{k}"), |c| {
        let b = c.rng.next();
        let at = |i: usize, j: usize| T::mk(mix(b ^ (i * 1000 + j) as u64));
        let mk = || Matrix::<T, R, C>::generate(|(i, j)| at(i, j));
        let nt = r * k > 0;
        let m = mk();
        let t = m.transposed();
        c.eq("shape of the transpose", &t.dim(), &(k, r));
        for j in 0..k { for i in 0..r { c.check(t[(j, i)] == at(i, j), || format!("transposed ({j},{i}) is {:?}, expected {:?}", t[(j, i)], at(i, j))); } }
        let tt = t.transposed();
        c.check(tt == m, || format!("transposed twice: {tt:?}"));
        c.unit(b, nt);
        // map
        let mut log = vec![];
        let mapped: Matrix<(u64, String), R, C> = m.map(|(i, j), x| { log.push((i, j)); (log.len() as u64, format!("{i},{j},{}", x.peek())) });
        let order: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).collect();
        c.eq("indices map was called with", &log, &order);
        for i in 0..r { for j in 0..k {
            c.eq("element mapped", &mapped[(i, j)], &((i * k + j + 1) as u64, format!("{i},{j},{}", at(i, j).peek())));
        } }
        let mut calls = 0;
        let _: Matrix<(), R, C> = mk().map(|_, _| calls += 1);
        c.eq("calls of a map to ()", &calls, &(r * k));
        let back: Matrix<T, R, C> = mk().map(|_, x| x);
        c.check(back == mk(), || format!("map of the identity function: {back:?}"));
        c.unit(b ^ 1, nt);
        // all and any: nobody decides, each single decider, random deciders
        let m = mk();
        let n = r * k;
        let mut deciders: Vec<Vec<bool>> = vec![vec![false; n]];
        for p in 0..n { let mut d = vec![false; n]; d[p] = true; deciders.push(d); }
        for _ in 0..4 { deciders.push((0..n).map(|_| c.rng.chance(1, 4)).collect()); }
        deciders.push(vec![true; n]);
        for d in &deciders {
            let first = d.iter().position(|x| *x);
            let upto = first.map_or(n, |p| p + 1);
            for any in [true, false] {
                let (mut seen, mut bad) = (0usize, None);
                let res = {
                    let mut f = |(i, j): (usize, usize), x: &T| {
                        let p = seen;
                        seen += 1;
                        if p >= n || (i, j) != order[p] || *x != at(i, j) { bad = bad.or(Some((p, i, j))); }
                        // judge by the index given, not by the count
                        let dec = d.get(i * k + j).cloned().unwrap_or(false);
                        if any { dec } else { !dec }
                    };
                    if any { m.any(&mut f) } else { m.all(&mut f) }
                };
                let name = if any { "any" } else { "all" };
                c.check(res == (first.is_some() == any), || format!("{name} is {res}, deciding element at {first:?}"));
                c.check(seen == upto, || format!("{name} tested {seen} elements, the first that decides is {first:?} of {n}"));
                c.check(bad.is_none(), || format!("{name}: call (number, i, j) {bad:?} got a wrong index or element"));
            }
            c.unit(d.iter().fold(b, |h, x| mix(h ^ *x as u64)), nt);
        }
        c.check(m == mk(), || "the matrix changed".into());
        c.sample(|| format!("transposed, map, all/any with {} decider sets on {r}x{k} {kind}", deciders.len()));
    });
}
fn consts<R, C>(m: &mut Mon, r: usize, k: usize)
where
    R: ArrayLen<Vector<K, C>> + ArrayLen<Vector<f64, C>> + ArrayLen<Vector<B, C>> + ArrayLen<Vector<u8, C>> + ArrayLen<Vector<i32, C>> + ArrayLen<Vector<Complex<i64>, C>> + ArrayLen<Vector<Complex<f64>, C>>,
    C: ArrayLen<K> + ArrayLen<f64> + ArrayLen<B> + ArrayLen<u8> + ArrayLen<i32> + ArrayLen<Complex<i64>> + ArrayLen<Complex<f64>>,
{
    m.case(&format!("constants/{r}x{k}"), |c| {
        let nt = r * k > 0;
        let z = Matrix::<K, R, C>::zero();
        c.eq("zero()", &grid(&z), &gen_grid(r, k, |_, _| K::Zero));
        c.check(z.is_zero(), || "zero().is_zero() is false".into());
        c.check(Matrix::<f64, R, C>::zero().all(|_, x| x.to_bits() == 0), || "zero() of f64".into());
        c.eq("min_value()", &grid(&Matrix::<B, R, C>::min_value()), &gen_grid(r, k, |_, _| B("lowest")));
        c.eq("max_value()", &grid(&Matrix::<B, R, C>::max_value()), &gen_grid(r, k, |_, _| B("highest")));
        c.eq("min_value() of i32", &grid(&Matrix::<i32, R, C>::min_value()), &gen_grid(r, k, |_, _| i32::MIN));
        c.eq("max_value() of u8", &grid(&Matrix::<u8, R, C>::max_value()), &gen_grid(r, k, |_, _| 255));
        c.eq("min_value() of f64", &grid(&Matrix::<f64, R, C>::min_value()), &gen_grid(r, k, |_, _| f64::MIN));
        c.unit(hash_str("const"), nt);
        // is_zero with one non-zero element at each position, and with two kinds of zero
        for p in 0..r * k {
            for (what, bg) in [("zeros", 0), ("mixed zeros", 1)] {
                let mut g = Matrix::<K, R, C>::generate(|(i, j)| if bg == 1 && (i + j) % 2 == 0 { K::OtherZero } else { K::Zero });
                c.check(g.is_zero(), || format!("is_zero is false for {what}"));
                g[(p / k, p % k)] = if p % 2 == 0 { K::One } else { K::V(p as u64) };
                c.check(!g.is_zero(), || format!("is_zero is true for {what} but {:?} at ({},{})", g[(p / k, p % k)], p / k, p % k));
                c.unit(mix(p as u64 * 2 + bg), true);
            }
            let mut g = Matrix::<f64, R, C>::generate(|(i, j)| if (i * j) % 2 == 0 { 0.0 } else { -0.0 });
            c.check(g.is_zero(), || "is_zero is false for zeros of either sign".into());
            g[(p / k, p % k)] = [5e-324, f64::NAN, -1.0, f64::INFINITY][p % 4];
            c.check(!g.is_zero(), || format!("is_zero is true with {:?} at ({},{})", g[(p / k, p % k)], p / k, p % k));
            let mut g = Matrix::<i32, R, C>::zero();
            g[(p / k, p % k)] = 1 << (p % 32);
            c.check(!g.is_zero(), || format!("is_zero is true with {:?} at ({},{})", g[(p / k, p % k)], p / k, p % k));
            // cancelling elements
            if p > 0 { g[(0, 0)] = -(1i64 << (p % 32)) as i32; c.check(!g.is_zero(), || format!("is_zero is true for {g:?}")); }
        }
        // conjugate
        let b = c.rng.next();
        let m = Matrix::<Complex<i64>, R, C>::generate(|(i, j)| Complex::new((mix(b ^ (i * 64 + j) as u64) >> 8) as i64, (mix(!b ^ (i * 64 + j) as u64) >> 8) as i64 - (1 << 55)));
        let n = m.conjugate();
        c.check(n.all(|ij, z| *z == Complex::new(m[ij].re, -m[ij].im)), || format!("conjugate of {m:?} is {n:?}"));
        const F: [f64; 8] = [0.0, -0.0, 1.5, -2.25, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324];
        let m = Matrix::<Complex<f64>, R, C>::generate(|(i, j)| { let h = mix(b ^ (i * 99 + j) as u64); Complex::new(F[(h % 8) as usize], F[(h / 8 % 8) as usize]) });
        let n = m.conjugate();
        c.check(n.all(|ij, z| z.re.to_bits() == m[ij].re.to_bits() && z.im.to_bits() == (-m[ij].im).to_bits()), || format!("conjugate of {m:?} is {n:?}"));
        c.unit(b, nt);
        c.sample(|| format!("zero, is_zero at every position, bounds, conjugate of {r}x{k}"));
    });
}
fn vconsts<N>(m: &mut Mon, n: usize)
where N: ArrayLen<K> + ArrayLen<B> + ArrayLen<f64> + ArrayLen<i16> {
    m.case(&format!("vector constants/N{n}"), |c| {
        c.eq("zero()", &list(&Vector::<K, N>::zero()), &vec![K::Zero; n]);
        c.check(Vector::<K, N>::zero().is_zero(), || "zero().is_zero() is false".into());
        c.eq("min_value()", &list(&Vector::<B, N>::min_value()), &vec![B("lowest"); n]);
        c.eq("max_value()", &list(&Vector::<B, N>::max_value()), &vec![B("highest"); n]);
        c.eq("min_value() of i16", &list(&Vector::<i16, N>::min_value()), &vec![i16::MIN; n]);
        for p in 0..n {
            let mut v = Vector::<K, N>::generate(|i| if i % 2 == 0 { K::OtherZero } else { K::Zero });
            c.check(v.is_zero(), || "is_zero is false for zeros".into());
            v[p] = K::V(p as u64);
            c.check(!v.is_zero(), || format!("is_zero is true for {v:?}"));
            let mut v = Vector::<f64, N>::generate(|i| if i % 2 == 0 { -0.0 } else { 0.0 });
            c.check(v.is_zero(), || format!("is_zero is false for {v:?}"));
            v[p] = if p % 2 == 0 { f64::NAN } else { 5e-324 };
            c.check(!v.is_zero(), || format!("is_zero is true for {v:?}"));
            let mut v = Vector::<i16, N>::zero();
            v[p] = 1 << (p % 16);
            c.check(!v.is_zero(), || format!("is_zero is true for {v:?}"));
            c.unit(p as u64, true);
        }
        c.unit(1 << 40, n > 0);
    });
}
fn squares<N>(m: &mut Mon, n: usize)
where N: ArrayLen<Vector<K, N>> + ArrayLen<K> + ArrayLen<Vector<f64, N>> + ArrayLen<f64> + ArrayLen<Vector<Fp<5>, N>> + ArrayLen<Fp<5>> + ArrayLen<Vector<String, N>> + ArrayLen<String> + ArrayLen<Vector<u16, N>> + ArrayLen<u16>
        + ArrayLen<num::BigRational> + ArrayLen<Vector<num::BigRational, N>> + ArrayLen<[u64; 40]> + ArrayLen<Vector<[u64; 40], N>>
{
    m.case(&format!("square/N{n}"), |c| {
        let want = gen_grid(n, n, |i, j| if i == j { K::One } else { K::Zero });
        c.eq("identity()", &grid(&Matrix::<K, N, N>::identity()), &want);
        c.eq("one()", &grid(&<Matrix<K, N, N> as One>::one()), &want);
        c.eq("identity() of f64", &grid(&Matrix::<f64, N, N>::identity()), &gen_grid(n, n, |i, j| if i == j { 1.0 } else { 0.0 }));
        c.eq("one() of GF(5)", &grid(&<Matrix<Fp<5>, N, N> as One>::one()), &eye(n));
        c.eq("one() of Q", &grid(&<Matrix<num::BigRational, N, N> as One>::one()), &eye(n));
        for _ in 0..4 {
            let b = c.rng.next();
            let mut s = Matrix::<String, N, N>::generate(|(i, j)| format!("{b:x}-{i}-{j}"));
            s.transpose();
            c.eq("transpose() in place", &grid(&s), &gen_grid(n, n, |i, j| format!("{b:x}-{j}-{i}")));
            let mut s = Matrix::<u16, N, N>::generate(|(i, j)| mix(b ^ (i * 40 + j) as u64) as u16);
            s.transpose();
            c.eq("transpose() in place", &grid(&s), &gen_grid(n, n, |i, j| mix(b ^ (j * 40 + i) as u64) as u16));
            let mut s = Matrix::<[u64; 40], N, N>::generate(|(i, j)| { let mut a = [b; 40]; a[39] ^= (i * 40 + j) as u64; a });
            s.transpose();
            c.eq("transpose() in place", &grid(&s), &gen_grid(n, n, |i, j| { let mut a = [b; 40]; a[39] ^= (j * 40 + i) as u64; a }));
            c.unit(b, n > 0);
        }
    });
}
macro_rules! s { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    moves::<u64, $r, $c>($m, "u64", $rr, $cc);
    consts::<$r, $c>($m, $rr, $cc);
    diag::<_, $r, $c>($m, $rr, $cc, |b| Matrix::<u64, $r, $c>::diag(std::array::from_fn(|i| mix(b ^ i as u64) | 1)), |b, i| mix(b ^ i as u64) | 1);
    diag::<_, $r, $c>($m, $rr, $cc, |b| Matrix::<K, $r, $c>::diag(std::array::from_fn(|i| if (b >> i) & 1 == 0 { K::V(i as u64) } else { K::OtherZero })), |b, i| if (b >> i) & 1 == 0 { K::V(i as u64) } else { K::OtherZero });
} }
macro_rules! o { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    moves::<String, $r, $c>($m, "String", $rr, $cc);
    moves::<u8, $r, $c>($m, "u8", $rr, $cc);
    moves::<(u8, u64), $r, $c>($m, "(u8,u64)", $rr, $cc);
    moves::<[u64; 40], $r, $c>($m, "[u64;40]", $rr, $cc);
} }
macro_rules! l { ($m:ident => $n:ident, $nn:expr) => { vconsts::<$n>($m, $nn); } }
macro_rules! q { ($m:ident => $n:ident, $nn:expr) => { squares::<$n>($m, $nn); } }
fn diag<T, R, C>(m: &mut Mon, r: usize, k: usize, f: fn(u64) -> Matrix<T, R, C>, at: fn(u64, usize) -> T)
where T: Zero + Clone + PartialEq + Debug, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    m.case(&format!("diag/{}/{r}x{k}", std::any::type_name::<T>()), |c| {
        for _ in 0..5 {
            let b = c.rng.next();
            c.eq("diag()", &grid(&f(b)), &gen_grid(r, k, |i, j| if i == j { at(b, i) } else { T::zero() }));
            c.unit(b, r * k > 0);
        }
    });
}
fn main() {
    let mut mon = Mon::new("C14");
    let m = &mut mon;
    for round in 0..if m.thorough { 20 } else { 1 } {
        m.round = round;
        for_shapes! {s m =>}
        for_shapes_mid! {o m =>}
        for_lens! {l m =>}
        for_squares! {q m =>}
    }
    mon.finish();
}
