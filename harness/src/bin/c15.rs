//! C15: reductions and clamping over all elements.
use num::{BigInt, BigRational, Complex, Zero};
use rcmon::field::{Fp, M2, P61};
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::cmp::Ordering;
use std::fmt::Debug;

/// Ordered by key only; the tag tells elements with equal keys apart.
#[derive(Clone, Debug)]
struct Keyed { key: i64, tag: u32 }
impl PartialEq for Keyed { fn eq(&self, o: &Keyed) -> bool { self.key == o.key } }
impl Eq for Keyed {}
impl PartialOrd for Keyed { fn partial_cmp(&self, o: &Keyed) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Keyed { fn cmp(&self, o: &Keyed) -> Ordering { self.key.cmp(&o.key) } }

/// Sums, exact or to rounding.
trait Num1: Clone + Debug + Zero + PartialEq + std::ops::Mul<Output = Self> + 'static {
    fn rnd(c: &mut Case) -> Self;
    /// `err` bounds the sum of absolute values of everything added.
    fn close(a: &Self, b: &Self, terms: usize, mag: f64) -> bool { let _ = (terms, mag); a == b }
    fn mag(&self) -> f64 { 0.0 }
}
macro_rules! exact { ($($t:ty, |$c:ident| $e:expr;)*) => { $( impl Num1 for $t { fn rnd($c: &mut Case) -> Self { $e } } )* } }
exact! {
    i8, |c| if c.rng.chance(1, 8) { c.rng.range(-1, 1) as i8 } else { 0 };
    u16, |c| c.rng.below(44) as u16;
    i64, |c| c.rng.range(-1 << 24, 1 << 24);
    i128, |c| c.rng.range(-1 << 50, 1 << 50) as i128;
    std::num::Wrapping<u8>, |c| std::num::Wrapping(c.rng.next() as u8);
    Fp<5>, |c| Fp(c.rng.below(5));
    Fp<{ P61 }>, |c| Fp(c.rng.below(P61));
    M2, |c| M2::rand(&mut c.rng);
    BigInt, |c| BigInt::from(c.rng.next() as i64) * BigInt::from(c.rng.next() as i64);
    BigRational, |c| BigRational::new(BigInt::from(c.rng.range(-1000, 1000)), BigInt::from(c.rng.range(1, 60)));
    Complex<i64>, |c| Complex::new(c.rng.range(-1000, 1000), c.rng.range(-1000, 1000));
}
macro_rules! float { ($($t:ty, $eps:expr;)*) => { $( impl Num1 for $t {
    fn rnd(c: &mut Case) -> Self {
        match c.rng.below(6) {
            0 => 0.0,
            1 => c.rng.range(-9, 9) as $t,
            2 => (c.rng.f64(-1.0, 1.0) * 1e7) as $t,
            3 => (c.rng.f64(-1.0, 1.0) * 1e-7) as $t,
            _ => c.rng.f64(-10.0, 10.0) as $t,
        }
    }
    fn close(a: &Self, b: &Self, terms: usize, mag: f64) -> bool { ((*a as f64) - (*b as f64)).abs() <= mag * (terms as f64 + 4.0) * $eps * 2.0 }
    fn mag(&self) -> f64 { (*self as f64).abs() }
} )* } }
float! { f32, f32::EPSILON as f64; f64, f64::EPSILON; }

fn total<T: Num1>(xs: &[T]) -> T {
    // pairwise, unlike a left fold
    match xs.len() {
        0 => T::zero(),
        1 => xs[0].clone(),
        n => total(&xs[..n / 2]) + total(&xs[n / 2..]),
    }
}
fn vsum<T: Num1, N: ArrayLen<T>>(m: &mut Mon, kind: &str, n: usize, reps: u64) {
    m.case(&format!("sum+dot/{kind}/N{n}"), |c| {
        for k in 0..reps {
            let x: Vec<T> = (0..n).map(|_| T::rnd(c)).collect();
            let y: Vec<T> = (0..n).map(|_| T::rnd(c)).collect();
            let v: Vector<T, N> = Vector::generate(|i| x[i].clone());
            let w: Vector<T, N> = Vector::generate(|i| y[i].clone());
            let (got, want) = (v.sum(), total(&x));
            c.check(T::close(&got, &want, n, x.iter().map(T::mag).sum()), || format!("sum of {x:?} is {got:?}, expected {want:?}"));
            let p: Vec<T> = x.iter().zip(&y).map(|(a, b)| a.clone() * b.clone()).collect();
            let (got, want) = (v.dot(&w), total(&p));
            c.check(T::close(&got, &want, n, p.iter().map(T::mag).sum()), || format!("{x:?} dot {y:?} is {got:?}, expected {want:?}"));
            let p: Vec<T> = x.iter().map(|a| a.clone() * a.clone()).collect();
            let (got, want) = (v.dot(&v), total(&p));
            c.check(T::close(&got, &want, n, p.iter().map(T::mag).sum()), || format!("{x:?} dot itself is {got:?}, expected {want:?}"));
            // a single non-zero term at each position
            let i = (k as usize).checked_rem(n).unwrap_or(0);
            let u: Vector<T, N> = Vector::generate(|j| if j == i { x[j].clone() } else { T::zero() });
            if n > 0 {
                c.check(u.sum() == x[i], || format!("sum of a vector with {:?} at {i} and zeros is {:?}", x[i], u.sum()));
                let (got, want) = (u.dot(&w), x[i].clone() * y[i].clone());
                c.check(got == want, || format!("dot with one non-zero element at {i} is {got:?}, expected {want:?}"));
            }
            let h = c.rng.next();
            c.unit(h, n > 0);
        }
        c.sample(|| format!("sum and dot of {reps} {kind} vectors of length {n} against pairwise sums"));
    });
}
fn msum<T: Num1, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: &mut Mon, kind: &str, r: usize, k: usize, reps: u64) {
    m.case(&format!("matrix sum/{kind}/{r}x{k}"), |c| {
        for q in 0..reps {
            let x: Vec<T> = (0..r * k).map(|_| T::rnd(c)).collect();
            let a = Matrix::<T, R, C>::generate(|(i, j)| x[i * k + j].clone());
            let (got, want) = (a.sum(), total(&x));
            c.check(T::close(&got, &want, r * k, x.iter().map(T::mag).sum()), || format!("sum of {a:?} is {got:?}, expected {want:?}"));
            if r * k > 0 {
                let p = q as usize % (r * k);
                let a = Matrix::<T, R, C>::generate(|(i, j)| if i * k + j == p { x[p].clone() } else { T::zero() });
                c.check(a.sum() == x[p], || format!("sum with {:?} at ({},{}) and zeros is {:?}", x[p], p / k, p % k, a.sum()));
            }
            let h = c.rng.next();
            c.unit(h, r * k > 0);
        }
    });
}
fn cross<T: Num1 + std::ops::Sub<Output = T>>(m: &mut Mon, kind: &str, reps: u64) {
    m.case(&format!("cross/{kind}"), |c| {
        for k in 0..reps {
            let sparse = k % 4 == 0;
            let mut pick = |c: &mut Case| -> Vec<T> { (0..3).map(|_| if sparse && c.rng.chance(1, 2) { T::zero() } else { T::rnd(c) }).collect() };
            let (a, b) = (pick(c), pick(c));
            let (v, w) = (Vector::<T, U3>::generate(|i| a[i].clone()), Vector::<T, U3>::generate(|i| b[i].clone()));
            let got = v.cross(&w);
            for i in 0..3 {
                let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                let (p, q) = (a[j].clone() * b[k].clone(), a[k].clone() * b[j].clone());
                let mag = p.mag() + q.mag();
                let want = p - q;
                c.check(T::close(&got[i], &want, 2, mag), || format!("{a:?} cross {b:?} at {i} is {:?}, expected {want:?}", got[i]));
            }
            // with itself, as one object and as two
            let (own, other) = (v.cross(&v), v.cross(&v.clone()));
            for i in 0..3 {
                let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                let (p, q) = (a[j].clone() * a[k].clone(), a[k].clone() * a[j].clone());
                let mag = p.mag() + q.mag();
                let want = p - q;
                for got in [&own, &other] { c.check(T::close(&got[i], &want, 2, mag), || format!("{a:?} cross itself at {i} is {:?}, expected {want:?}", got[i])); }
            }
            let h = c.rng.next();
            c.unit(h, true);
        }
        c.sample(|| format!("{reps} cross products over {kind}"));
    });
}
macro_rules! norms { ($f:ident, $t:ty, $big:expr, $small:expr) => {
fn $f<N: ArrayLen<$t>>(m: &mut Mon, n: usize, reps: u64) {
    m.case(&format!("norm/{}/N{n}", stringify!($t)), |c| {
        for k in 0..reps {
            let scale: f64 = *c.rng.pick(&[1.0, 1.0, 1.0, 1e-3, 1e3, $big, $small]);
            let x: Vec<$t> = (0..n).map(|i| match (k % 5, c.rng.below(6)) {
                (4, _) => if (k / 5) % (n as u64 + 1) == i as u64 { -3.5 } else if i % 2 == 0 { 0.0 } else { -0.0 },
                (3, _) => c.rng.range(-5, 5) as $t,
                (_, 0) => 0.0,
                (_, 1) => (c.rng.f64(-1.0, 1.0) * 1e-3 * scale) as $t,
                _ => (c.rng.f64(-1.0, 1.0) * scale) as $t,
            }).collect();
            let v: Vector<$t, N> = Vector::generate(|i| x[i]);
            // computed scaled, in f64
            let mx = x.iter().fold(0f64, |m, a| m.max((*a as f64).abs()));
            let want = if mx == 0.0 { 0.0 } else { mx * x.iter().map(|a| { let q = *a as f64 / mx; q * q }).sum::<f64>().sqrt() };
            let eps = <$t>::EPSILON as f64 * (n as f64 + 8.0);
            let got = v.norm();
            c.check((got as f64 - want).abs() <= want * eps, || format!("norm of {x:?} is {got:?}, expected {want:?}"));
            let u = v.normalized();
            c.eq("length of normalized", &u.len(), &n);
            if want == 0.0 {
                // 0 divided by a norm of 0
                c.check(got == 0.0 && u.iter().all(|a| a.is_nan()), || format!("normalized {x:?} is {u:?}, expected every element divided by the norm {got:?}"));
                c.count("zero vectors normalized", (n > 0) as u64);
            }
            if want > 0.0 {
                for i in 0..n {
                    let w = x[i] as f64 / want;
                    c.check((u[i] as f64 - w).abs() <= w.abs() * eps * 2.0, || format!("normalized {x:?} at {i} is {:?}, expected {w:?}", u[i]));
                }
            }
            let h = c.rng.next();
            c.unit(h, mx > 0.0);
        }
        c.sample(|| format!("norm and normalized of {reps} vectors of length {n}"));
    });
} } }
norms!(norm64, f64, 1e100, 1e-100);
norms!(norm32, f32, 1e12, 1e-6);

/// Fills with distinct, tied, ascending, descending or constant keys, or one extreme element at each position.
fn keys(c: &mut Case, n: usize, k: u64) -> Vec<Keyed> {
    let kind = k % 7;
    let p = (k / 7) as usize % n.max(1);
    (0..n).map(|i| {
        let key = match kind {
            0 => c.rng.range(-1000, 1000),
            1 => c.rng.range(-2, 2),
            2 => i as i64,
            3 => -(i as i64),
            4 => 7,
            5 => if i == p { i64::MAX } else { i as i64 % 5 },
            _ => if i == p { i64::MIN } else { i as i64 % 5 },
        };
        Keyed { key, tag: i as u32 }
    }).collect()
}
type Cmp = fn(&Keyed, &Keyed) -> Ordering;
const ORDERS: [(&str, Cmp); 6] = [
    ("ascending", |a, b| a.key.cmp(&b.key)),
    ("descending", |a, b| b.key.cmp(&a.key)),
    ("by magnitude", |a, b| a.key.unsigned_abs().cmp(&b.key.unsigned_abs())),
    ("all equal", |_, _| Ordering::Equal),
    ("by last digit", |a, b| a.key.rem_euclid(10).cmp(&b.key.rem_euclid(10))),
    ("by tag", |a, b| (a.tag % 16).cmp(&(b.tag % 16))),
];
fn judge(c: &mut Case, what: &str, xs: &[Keyed], got: &Keyed, cmp: Cmp, greatest: bool) {
    let member = xs.get(got.tag as usize).map_or(false, |x| x.key == got.key && x.tag == got.tag);
    c.check(member, || format!("{what} of {xs:?} is {got:?}, which is not an element"));
    let worse = xs.iter().find(|x| cmp(x, got) == if greatest { Ordering::Greater } else { Ordering::Less });
    c.check(worse.is_none(), || format!("{what} of {xs:?} is {got:?}, but there is {worse:?}"));
}
macro_rules! extrema { ($c:ident, $n:expr, $reps:expr, $mk:expr) => {
    for k in 0..$reps {
        let xs = keys($c, $n, k);
        let v = $mk(&xs);
        let asc: Cmp = ORDERS[0].1;
        judge($c, "max", &xs, &v.max(), asc, true);
        judge($c, "min", &xs, &v.min(), asc, false);
        for (name, cmp) in ORDERS {
            let (mut foreign, mut n) = (None, 0u64);
            let mut f = |a: &Keyed, b: &Keyed| {
                n += 1;
                for x in [a, b] { if xs.get(x.tag as usize).map_or(true, |y| y.key != x.key) { foreign = Some(x.clone()); } }
                cmp(a, b)
            };
            let (hi, lo) = (v.max_by(&mut f), v.min_by(&mut f));
            judge($c, &format!("max_by {name}"), &xs, &hi, cmp, true);
            judge($c, &format!("min_by {name}"), &xs, &lo, cmp, false);
            $c.check(foreign.is_none(), || format!("comparison called with {foreign:?}, which is not an element"));
            $c.count("comparator calls", n);
        }
        let h = $c.rng.next();
        $c.unit(h, $n > 1);
    }
} }
fn vmax<N>(m: &mut Mon, n: usize, reps: u64, f: fn(&mut Case, u64)) { let _ = std::marker::PhantomData::<N>; m.case(&format!("extrema/N{n}"), |c| { f(c, reps); c.sample(|| format!("max, min and 6 orders on {reps} vectors of length {n}, ties included")); }); }
fn mmax<N>(m: &mut Mon, n: usize, reps: u64, f: fn(&mut Case, u64)) { m.case(&format!("matrix extrema/{n}x{n}"), |c| f(c, reps)); let _ = std::marker::PhantomData::<N>; }

fn clamp_check(c: &mut Case, what: &str, xs: &[Keyed], got: &[Keyed], lo: &Keyed, hi: &Keyed) {
    c.eq("clamped length", &got.len(), &xs.len());
    for (i, (x, g)) in xs.iter().zip(got).enumerate() {
        let want = if x.key < lo.key { lo.key } else if x.key > hi.key { hi.key } else { x.key };
        let inside = lo.key < x.key && x.key < hi.key;
        c.check(g.key == want && (!inside || g.tag == x.tag), || format!("{what}({lo:?}, {hi:?}) of {xs:?} at {i} is {g:?}, expected key {want}"));
    }
}
fn bounds(c: &mut Case, xs: &[Keyed]) -> (Keyed, Keyed) {
    let mut b = |t: u32| Keyed { key: if xs.is_empty() || c.rng.chance(1, 3) { c.rng.range(-1200, 1200) } else { c.rng.pick(xs).key.saturating_add(c.rng.range(-1, 1)) }, tag: t };
    let (a, b) = (b(900), b(901));
    if a.key <= b.key { (a, b) } else { (b, a) }
}
fn vclamp<N: ArrayLen<Keyed> + ArrayLen<u8> + ArrayLen<String>>(m: &mut Mon, n: usize, reps: u64) {
    m.case(&format!("clamp/N{n}"), |c| {
        for k in 0..reps {
            let xs = keys(c, n, k);
            let (lo, hi) = bounds(c, &xs);
            let mut v: Vector<Keyed, N> = Vector::generate(|i| xs[i].clone());
            clamp_check(c, "clamped", &xs, v.clamped(lo.clone(), hi.clone()).as_slice(), &lo, &hi);
            v.clamp(lo.clone(), hi.clone());
            clamp_check(c, "clamp", &xs, v.as_slice(), &lo, &hi);
            let b = c.rng.next();
            let (p, q) = ((b % 256) as u8, (b / 256 % 256) as u8);
            let (p, q) = (p.min(q), p.max(q));
            let v: Vector<u8, N> = Vector::generate(|i| mix(b ^ i as u64) as u8);
            c.eq("u8 clamped", &v.clamped(p, q).as_slice().to_vec(), &v.iter().map(|x| (*x).max(p).min(q)).collect::<Vec<_>>());
            c.unit(b, n > 0);
        }
        let v: Vector<String, N> = Vector::generate(|i| format!("{}", (i * 37) % 101));
        c.eq("String clamped", &v.clamped("2".into(), "55".into()).as_slice().to_vec(), &v.iter().map(|x| x.clone().max("2".into()).min("55".into())).collect::<Vec<_>>());
        c.sample(|| format!("clamped and clamp of {reps} vectors of length {n}, bounds next to elements"));
    });
}
fn mclamp<R: ArrayLen<Vector<Keyed, C>>, C: ArrayLen<Keyed>>(m: &mut Mon, r: usize, k: usize, reps: u64) {
    m.case(&format!("matrix clamp/{r}x{k}"), |c| {
        for q in 0..reps {
            let xs = keys(c, r * k, q);
            let (lo, hi) = bounds(c, &xs);
            let mut v = Matrix::<Keyed, R, C>::generate(|(i, j)| xs[i * k + j].clone());
            let flat = |v: &Matrix<Keyed, R, C>| -> Vec<Keyed> { v.rows_iter_ref().flat_map(|s| s.iter().cloned()).collect() };
            clamp_check(c, "clamped", &xs, &flat(&v.clamped(lo.clone(), hi.clone())), &lo, &hi);
            v.clamp(lo.clone(), hi.clone());
            clamp_check(c, "clamp", &xs, &flat(&v), &lo, &hi);
            let h = c.rng.next();
            c.unit(h, r * k > 0);
        }
    });
}
macro_rules! l { ($m:ident $q:expr => $n:ident, $nn:expr) => {
    vsum::<i64, $n>($m, "i64", $nn, $q); vsum::<f64, $n>($m, "f64", $nn, $q); vsum::<M2, $n>($m, "M2", $nn, $q);
    norm64::<$n>($m, $nn, $q); norm32::<$n>($m, $nn, $q);
    vclamp::<$n>($m, $nn, $q);
} }
macro_rules! k { ($m:ident $q:expr => $n:ident, $nn:expr) => {
    vsum::<i8, $n>($m, "i8", $nn, $q); vsum::<u16, $n>($m, "u16", $nn, $q); vsum::<i128, $n>($m, "i128", $nn, $q); vsum::<f32, $n>($m, "f32", $nn, $q);
    vsum::<std::num::Wrapping<u8>, $n>($m, "Wrapping<u8>", $nn, $q); vsum::<Fp<5>, $n>($m, "GF(5)", $nn, $q); vsum::<Fp<{ P61 }>, $n>($m, "GF(2^61-1)", $nn, $q);
    vsum::<BigInt, $n>($m, "BigInt", $nn, $q / 4); vsum::<BigRational, $n>($m, "Q", $nn, $q / 8); vsum::<Complex<i64>, $n>($m, "Complex<i64>", $nn, $q);
} }
macro_rules! s { ($m:ident $q:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    msum::<i64, $r, $c>($m, "i64", $rr, $cc, $q); msum::<f64, $r, $c>($m, "f64", $rr, $cc, $q); msum::<M2, $r, $c>($m, "M2", $rr, $cc, $q);
    mclamp::<$r, $c>($m, $rr, $cc, $q);
} }
macro_rules! vx { ($m:ident $q:expr => $n:ident, $nn:expr) => {
    vmax::<$n>($m, $nn, $q, |c, reps| extrema!(c, $nn, reps, |xs: &[Keyed]| Vector::<Keyed, $n>::generate(|i| xs[i].clone())));
} }
macro_rules! mx { ($m:ident $q:expr => $n:ident, $nn:expr) => {
    mmax::<$n>($m, $nn, $q, |c, reps| extrema!(c, $nn * $nn, reps, |xs: &[Keyed]| Matrix::<Keyed, $n, $n>::generate(|(i, j)| xs[i * $nn + j].clone())));
} }
fn main() {
    let mut mon = Mon::new("C15");
    let m = &mut mon;
    let q = m.scale(1, 96, 3000);
    for_lens! {l m q =>}
    for_lens_mid! {k m q =>}
    for_shapes! {s m (q / 4).max(1) =>}
    for_lens_pos! {vx m q * 3 =>}
    for_squares_pos! {mx m q =>}
    let q = q * 20;
    cross::<i64>(m, "i64", q);
    cross::<f64>(m, "f64", q);
    cross::<f32>(m, "f32", q);
    cross::<Fp<{ P61 }>>(m, "GF(2^61-1)", q);
    cross::<Fp<5>>(m, "GF(5)", q);
    cross::<BigRational>(m, "Q", q / 10);
    cross::<M2>(m, "M2", q);
    cross::<Complex<i64>>(m, "Complex<i64>", q);
    mon.finish();
}
