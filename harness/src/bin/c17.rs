//! C17: equality and approximate equality are element-wise.
use approx::ApproxEq;
use rcmon::elems::Elem;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::cell::RefCell;
use std::fmt::Debug;
use std::marker::PhantomData;

/// Left and right elements of different types; equal when the listed bit says so (no relation between values is
/// assumed, not even that an element equals itself).
#[derive(Clone, Copy, Debug)]
struct A(u64);
#[derive(Clone, Copy, Debug)]
struct Z(u64);
impl PartialEq<Z> for A { fn eq(&self, o: &Z) -> bool { rel(self.0, o.0) } }
impl PartialEq for A { fn eq(&self, o: &A) -> bool { rel(self.0, o.0) } }
/// Neither reflexive nor symmetric.
fn rel(a: u64, b: u64) -> bool { a % 1000 + 1 == b % 2000 }

/// Approximate equality that records its arguments; the tolerance type is not Copy.
#[derive(Clone, Debug)]
struct Ap { at: (usize, usize), rel: bool, ulps: bool }
thread_local! { static LOG: RefCell<Vec<((usize, usize), (usize, usize), String, String)>> = const { RefCell::new(vec![]) }; }
impl PartialEq for Ap { fn eq(&self, _: &Ap) -> bool { true } }
impl ApproxEq for Ap {
    type Epsilon = String;
    fn default_epsilon() -> String { "de".into() }
    fn default_max_relative() -> String { "dr".into() }
    fn default_max_ulps() -> u32 { 4321 }
    fn relative_eq(&self, o: &Ap, e: String, r: String) -> bool {
        LOG.with(|l| l.borrow_mut().push((self.at, o.at, e, r)));
        self.rel
    }
    fn ulps_eq(&self, o: &Ap, e: String, u: u32) -> bool {
        LOG.with(|l| l.borrow_mut().push((self.at, o.at, e, u.to_string())));
        self.ulps
    }
}
/// Equality that has nothing to do with the bytes: all values are equal, or none is (not even to itself).
#[derive(Clone, Copy, Debug)]
struct Odd<T>(T);
thread_local! { static ANY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
impl<T> PartialEq for Odd<T> { fn eq(&self, _: &Odd<T>) -> bool { ANY.with(|a| a.get()) } }
fn odd<T: Copy + Debug, N, R, C>(m: &mut Mon, kind: &str, n: usize, r: usize, k: usize, mk: fn(u64) -> T)
where
    N: ArrayLen<Odd<T>>, R: ArrayLen<Vector<Odd<T>, C>>, C: ArrayLen<Odd<T>>,
{
    m.case(&format!("not bytes/{kind}/N{n}/{r}x{k}"), |c| {
        let b = c.rng.next();
        for any in [false, true] {
            ANY.with(|a| a.set(any));
            let at = |i: usize| Odd(mk(mix(b ^ i as u64)));
            let v: Vector<Odd<T>, N> = Vector::generate(at);
            let same: Vector<Odd<T>, N> = Vector::generate(at);
            let other: Vector<Odd<T>, N> = Vector::generate(|i| at(i + 99));
            for (w, what) in [(&v, "itself"), (&same, "the same bytes"), (&other, "other bytes")] {
                c.check((v == *w) == (any || n == 0) && (v != *w) == !(any || n == 0), || format!("{v:?} == {what} is {}, elements compare {any}", v == *w));
            }
            let g = |d: usize| Matrix::<Odd<T>, R, C>::generate(|(i, j)| at(d + i * 40 + j));
            let (v, same, other, n) = (g(0), g(0), g(5), r * k);
            for (w, what) in [(&v, "itself"), (&same, "the same bytes"), (&other, "other bytes")] {
                c.check((v == *w) == (any || n == 0) && (v != *w) == !(any || n == 0), || format!("{v:?} == {what} is {}, elements compare {any}", v == *w));
            }
            c.unit(b ^ any as u64, n > 0);
        }
        c.sample(|| "a relation in which no (every) value equals any value".into());
    });
}
fn sub(n: usize, c: &mut Case) -> Vec<Vec<bool>> {
    let mut d = vec![vec![true; n], vec![false; n]];
    for p in 0..n { let mut v = vec![true; n]; v[p] = false; d.push(v); let mut v = vec![false; n]; v[p] = true; d.push(v); }
    for _ in 0..3 { d.push((0..n).map(|_| c.rng.chance(4, 5)).collect()); }
    d
}
fn vecs<N>(m: &mut Mon, n: usize)
where N: ArrayLen<A> + ArrayLen<Z> + ArrayLen<f64> + ArrayLen<String> + ArrayLen<&'static str> {
    m.case(&format!("vector/relation/N{n}"), |c| {
        for d in sub(n, c) {
            let b = c.rng.next();
            let l: Vector<A, N> = Vector::generate(|i| A(mix(b ^ i as u64)));
            let right = |i: usize| l.as_slice()[i].0 % 1000 + if d[i] { 1 } else { 2 + (b ^ i as u64) % 500 };
            let r: Vector<Z, N> = Vector::generate(|i| Z(right(i)));
            let ra: Vector<A, N> = Vector::generate(|i| A(right(i)));
            let want = d.iter().all(|x| *x);
            c.check((l == r) == want && (l != r) != want, || format!("A == Z is {}, equal elements {d:?}", l == r));
            c.check((l == ra) == want && (l != ra) != want, || format!("A == A is {}, equal elements {d:?}", l == ra));
            c.unit(b, n > 0);
        }
        let l: Vector<A, N> = Vector::generate(|i| A(i as u64));
        c.check((l == l) == (n == 0), || "an element that does not equal itself".into());
        c.sample(|| format!("a relation that is neither reflexive nor symmetric, one (un)equal pair at each of {n} positions"));
    });
    m.case(&format!("vector/values/N{n}"), |c| {
        let b = c.rng.next();
        const F: [f64; 7] = [0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, 5e-324, f64::MAX];
        let f = |i: usize| F[(mix(b ^ i as u64) % 7) as usize];
        let v: Vector<f64, N> = Vector::generate(f);
        c.check(v == v, || "vector unequal to itself".into());
        let flip: Vector<f64, N> = Vector::generate(|i| if f(i) == 0.0 { -f(i) } else { f(i) });
        c.check(v == flip, || "zeros of different sign compare unequal".into());
        for p in 0..n {
            for x in [f64::NAN, 2.0, -1.0] {
                let mut w: Vector<f64, N> = Vector::generate(f);
                w.as_slice_mut()[p] = x;
                c.check(v != w && !(v == w) && w != v, || format!("{v:?} == {w:?}"));
                if x.is_nan() { let u: Vector<f64, N> = Vector::generate(|i| w.as_slice()[i]); c.check(w != u && !(w == u), || format!("NaN at {p} compares equal")); }
            }
            let s: Vector<String, N> = Vector::generate(|i| format!("{}", i * 7));
            let mut t: Vector<String, N> = Vector::generate(|i| format!("{}", i * 7));
            c.check(s == t, || "equal strings compare unequal".into());
            t.as_slice_mut()[p].push(' ');
            c.check(s != t && t != s, || format!("strings differing at {p} compare equal"));
            let q: Vector<&'static str, N> = Vector::generate(|i| rcmon::elems::STRS[i % 5]);
            let mut u: Vector<String, N> = Vector::generate(|i| rcmon::elems::STRS[i % 5].to_string());
            c.check(u == q, || "String and &str compare unequal".into());
            u.as_slice_mut()[p].insert(0, 'x');
            c.check(u != q, || format!("String and &str differing at {p} compare equal"));
            c.unit(mix(p as u64), true);
        }
    });
}
fn mats<R, C>(m: &mut Mon, r: usize, k: usize)
where
    R: ArrayLen<Vector<A, C>> + ArrayLen<Vector<Ap, C>> + ArrayLen<Vector<f64, C>> + ArrayLen<Vector<f32, C>>,
    C: ArrayLen<A> + ArrayLen<Ap> + ArrayLen<f64> + ArrayLen<f32>,
{
    let n = r * k;
    m.case(&format!("matrix/relation/{r}x{k}"), |c| {
        for (q, d) in sub(n, c).into_iter().enumerate() {
            if n > 300 && q > 10 && q % 9 != 0 { continue; }
            let b = c.rng.next();
            let at = |i: usize, j: usize| mix(b ^ (i * 64 + j) as u64);
            let l = Matrix::<A, R, C>::generate(|(i, j)| A(at(i, j)));
            let ra = Matrix::<A, R, C>::generate(|(i, j)| A(at(i, j) % 1000 + if d[i * k + j] { 1 } else { 3 + j as u64 }));
            let want = d.iter().all(|x| *x);
            c.check((l == ra) == want && (l != ra) != want, || format!("A == A is {}, equal elements {d:?}", l == ra));
            let copy = Matrix::<A, R, C>::generate(|(i, j)| A(at(i, j)));
            c.check((l == copy) == (0..n).all(|q| rel(at(q / k, q % k), at(q / k, q % k))), || format!("A == A is {} for the same bytes", l == copy));
            // with itself: still asks its elements
            for ulps in [false, true] {
                let x = Matrix::<Ap, R, C>::generate(|(i, j)| Ap { at: (i, j), rel: d[i * k + j] || ulps, ulps: d[i * k + j] || !ulps });
                let (got, ne) = if ulps { (x.ulps_eq(&x, "eps".into(), 77), x.ulps_ne(&x, "eps".into(), 77)) } else { (x.relative_eq(&x, "eps".into(), "max".into()), x.relative_ne(&x, "eps".into(), "max".into())) };
                c.check(got == want && ne != want, || format!("approximate equality with itself (ulps {ulps}) is {got}, close elements {d:?}"));
            }
            // approximate: every pair with the same tolerances
            for ulps in [false, true] {
                let x = Matrix::<Ap, R, C>::generate(|(i, j)| Ap { at: (i, j), rel: d[i * k + j] || ulps, ulps: d[i * k + j] || !ulps });
                let y = Matrix::<Ap, R, C>::generate(|(i, j)| Ap { at: (i, j + 1000), rel: false, ulps: false });
                LOG.with(|l| l.borrow_mut().clear());
                let got = if ulps { x.ulps_eq(&y, "eps".into(), 77) } else { x.relative_eq(&y, "eps".into(), "max".into()) };
                c.check(got == want, || format!("approximate equality (ulps {ulps}) is {got}, close elements {d:?}"));
                let tol = if ulps { "77" } else { "max" };
                LOG.with(|l| for (a, b, e, t) in l.borrow().iter() {
                    c.check(b.0 == a.0 && b.1 == a.1 + 1000 && e == "eps" && t == tol, || format!("element {a:?} compared with {b:?}, tolerances {e}, {t}"));
                });
                let ne = if ulps { x.ulps_ne(&y, "eps".into(), 77) } else { x.relative_ne(&y, "eps".into(), "max".into()) };
                c.check(ne != want, || "negated approximate equality".into());
            }
            c.unit(b, n > 0);
        }
        type M<R, C> = Matrix<Ap, R, C>;
        c.eq("default tolerances", &(M::<R, C>::default_epsilon(), M::<R, C>::default_max_relative(), M::<R, C>::default_max_ulps()), &("de".to_string(), "dr".to_string(), 4321));
        c.sample(|| format!("recorded tolerances and pairs, one far pair at each position of {r}x{k}"));
    });
    macro_rules! floats { ($t:ty, $nm:expr) => {
        m.case(&format!("matrix/{}/{r}x{k}", $nm), |c| {
            for round in 0..20u64 {
                let b = c.rng.next();
                let base: $t = [1.0, 1e-3, 1e10, -7.5, 0.0, -1e-20][(round % 6) as usize];
                let x = Matrix::<$t, R, C>::generate(|(i, j)| base * (1.0 + ((mix(b ^ (i * 64 + j) as u64) % 1000) as $t) / 1000.0));
                // perturbed a little everywhere, more at one place
                let p = if n > 0 { (round as usize * 7) % n } else { 0 };
                let ulp = |v: $t, k: i64| -> $t { let bits = v.to_bits() as i64 + k; <$t>::from_bits(bits as _) };
                let big = [0i64, 1, 3, 5, 100, 1 << 12][c.rng.usize(6)];
                let y = Matrix::<$t, R, C>::generate(|(i, j)| ulp(x[(i, j)], if i * k + j == p { big } else { (mix(b ^ (i + 9 * j) as u64) % 3) as i64 }));
                let y = if round == 19 { y.map(|(i, j), v| if i * k + j == p { <$t>::NAN } else { v }) } else { y };
                for eps in [0.0, <$t>::EPSILON, 1e-3] {
                    for mr in [0.0, <$t>::EPSILON, 1e-6 as $t, 1e-2] {
                        let want = (0..r).all(|i| (0..k).all(|j| x[(i, j)].relative_eq(&y[(i, j)], eps, mr)));
                        c.check(x.relative_eq(&y, eps, mr) == want && x.relative_ne(&y, eps, mr) != want, || format!("relative_eq({eps}, {mr}) of {x:?} and {y:?}: expected {want}"));
                        c.count(if want { "close by relative_eq" } else { "far by relative_eq" }, 1);
                    }
                    for u in [0, 1, 2, 4, 200] {
                        let want = (0..r).all(|i| (0..k).all(|j| x[(i, j)].ulps_eq(&y[(i, j)], eps, u)));
                        c.check(x.ulps_eq(&y, eps, u) == want && x.ulps_ne(&y, eps, u) != want, || format!("ulps_eq({eps}, {u}) of {x:?} and {y:?}: expected {want}"));
                        c.count(if want { "close by ulps_eq" } else { "far by ulps_eq" }, 1);
                    }
                }
                let want = (0..r).all(|i| (0..k).all(|j| x[(i, j)] == y[(i, j)]));
                c.check((x == y) == want && (x != y) != want, || format!("{x:?} == {y:?}"));
                let z = y.clone();
                let (rel, ul) = ((0..r).all(|i| (0..k).all(|j| y[(i, j)].relative_eq(&y[(i, j)], 0.0, 0.0))), (0..r).all(|i| (0..k).all(|j| y[(i, j)].ulps_eq(&y[(i, j)], 0.0, 0))));
                c.check(y.relative_eq(&y, 0.0, 0.0) == rel && z.relative_eq(&y, 0.0, 0.0) == rel && y.ulps_eq(&y, 0.0, 0) == ul && z.ulps_eq(&y, 0.0, 0) == ul, || format!("{y:?} approximately equal to itself: expected {rel} and {ul}"));
                let nan = (0..r).any(|i| (0..k).any(|j| y[(i, j)].is_nan()));
                c.check((z == y) != nan && (y == y) != nan && (z != y) == nan, || format!("{y:?} == the same bytes is {}", z == y));
                c.unit(b, n > 0);
            }
            c.eq("default tolerances", &(Matrix::<$t, R, C>::default_epsilon(), Matrix::<$t, R, C>::default_max_relative(), Matrix::<$t, R, C>::default_max_ulps()), &(<$t>::default_epsilon(), <$t>::default_max_relative(), <$t>::default_max_ulps()));
        });
    } }
    floats!(f64, "f64");
    floats!(f32, "f32");
}
fn widths<T: Elem, N, R, C>(m: &mut Mon, kind: &str, n: usize, r: usize, k: usize)
where N: ArrayLen<T>, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    m.case(&format!("values/{kind}/N{n}/{r}x{k}"), |c| {
        let b = c.rng.next();
        let at = |i: usize| T::mk(mix(b ^ i as u64));
        let v: Vector<T, N> = Vector::generate(at);
        let w: Vector<T, N> = Vector::generate(at);
        c.check(v == w, || format!("{v:?} != {w:?}"));
        for p in 0..n {
            for q in 0..4 {
                let x = T::mk(mix(b ^ (q * 7919 + p as u64)));
                let same = x == at(p);
                let mut u: Vector<T, N> = Vector::generate(at);
                u.as_slice_mut()[p] = x;
                c.check((u == w) == same && (w == u) == same && (w != u) != same, || format!("{u:?} == {w:?} is {}", u == w));
                c.unit(mix(b ^ p as u64) ^ q, true);
            }
        }
        let g = |i: usize, j: usize| T::mk(mix(!b ^ (i * 64 + j) as u64));
        let w = Matrix::<T, R, C>::generate(|(i, j)| g(i, j));
        for p in 0..r * k {
            let x = T::mk(mix(b ^ (977 * p) as u64));
            let same = x == g(p / k, p % k);
            let mut u = Matrix::<T, R, C>::generate(|(i, j)| g(i, j));
            c.check(u == w, || format!("{u:?} != {w:?}"));
            u[(p / k, p % k)] = x;
            c.check((u == w) == same && (w == u) == same && (w != u) != same, || format!("{u:?} == {w:?} is {}", u == w));
            c.unit(mix(b ^ p as u64), true);
        }
    });
}
/// Which types claim total equality.
struct P<T>(PhantomData<T>);
trait Nope { const EQ: bool = false; const PEQ: bool = false; }
impl<T> Nope for P<T> {}
impl<T: Eq> P<T> { #[allow(unused)] const EQ: bool = true; }
struct P2<T>(PhantomData<T>);
trait Nope2 { const PEQ: bool = false; }
impl<T> Nope2 for P2<T> {}
impl<T: PartialEq> P2<T> { #[allow(unused)] const PEQ: bool = true; }
/// Neither.
struct None0;
#[derive(PartialEq)]
struct Part;
#[derive(PartialEq, Eq)]
struct Full;
macro_rules! claims { ($out:ident $n:expr; $($what:expr, $t:ty, $peq:expr, $eq:expr;)*) => { $( $out.push(($n, $what, P2::<$t>::PEQ, $peq, P::<$t>::EQ, $eq)); )* } }
macro_rules! ve { ($out:ident => $n:ident, $nn:expr) => { claims! { $out format!("N{}", $nn);
    "Vector<f32>", Vector<f32, $n>, true, false;
    "Vector<f64>", Vector<f64, $n>, true, false;
    "Vector<i32>", Vector<i32, $n>, true, true;
    "Vector<String>", Vector<String, $n>, true, true;
    "Vector<Part>", Vector<Part, $n>, true, false;
    "Vector<Full>", Vector<Full, $n>, true, true;
    "Vector<None0>", Vector<None0, $n>, false, false;
    "Vector<Option<f32>>", Vector<Option<f32>, $n>, true, false;
    "Vector<Vector<f32,2>>", Vector<Vector<f32, U2>, $n>, true, false;
    "Vector<Vector<u8,2>>", Vector<Vector<u8, U2>, $n>, true, true;
} } }
macro_rules! me { ($out:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => { claims! { $out format!("{}x{}", $rr, $cc);
    "Matrix<f32>", Matrix<f32, $r, $c>, true, false;
    "Matrix<f64>", Matrix<f64, $r, $c>, true, false;
    "Matrix<i32>", Matrix<i32, $r, $c>, true, true;
    "Matrix<Part>", Matrix<Part, $r, $c>, true, false;
    "Matrix<Full>", Matrix<Full, $r, $c>, true, true;
    "Matrix<None0>", Matrix<None0, $r, $c>, false, false;
    "Matrix<Matrix<f64,1,1>>", Matrix<Matrix<f64, U1, U1>, $r, $c>, true, false;
} } }
macro_rules! l { ($m:ident => $n:ident, $nn:expr) => { vecs::<$n>($m, $nn); } }
macro_rules! s { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => { mats::<$r, $c>($m, $rr, $cc); } }
macro_rules! w { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    widths::<u8, $c, $r, $c>($m, "u8", $cc, $rr, $cc);
    widths::<i32, $c, $r, $c>($m, "i32", $cc, $rr, $cc);
    widths::<u64, $c, $r, $c>($m, "u64", $cc, $rr, $cc);
    widths::<u128, $c, $r, $c>($m, "u128", $cc, $rr, $cc);
    widths::<bool, $c, $r, $c>($m, "bool", $cc, $rr, $cc);
    widths::<(u8, u64), $c, $r, $c>($m, "(u8,u64)", $cc, $rr, $cc);
    odd::<(), $c, $r, $c>($m, "()", $cc, $rr, $cc, |_| ());
    odd::<u8, $c, $r, $c>($m, "u8", $cc, $rr, $cc, |x| x as u8);
    odd::<u16, $c, $r, $c>($m, "u16", $cc, $rr, $cc, |x| x as u16);
    odd::<[u8; 3], $c, $r, $c>($m, "[u8; 3]", $cc, $rr, $cc, |x| [x as u8, (x >> 8) as u8, (x >> 16) as u8]);
    odd::<u32, $c, $r, $c>($m, "u32", $cc, $rr, $cc, |x| x as u32);
    odd::<u64, $c, $r, $c>($m, "u64", $cc, $rr, $cc, |x| x);
    odd::<u128, $c, $r, $c>($m, "u128", $cc, $rr, $cc, |x| x as u128);
    odd::<(u8, u64), $c, $r, $c>($m, "(u8,u64)", $cc, $rr, $cc, |x| (x as u8, x));
    widths::<Option<Box<u16>>, $c, $r, $c>($m, "Option<Box<u16>>", $cc, $rr, $cc);
} }
fn main() {
    let mut mon = Mon::new("C17");
    let m = &mut mon;
    for round in 0..if m.thorough { 10 } else { 1 } {
        m.round = round;
        for_lens! {l m =>}
        for_shapes! {s m =>}
        for_shapes_small! {w m =>}
    }
    m.case("claims", |c| {
        let mut out = vec![];
        for_lens! {ve out =>}
        for_shapes_mid! {me out =>}
        for (n, what, peq, wpeq, eq, weq) in out {
            c.check(peq == wpeq, || format!("{what} of size {n}: PartialEq is {peq}"));
            c.check(eq == weq, || format!("{what} of size {n}: Eq is {eq}"));
            c.unit(hash_str(what) ^ hash_str(&n), true);
        }
    });
    mon.finish();
}
fn _unused(_: &dyn Debug) {}
