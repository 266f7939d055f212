//! C07: vector arithmetic is position-wise in every operand form.
use rcmon::sym::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};

fn same_f64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn symbolic<N>(m: &mut Mon, n: usize, reps: u64)
where
    N: ArrayLen<L> + ArrayLen<Rt> + ArrayLen<Out>,
{
    m.case(&format!("symbolic/N{n}"), |c| {
        for _ in 0..reps {
            let (a, b, s) = (c.rng.next(), c.rng.next(), c.rng.next());
            // sometimes repeated values, so that an implementation keying on equality would show
            let (am, bm) = if c.rng.chance(1, 4) { (3, 2) } else { (u64::MAX, u64::MAX) };
            let x = |i: usize| mix(a ^ i as u64) % am;
            let y = |i: usize| mix(b ^ i as u64) % bm;
            let l = || Vector::<L, N>::generate(|i| L(x(i)));
            let r = || Vector::<Rt, N>::generate(|i| Rt(y(i)));
            macro_rules! form {
                ($name:expr, $op:expr, $e:expr, $rr:expr) => {{
                    ops_reset();
                    let got: Vector<Out, N> = $e;
                    c.eq(concat!($name, ": element operations"), &ops(), &(n as u64));
                    let want: Vec<Out> = (0..n).map(|i| out($op, x(i), $rr(i))).collect();
                    c.check(got.as_slice() == &want[..], || format!("{}: got {:?}, expected {:?}", $name, got, want));
                    c.unit(mix(a ^ hash_str($name)), n > 0);
                }};
            }
            form!("T+U", "T+U", l() + r(), y);
            form!("T-U", "T-U", l() - r(), y);
            { let w = r(); form!("T+&U", "T+&U", l() + &w, y); form!("T-&U", "T-&U", l() - &w, y); }
            { let v = l(); form!("&T+U", "&T+U", &v + r(), y); form!("&T-U", "&T-U", &v - r(), y); }
            { let (v, w) = (l(), r()); form!("&T+&U", "&T+&U", &v + &w, y); form!("&T-&U", "&T-&U", &v - &w, y); }
            let sc = |_: usize| s;
            form!("T*s", "T*U", l() * Sc(s), sc);
            form!("T/s", "T/U", l() / Sc(s), sc);
            { let k = Sc(s); form!("T*&s", "T*&U", l() * &k, sc); form!("T/&s", "T/&U", l() / &k, sc); }
            form!("-T", "-T", -l(), |_| 0);
            macro_rules! inplace {
                ($name:expr, $v:ident, $e:expr, $rr:expr) => {{
                    let mut $v = l();
                    ops_reset();
                    $e;
                    c.eq(concat!($name, ": element operations"), &ops(), &(n as u64));
                    let want: Vec<L> = (0..n).map(|i| L(upd($name, x(i), $rr(i)))).collect();
                    c.check($v.as_slice() == &want[..], || format!("{}: got {:?}, expected {:?}", $name, $v, want));
                    c.unit(mix(a ^ hash_str($name)), n > 0);
                }};
            }
            inplace!("+=", v, v += r(), y);
            inplace!("-=", v, v -= r(), y);
            inplace!("*=", v, v *= Sc(s), sc);
            inplace!("/=", v, v /= Sc(s), sc);
        }
        c.sample(|| format!("17 operand forms on vectors of {n} symbolic elements, {reps} value sets"));
    });
}

fn concrete<N>(m: &mut Mon, n: usize, reps: u64)
where
    N: ArrayLen<f64> + ArrayLen<i64> + ArrayLen<String> + ArrayLen<&'static str> + ArrayLen<u8> + ArrayLen<std::num::Wrapping<u8>> + ArrayLen<num::BigInt>
        + ArrayLen<num::Complex<i64>> + for<'a> ArrayLen<&'a f64>,
{
    const F: [f64; 14] = [0.0, -0.0, 1.0, -1.0, 0.1, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.5e10, -7.25];
    m.case(&format!("f64/N{n}"), |c| {
        for _ in 0..reps {
            let mut pickf = |c: &mut Case| -> Vec<f64> { (0..n).map(|_| if c.rng.chance(1, 3) { c.rng.f64(-1e6, 1e6) } else { *c.rng.pick(&F) }).collect() };
            let (x, y) = (pickf(c), pickf(c));
            let s = *c.rng.pick(&F);
            let v: Vector<f64, N> = x.iter().cloned().collect();
            let w: Vector<f64, N> = y.iter().cloned().collect();
            let mut chk = |name: &str, got: &Vector<f64, N>, want: Vec<f64>| {
                c.check(got.len() == n && got.iter().zip(&want).all(|(a, b)| same_f64(*a, *b)), || format!("{name}: {:?} and {:?} (s {s}): got {:?}, expected {:?}", x, y, got, want));
                c.unit(hash_str(name) ^ x.iter().fold(s.to_bits(), |h, f| mix(h ^ f.to_bits())), n > 0);
            };
            let z = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect() };
            let add = |a: f64, b: f64| a + b;
            let sub = |a: f64, b: f64| a - b;
            chk("v+w", &(v.clone() + w.clone()), z(&add));
            chk("v+&w", &(v.clone() + &w), z(&add));
            chk("&v+w", &(&v + w.clone()), z(&add));
            chk("&v+&w", &(&v + &w), z(&add));
            chk("v-w", &(v.clone() - w.clone()), z(&sub));
            chk("v-&w", &(v.clone() - &w), z(&sub));
            chk("&v-w", &(&v - w.clone()), z(&sub));
            chk("&v-&w", &(&v - &w), z(&sub));
            chk("&v+&v", &(&v + &v), x.iter().map(|a| a + a).collect());
            chk("&v-&v", &(&v - &v), x.iter().map(|a| a - a).collect());
            chk("v*s", &(v.clone() * s), x.iter().map(|a| a * s).collect());
            chk("v/s", &(v.clone() / s), x.iter().map(|a| a / s).collect());
            chk("v*&s", &(v.clone() * &s), x.iter().map(|a| a * s).collect());
            chk("-v", &(-v.clone()), x.iter().map(|a| -a).collect());
            let mut u = v.clone(); u += w.clone(); chk("v+=w", &u, z(&add));
            let mut u = v.clone(); u -= w.clone(); chk("v-=w", &u, z(&sub));
            let mut u = v.clone(); u *= s; chk("v*=s", &u, x.iter().map(|a| a * s).collect());
            let mut u = v.clone(); u /= s; chk("v/=s", &u, x.iter().map(|a| a / s).collect());
        }
        c.sample(|| format!("all forms on f64 vectors of length {n} with NaN, infinities, signed zeros, subnormals"));
    });
    m.case(&format!("mixed/N{n}"), |c| {
        let b = c.rng.next();
        // string concatenation: mixed types, not commutative
        let v: Vector<String, N> = Vector::generate(|i| format!("{}", mix(b ^ i as u64) % 1000));
        let w: Vector<&'static str, N> = Vector::generate(|i| rcmon::elems::STRS[i % 5]);
        let w2 = w.clone();
        let got: Vec<String> = (v.clone() + w).into_iter().collect();
        let want: Vec<String> = (0..n).map(|i| format!("{}{}", v[i], rcmon::elems::STRS[i % 5])).collect();
        c.eq("String + &str", &got, &want);
        let mut u = v.clone();
        u += w2;
        c.eq("String += &str", &u.as_slice().to_vec(), &want);
        // integers, wrapping, big
        let x: Vec<i64> = (0..n).map(|_| c.rng.range(-1 << 30, 1 << 30)).collect();
        let v: Vector<i64, N> = x.iter().cloned().collect();
        c.eq("i64 - scalar forms", &(v.clone() * 3 / 7).as_slice().to_vec(), &x.iter().map(|a| a * 3 / 7).collect());
        let wv: Vector<std::num::Wrapping<u8>, N> = Vector::generate(|i| std::num::Wrapping((i * 37) as u8));
        let ww: Vector<std::num::Wrapping<u8>, N> = Vector::generate(|i| std::num::Wrapping((i * 91 + 5) as u8));
        c.check((&wv - &ww).iter().enumerate().all(|(i, a)| a.0 == ((i * 37) as u8).wrapping_sub((i * 91 + 5) as u8)), || "Wrapping difference".into());
        use num::BigInt;
        let bv: Vector<BigInt, N> = Vector::generate(|i| BigInt::from(x[i]) * BigInt::from(i64::MAX) * BigInt::from(i64::MAX));
        let bw: Vector<BigInt, N> = Vector::generate(|i| BigInt::from(i as i64) * BigInt::from(i64::MIN) * BigInt::from(i64::MAX));
        let d = &bv - &bw;
        c.check((0..n).all(|i| d[i].clone() + bw[i].clone() == bv[i]), || format!("BigInt difference {:?} of {:?} and {:?}", d, bv, bw));
        let neg = -bv.clone();
        c.check((0..n).all(|i| neg[i].clone() == BigInt::from(0) - bv[i].clone()), || "BigInt negation".into());
        use num::Complex;
        let cv: Vector<Complex<i64>, N> = Vector::generate(|i| Complex::new(x[i] % 1000, i as i64));
        let k = Complex::new(2, -3);
        c.check((cv.clone() * k).iter().enumerate().all(|(i, z)| *z == Complex::new(cv[i].re * 2 + cv[i].im * 3, cv[i].im * 2 - cv[i].re * 3)), || "Complex scaling".into());
        c.unit(b, n > 0);
    });
}
/// Elements of every width.
fn widths<T, N>(m: &mut Mon, kind: &str, n: usize, mk: fn(u64) -> T, k: T)
where
    T: Copy + PartialEq + std::fmt::Debug + num::Num + std::ops::Neg<Output = T> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign
        + for<'a> std::ops::Add<&'a T, Output = T> + for<'a> std::ops::Sub<&'a T, Output = T>,
    N: ArrayLen<T>,
{
    m.case(&format!("width/{kind}/N{n}"), |c| {
        let b = c.rng.next();
        let (x, y): (Vec<T>, Vec<T>) = ((0..n).map(|i| mk(mix(b ^ i as u64))).collect(), (0..n).map(|i| mk(mix(!b ^ i as u64))).collect());
        let v: Vector<T, N> = Vector::generate(|i| x[i]);
        let w: Vector<T, N> = Vector::generate(|i| y[i]);
        let z = |f: &dyn Fn(T, T) -> T| -> Vec<T> { x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect() };
        c.eq("v+w", &(v.clone() + w.clone()).as_slice().to_vec(), &z(&|a, b| a + b));
        c.eq("v+&w", &(v.clone() + &w).as_slice().to_vec(), &z(&|a, b| a + b));
        c.eq("v-w", &(v.clone() - w.clone()).as_slice().to_vec(), &z(&|a, b| a - b));
        c.eq("v-&w", &(v.clone() - &w).as_slice().to_vec(), &z(&|a, b| a - b));
        c.eq("v*s", &(v.clone() * k).as_slice().to_vec(), &z(&|a, _| a * k));
        c.eq("v/s", &(v.clone() / k).as_slice().to_vec(), &z(&|a, _| a / k));
        c.eq("-v", &(-v.clone()).as_slice().to_vec(), &z(&|a, _| -a));
        let mut u = v.clone(); u += w.clone(); c.eq("v+=w", &u.as_slice().to_vec(), &z(&|a, b| a + b));
        let mut u = v.clone(); u -= w.clone(); c.eq("v-=w", &u.as_slice().to_vec(), &z(&|a, b| a - b));
        let mut u = v.clone(); u *= k; c.eq("v*=s", &u.as_slice().to_vec(), &z(&|a, _| a * k));
        c.unit(b, n > 0);
    });
}
macro_rules! w { ($m:ident => $n:ident, $nn:expr) => {
    widths::<i8, $n>($m, "i8", $nn, |k| (k % 64) as i8 - 32, 3);
    widths::<i16, $n>($m, "i16", $nn, |k| (k % 9000) as i16 - 4000, 3);
    widths::<i32, $n>($m, "i32", $nn, |k| (k >> 36) as i32, -3);
    widths::<i128, $n>($m, "i128", $nn, |k| (k as i128) << 50, 5);
    widths::<f32, $n>($m, "f32", $nn, |k| (k >> 40) as f32, 3.0);
} }
macro_rules! s { ($m:ident $r:expr => $n:ident, $nn:expr) => { symbolic::<$n>($m, $nn, $r); } }
macro_rules! k { ($m:ident $r:expr => $n:ident, $nn:expr) => { concrete::<$n>($m, $nn, $r); } }

fn main() {
    let mut mon = Mon::new("C07");
    let m = &mut mon;
    let r = m.scale(2, 200, 5000);
    for_lens! {s m r =>}
    let r = m.scale(1, 100, 3000);
    for_lens_mid! {k m r =>}
    for_lens_mid! {w m =>}
    mon.finish();
}
