//! C08: matrix element-wise arithmetic matches positions in every form.
use rcmon::model::*;
use rcmon::sym::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};

fn flat<T: Clone, R, C>(m: Matrix<T, R, C>, r: usize, cc: usize) -> Vec<T>
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    (0..r).flat_map(|i| (0..cc).map(move |j| (i, j))).map(|p| m[p].clone()).collect()
}

fn symbolic<R, C>(m: &mut Mon, r: usize, cc: usize, reps: u64)
where
    R: ArrayLen<Vector<E, C>> + ArrayLen<Vector<Rt, C>> + ArrayLen<Vector<Out, C>>,
    C: ArrayLen<E> + ArrayLen<Rt> + ArrayLen<Out>,
{
    m.case(&format!("symbolic/{r}x{cc}"), |c| {
        let n = r * cc;
        for _ in 0..reps {
            let (a, b, s) = (c.rng.next(), c.rng.next(), c.rng.next());
            let (am, bm) = if c.rng.chance(1, 4) { (3, 2) } else { (u64::MAX, u64::MAX) };
            let x = |k: usize| mix(a ^ k as u64) % am;
            let y = |k: usize| mix(b ^ k as u64) % bm;
            let l = || Matrix::<E, R, C>::generate(|(i, j)| E(x(i * cc + j)));
            let rr = || Matrix::<E, R, C>::generate(|(i, j)| E(y(i * cc + j)));
            let ru = || Matrix::<Rt, R, C>::generate(|(i, j)| Rt(y(i * cc + j)));
            macro_rules! form {
                ($name:expr, $e:expr, $rr:expr) => {{
                    ops_reset();
                    let got: Matrix<Out, R, C> = $e;
                    c.eq(concat!($name, ": element operations"), &ops(), &(n as u64));
                    let got = flat(got, r, cc);
                    let want: Vec<Out> = (0..n).map(|i| out($name, x(i), $rr(i))).collect();
                    c.check(got == want, || format!("{}: got {:?}, expected {:?}", $name, got, want));
                    c.unit(mix(a ^ hash_str($name)), n > 0);
                }};
            }
            form!("T+U", l() + rr(), y);
            form!("T-U", l() - rr(), y);
            { let w = rr(); form!("T+&U", l() + &w, y); form!("T-&U", l() - &w, y); }
            { let v = l(); form!("&T+U", &v + rr(), y); form!("&T-U", &v - rr(), y); }
            { let (v, w) = (l(), rr()); form!("&T+&U", &v + &w, y); form!("&T-&U", &v - &w, y); }
            { let v = l(); ops_reset(); let g: Matrix<Out, R, C> = &v + &v; c.eq("&m + &m", &flat(g, r, cc), &(0..n).map(|i| out("&T+&U", x(i), x(i))).collect()); }
            form!("-T", -l(), |_| 0);
            macro_rules! scaled {
                ($name:expr, $e:expr) => {{
                    ops_reset();
                    let got: Matrix<E, R, C> = $e;
                    c.eq(concat!($name, ": element operations"), &ops(), &(n as u64));
                    let got = flat(got, r, cc);
                    let want: Vec<E> = (0..n).map(|i| E(upd($name, x(i), s))).collect();
                    c.check(got == want, || format!("{}: got {:?}, expected {:?}", $name, got, want));
                    c.unit(mix(a ^ hash_str($name)), n > 0);
                }};
            }
            let k = E(s);
            scaled!("T*T", l() * E(s));
            scaled!("T/T", l() / E(s));
            scaled!("T*&T", l() * &k);
            scaled!("T/&T", l() / &k);
            macro_rules! inplace {
                ($name:expr, $v:ident, $e:expr, $rr:expr) => {{
                    let mut $v = l();
                    ops_reset();
                    $e;
                    c.eq(concat!($name, ": element operations"), &ops(), &(n as u64));
                    let got = flat($v, r, cc);
                    let want: Vec<E> = (0..n).map(|i| E(upd($name, x(i), $rr(i)))).collect();
                    c.check(got == want, || format!("{}: got {:?}, expected {:?}", $name, got, want));
                    c.unit(mix(a ^ hash_str($name)), n > 0);
                }};
            }
            let sc = |_: usize| s;
            inplace!("+=", v, v += ru(), y);
            inplace!("-=", v, v -= ru(), y);
            inplace!("*=", v, v *= E(s), sc);
            inplace!("/=", v, v /= E(s), sc);
        }
        c.sample(|| format!("17 operand forms on {r}x{cc} symbolic matrices, {reps} value sets"));
    });
}

fn concrete<R, C>(m: &mut Mon, r: usize, cc: usize, reps: u64)
where
    R: ArrayLen<Vector<f64, C>> + ArrayLen<Vector<num::BigInt, C>>,
    C: ArrayLen<f64> + ArrayLen<num::BigInt>,
{
    const F: [f64; 12] = [0.0, -0.0, 1.0, -1.0, 0.1, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.5e10, -7.25];
    m.case(&format!("f64/{r}x{cc}"), |c| {
        for _ in 0..reps {
            let g = |c: &mut Case| -> Grid<f64> { gen_grid(r, cc, |_, _| if c.rng.chance(1, 3) { c.rng.f64(-1e6, 1e6) } else { *c.rng.pick(&F) }) };
            let (x, y, s) = (g(c), g(c), *c.rng.pick(&F));
            let a: Matrix<f64, R, C> = mat_of(x.clone());
            let b: Matrix<f64, R, C> = mat_of(y.clone());
            let mut chk = |name: &str, got: &Matrix<f64, R, C>, f: &dyn Fn(f64, f64) -> f64| {
                let mut bad = None;
                for i in 0..r { for j in 0..cc {
                    let (p, q) = (got[(i, j)], f(x[i][j], y[i][j]));
                    if !(p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan()) { bad = Some((i, j, p, q)) }
                } }
                c.check(bad.is_none(), || format!("{name} (s {s}): (i, j, got, expected) {:?}", bad));
                c.unit(hash_str(name) ^ x.iter().flatten().fold(s.to_bits(), |h, f| mix(h ^ f.to_bits())), r * cc > 0);
            };
            chk("a+b", &(a.clone() + b.clone()), &|p, q| p + q);
            chk("a+&b", &(a.clone() + &b), &|p, q| p + q);
            chk("&a+b", &(&a + b.clone()), &|p, q| p + q);
            chk("&a+&b", &(&a + &b), &|p, q| p + q);
            chk("a-b", &(a.clone() - b.clone()), &|p, q| p - q);
            chk("a-&b", &(a.clone() - &b), &|p, q| p - q);
            chk("&a-b", &(&a - b.clone()), &|p, q| p - q);
            chk("&a-&b", &(&a - &b), &|p, q| p - q);
            chk("-a", &(-a.clone()), &|p, _| -p);
            chk("a*s", &(a.clone() * s), &|p, _| p * s);
            chk("a*&s", &(a.clone() * &s), &|p, _| p * s);
            chk("a/s", &(a.clone() / s), &|p, _| p / s);
            chk("a/&s", &(a.clone() / &s), &|p, _| p / s);
            let mut u = a.clone(); u += b.clone(); chk("a+=b", &u, &|p, q| p + q);
            let mut u = a.clone(); u -= b.clone(); chk("a-=b", &u, &|p, q| p - q);
            let mut u = a.clone(); u *= s; chk("a*=s", &u, &|p, _| p * s);
            let mut u = a.clone(); u /= s; chk("a/=s", &u, &|p, _| p / s);
        }
    });
    m.case(&format!("big/{r}x{cc}"), |c| {
        use num::BigInt;
        let g = |c: &mut Case| -> Grid<BigInt> { gen_grid(r, cc, |_, _| BigInt::from(c.rng.range(-1 << 40, 1 << 40)) * BigInt::from(c.rng.next())) };
        let (x, y) = (g(c), g(c));
        let a: Matrix<BigInt, R, C> = mat_of(x.clone());
        let b: Matrix<BigInt, R, C> = mat_of(y.clone());
        c.eq("big sum", &grid(&(&a + &b)), &gen_grid(r, cc, |i, j| &x[i][j] + &y[i][j]));
        c.eq("big difference", &grid(&(a.clone() - &b)), &gen_grid(r, cc, |i, j| &x[i][j] - &y[i][j]));
        let k = BigInt::from(-12345678901i64);
        c.eq("big scaled", &grid(&(a.clone() * &k)), &gen_grid(r, cc, |i, j| &x[i][j] * &k));
        c.eq("big divided", &grid(&(a.clone() / k.clone())), &gen_grid(r, cc, |i, j| &x[i][j] / &k));
        c.unit(c.rng.clone().next(), r * cc > 0);
    });
}
/// Elements of every width.
fn widths<T, R, C>(m: &mut Mon, kind: &str, r: usize, cc: usize, mk: fn(u64) -> T, k: T)
where
    T: Copy + PartialEq + std::fmt::Debug + num::Num + std::ops::Neg<Output = T> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::ops::DivAssign
        + for<'a> std::ops::Mul<&'a T, Output = T>,
    R: ArrayLen<Vector<T, C>>,
    C: ArrayLen<T>,
{
    m.case(&format!("width/{kind}/{r}x{cc}"), |c| {
        let b = c.rng.next();
        let x = gen_grid(r, cc, |i, j| mk(mix(b ^ (i * 40 + j) as u64)));
        let y = gen_grid(r, cc, |i, j| mk(mix(!b ^ (i * 40 + j) as u64)));
        let v: Matrix<T, R, C> = mat_of(x.clone());
        let w: Matrix<T, R, C> = mat_of(y.clone());
        let z = |f: &dyn Fn(T, T) -> T| -> Grid<T> { gen_grid(r, cc, |i, j| f(x[i][j], y[i][j])) };
        c.eq("v+w", &grid(&(v.clone() + w.clone())), &z(&|a, b| a + b));
        c.eq("v-w", &grid(&(v.clone() - w.clone())), &z(&|a, b| a - b));
        c.eq("v*s", &grid(&(v.clone() * k)), &z(&|a, _| a * k));
        c.eq("v*&s", &grid(&(v.clone() * &k)), &z(&|a, _| a * k));
        c.eq("v/s", &grid(&(v.clone() / k)), &z(&|a, _| a / k));
        c.eq("-v", &grid(&(-v.clone())), &z(&|a, _| -a));
        let mut u = v.clone(); u += w.clone(); c.eq("v+=w", &grid(&u), &z(&|a, b| a + b));
        let mut u = v.clone(); u -= w.clone(); c.eq("v-=w", &grid(&u), &z(&|a, b| a - b));
        let mut u = v.clone(); u *= k; c.eq("v*=s", &grid(&u), &z(&|a, _| a * k));
        let mut u = v.clone(); u /= k; c.eq("v/=s", &grid(&u), &z(&|a, _| a / k));
        c.unit(b, r * cc > 0);
    });
}
macro_rules! w { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    widths::<i8, $r, $c>($m, "i8", $rr, $cc, |k| (k % 64) as i8 - 32, 3);
    widths::<i32, $r, $c>($m, "i32", $rr, $cc, |k| (k >> 36) as i32, -3);
    widths::<i128, $r, $c>($m, "i128", $rr, $cc, |k| (k as i128) << 50, 5);
    widths::<f32, $r, $c>($m, "f32", $rr, $cc, |k| (k >> 40) as f32, 3.0);
} }
macro_rules! s { ($m:ident $x:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => { symbolic::<$r, $c>($m, $rr, $cc, ($x / (1 + $rr * $cc / 16)).max(3)); } }
macro_rules! k { ($m:ident $x:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => { concrete::<$r, $c>($m, $rr, $cc, ($x / (1 + $rr * $cc / 16)).max(3)); } }

fn main() {
    let mut mon = Mon::new("C08");
    let m = &mut mon;
    let x = m.scale(2, 100, 3000);
    for_shapes! {s m x =>}
    let x = m.scale(1, 60, 2000);
    for_shapes_mid! {k m x =>}
    for_shapes_small! {w m =>}
    mon.finish();
}
