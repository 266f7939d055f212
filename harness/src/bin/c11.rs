//! C11: cofactors are signed minors; indices outside panic.
use rcmon::field::*;
use rcmon::linalg::*;
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};

fn one<F: Fld, N>(c: &mut Case, n: usize, g: &Grid<F>, picks: usize)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Cofactor<Output = F>,
{
    let m = mat_of::<F, N, N>(g.clone());
    let idx: Vec<(usize, usize)> = if n * n <= picks {
        (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect()
    } else {
        let mut v: Vec<(usize, usize)> = (0..picks).map(|_| (c.rng.usize(n), c.rng.usize(n))).collect();
        v.push((0, n - 1));
        v.push((n - 1, n - 2));
        v
    };
    let h = grid_hash(g);
    for (i, j) in idx {
        let (d, _) = det_rank(&minor(g, i, j));
        let want = if (i + j) % 2 == 0 { d } else { F::zero() - d };
        let got = m.cofactor((i, j));
        c.check(got == want, || format!("cofactor({i},{j}) of {:?}: got {:?}, expected {:?}", g, got, want));
        c.unit(mix(h ^ (i * 64 + j) as u64), true);
    }
}
fn outside<F: Fld, N>(c: &mut Case, n: usize)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Cofactor<Output = F>,
{
    let g = gen_grid(n, n, |i, j| if i == j { F::one() } else { F::zero() });
    let m = mat_of::<F, N, N>(g);
    let mut bad = vec![n, n + 1, n + 2, 2 * n, n * n, n * n - 1, usize::MAX, usize::MAX - 1, usize::MAX - n, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, 1 << 31, usize::MAX - n + 1, usize::MAX / n + 1];
    bad.retain(|&b| b >= n);
    let good: Vec<usize> = vec![0, n / 2, n - 1];
    let mut all: Vec<(usize, usize)> = Vec::new();
    for &b in &bad {
        for &a in good.iter().chain(&bad) { all.push((a, b)); all.push((b, a)) }
    }
    for p in all {
        let r = catches(|| m.cofactor(p));
        c.check(r.is_err(), || format!("cofactor({:?}) of a {n}x{n} matrix returned {:?}", p, r));
        c.unit(mix(hash_str(&format!("{p:?}")) ^ n as u64), true);
        c.count("indices outside", 1);
    }
}
fn field<F: Fld, N>(m: &mut Mon, kind: &str, n: usize, reps: u64)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Cofactor<Output = F>,
{
    for k in 0..KINDS {
        m.case(&format!("{kind}/{n}/kind{k}"), |c| {
            let reps = match n { 0..=3 => reps, 4 => reps / 2, 5 => reps / 4, 6 => reps / 10, 7 => reps / 25, 8 => reps / 60, _ => reps / 60 }.max(1);
            for _ in 0..reps {
                let g = matrix::<F>(c, n, k, false);
                one::<F, N>(c, n, &g, if n <= 6 { 36 } else if n <= 8 { 8 } else { 3 });
                if c.rng.chance(1, 300) { c.sample(|| format!("{g:?}")) }
            }
        });
    }
    m.case(&format!("outside-{kind}/{n}"), |c| outside::<F, N>(c, n));
}
fn all<const P: u64, N>(m: &mut Mon, n: usize, step: u64)
where
    N: ArrayLen<Fp<P>> + ArrayLen<Vector<Fp<P>, N>>,
    Matrix<Fp<P>, N, N>: Cofactor<Output = Fp<P>>,
{
    let total = P.pow((n * n) as u32);
    for part in 0..16u64 {
        m.case(&format!("all-gf{P}/{n}/part{part}"), |c| {
            let mut k = total * part / 16 + if step > 1 { c.rng.below(step) } else { 0 };
            while k < total * (part + 1) / 16 {
                one::<Fp<P>, N>(c, n, &numbered::<P>(n, k), 64);
                k += step;
            }
        });
    }
}
macro_rules! f { ($m:ident $kind:expr, $t:ty, $r:expr => $n:ident, $nn:expr) => { field::<$t, $n>($m, $kind, $nn, $r); } }
// every index of one random matrix (the large minors of a random matrix over a large field are regular)
macro_rules! every { ($m:ident => $n:ident, $nn:expr) => {
    $m.case(concat!("every-index/", stringify!($n)), |c| {
        let g = matrix::<Fp<{ P61 }>>(c, $nn, 0, true);
        one::<Fp<{ P61 }>, $n>(c, $nn, &g, $nn * $nn);
    });
} }
macro_rules! small { ($m:ident $($x:tt)*) => {
    f!($m $($x)* U2, 2); f!($m $($x)* U3, 3); f!($m $($x)* U4, 4); f!($m $($x)* U5, 5); f!($m $($x)* U6, 6); f!($m $($x)* U7, 7); f!($m $($x)* U8, 8);
} }

fn main() {
    let mut mon = Mon::new("C11");
    let m = &mut mon;
    let r = m.scale(1, 24, 800);
    all::<7, U2>(m, 2, 1);
    all::<3, U3>(m, 3, if m.thorough { 1 } else { 3 });
    all::<2, U4>(m, 4, if m.thorough { 1 } else { 13 });
    small!(m "gf2", Fp<2>, r =>);
    small!(m "gf5", Fp<5>, r =>);
    small!(m "rational", Q, r / 2 =>);
    small!(m "gfp61", Fp<{ P61 }>, r =>);
    for_squares_big! {f m "gfp61", Fp<{ P61 }>, r =>}
    for_squares_big! {every m =>}
    mon.finish();
}
