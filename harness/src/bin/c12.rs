//! C12: an inverse is returned exactly when one exists, and is exact.
use rcmon::field::*;
use rcmon::linalg::*;
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};

fn one<F: Fld, N>(c: &mut Case, n: usize, g: &Grid<F>)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Inverse<Output = Matrix<F, N, N>>,
{
    let got = mat_of::<F, N, N>(g.clone()).inverse();
    let (_, rank) = det_rank(g);
    match got {
        Some(inv) => {
            c.check(rank == n, || format!("inverse of the singular matrix {:?} (rank {rank}): {:?}", g, inv));
            let i = grid(&inv);
            let id = eye::<F>(n);
            c.check(matmul(&i, g, n, n, n) == id, || format!("inverse {:?} times {:?} is not the identity", i, g));
            c.check(matmul(g, &i, n, n, n) == id, || format!("{:?} times its inverse {:?} is not the identity", g, i));
            c.count("inverses", 1);
        }
        None => {
            c.check(rank < n, || format!("no inverse for the nonsingular matrix {:?}", g));
            c.count("refused (singular)", 1);
        }
    }
    if n > 3 && (1..n).any(|k| det_rank(&g[..k].iter().map(|r| r[..k].to_vec()).collect::<Grid<F>>()).1 < k) { c.count("matrices with a zero elimination pivot (n > 3)", 1) }
    c.unit(grid_hash(g) ^ n as u64, true);
}
fn field<F: Fld, N>(m: &mut Mon, kind: &str, n: usize, reps: u64)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Inverse<Output = Matrix<F, N, N>>,
{
    for k in 0..KINDS {
        m.case(&format!("{kind}/{n}/kind{k}"), |c| {
            for _ in 0..(reps * 10 / (10 + n * n * n / 8) as u64).max(1) {
                let g = matrix::<F>(c, n, k, false);
                one::<F, N>(c, n, &g);
                if c.rng.chance(1, 400) { c.sample(|| format!("{g:?}")) }
            }
        });
    }
}
fn all<const P: u64, N>(m: &mut Mon, n: usize, step: u64)
where
    N: ArrayLen<Fp<P>> + ArrayLen<Vector<Fp<P>, N>>,
    Matrix<Fp<P>, N, N>: Inverse<Output = Matrix<Fp<P>, N, N>>,
{
    let total = P.pow((n * n) as u32);
    for part in 0..16u64 {
        m.case(&format!("all-gf{P}/{n}/part{part}"), |c| {
            let mut k = total * part / 16 + if step > 1 { c.rng.below(step) } else { 0 };
            while k < total * (part + 1) / 16 {
                one::<Fp<P>, N>(c, n, &numbered::<P>(n, k));
                k += step;
            }
        });
    }
}
fn floats<N>(m: &mut Mon, n: usize, reps: u64)
where
    N: ArrayLen<f64> + ArrayLen<Vector<f64, N>> + ArrayLen<f32> + ArrayLen<Vector<f32, N>>,
    Matrix<f64, N, N>: Inverse<Output = Matrix<f64, N, N>>,
    Matrix<f32, N, N>: Inverse<Output = Matrix<f32, N, N>>,
{
    m.case(&format!("floats/{n}"), |c| {
        for _ in 0..(reps / (1 + (n * n * n) as u64 / 500)).max(4) {
            let g = dominant(c, n);
            // elimination needs no determinant, so its range is no limit there
            let wide = n > 3 && c.rng.chance(1, 2);
            let (g, g32) = if wide { (scaled_wide(c, g.clone(), 300), scaled_wide(c, g, 45)) } else { let (g, _) = scaled(c, g); (g.clone(), g) };
            if wide { c.count("float matrices scaled widely", 1) }
            let near = |p: &Grid<f64>, tol: f64| (0..n).all(|i| (0..n).all(|j| (p[i][j] - if i == j { 1.0 } else { 0.0 }).abs() < tol));
            match mat_of::<f64, N, N>(g.clone()).inverse() {
                None => c.fail(format!("no f64 inverse of the diagonally dominant {:?}", g)),
                Some(i) => {
                    let i = grid(&i);
                    c.check(near(&matmul(&i, &g, n, n, n), 1e-10) && near(&matmul(&g, &i, n, n, n), 1e-10), || format!("f64 inverse of {:?}: {:?}", g, i));
                }
            }
            let g32: Grid<f32> = g32.iter().map(|r| r.iter().map(|x| *x as f32).collect()).collect();
            match mat_of::<f32, N, N>(g32.clone()).inverse() {
                None => c.fail(format!("no f32 inverse of the diagonally dominant {:?}", g32)),
                Some(i) => {
                    let up = |g: &Grid<f32>| -> Grid<f64> { g.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect() };
                    let (i, g) = (up(&grid(&i)), up(&g32));
                    c.check(near(&matmul(&i, &g, n, n, n), 1e-3) && near(&matmul(&g, &i, n, n, n), 1e-3), || format!("f32 inverse of {:?}: {:?}", g, i));
                }
            }
            c.unit(grid_hash(&g), true);
        }
    });
}
macro_rules! f { ($m:ident $kind:expr, $t:ty, $r:expr => $n:ident, $nn:expr) => { field::<$t, $n>($m, $kind, $nn, $r); } }
macro_rules! fl { ($m:ident $r:expr => $n:ident, $nn:expr) => { floats::<$n>($m, $nn, $r); } }
macro_rules! small { ($m:ident $($x:tt)*) => {
    f!($m $($x)* U1, 1); f!($m $($x)* U2, 2); f!($m $($x)* U3, 3); f!($m $($x)* U4, 4); f!($m $($x)* U5, 5); f!($m $($x)* U6, 6); f!($m $($x)* U7, 7); f!($m $($x)* U8, 8);
} }

fn main() {
    let mut mon = Mon::new("C12");
    let m = &mut mon;
    let r = m.scale(1, 50, 2000);
    all::<7, U1>(m, 1, 1);
    all::<7, U2>(m, 2, 1);
    all::<2, U3>(m, 3, 1);
    all::<3, U3>(m, 3, 1);
    all::<2, U4>(m, 4, if m.thorough { 1 } else { 3 });
    all::<3, U4>(m, 4, if m.thorough { 23 } else { 8009 });
    all::<2, U5>(m, 5, if m.thorough { 29 } else { 9001 });
    small!(m "gf2", Fp<2>, r =>);
    small!(m "gf3", Fp<3>, r =>);
    small!(m "gf5", Fp<5>, r =>);
    small!(m "rational", Q, r / 3 =>);
    for_squares_all! {f m "gfp61", Fp<{ P61 }>, r =>}
    for_squares_all! {fl m r =>}
    mon.finish();
}
