//! C10: the determinant is exact over every field.
use rcmon::field::*;
use rcmon::linalg::*;
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};

fn one<F: Fld, N>(c: &mut Case, n: usize, g: &Grid<F>)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Determinant<Output = F>,
{
    let got = mat_of::<F, N, N>(g.clone()).determinant();
    let (want, rank) = det_rank(g);
    if n <= 4 {
        let w2 = leibniz(g);
        assert!(w2 == want, "the two reference determinants disagree on {g:?}");
    }
    c.check(got == want, || format!("determinant of {:?}: got {:?}, expected {:?} (rank {rank})", g, got, want));
    if rank < n { c.count("singular matrices", 1) } else { c.count("nonsingular matrices", 1) }
    // does plain elimination meet a zero pivot before the last step?
    if (1..n).any(|k| det_rank(&g[..k].iter().map(|r| r[..k].to_vec()).collect::<Grid<F>>()).1 < k) && n > 3 { c.count("matrices with a zero elimination pivot (n > 3)", 1) }
    c.unit(grid_hash(g) ^ n as u64, true);
}

fn field<F: Fld, N>(m: &mut Mon, kind: &str, n: usize, reps: u64)
where
    N: ArrayLen<F> + ArrayLen<Vector<F, N>>,
    Matrix<F, N, N>: Determinant<Output = F>,
{
    for k in 0..KINDS {
        m.case(&format!("{kind}/{n}/kind{k}"), |c| {
            let reps = match n { 0..=5 => reps, 6 => reps / 2, 7 => reps / 6, 8 => reps / 20, 9..=17 => reps / 20, _ => reps / 60 }.max(2);
            for _ in 0..reps {
                let g = matrix::<F>(c, n, k, false);
                one::<F, N>(c, n, &g);
                if c.rng.chance(1, 400) { c.sample(|| format!("{g:?}")) }
            }
        });
    }
}
fn all<const P: u64, N>(m: &mut Mon, n: usize, step: u64)
where
    N: ArrayLen<Fp<P>> + ArrayLen<Vector<Fp<P>, N>>,
    Matrix<Fp<P>, N, N>: Determinant<Output = Fp<P>>,
{
    let total = P.pow((n * n) as u32);
    for part in 0..16u64 {
        m.case(&format!("all-gf{P}/{n}/part{part}"), |c| {
            let off = if step > 1 { c.rng.below(step) } else { 0 };
            let mut k = total * part / 16 + off;
            while k < total * (part + 1) / 16 {
                one::<Fp<P>, N>(c, n, &numbered::<P>(n, k));
                k += step;
            }
        });
    }
}
fn floats<N>(m: &mut Mon, n: usize, reps: u64)
where
    N: ArrayLen<f64> + ArrayLen<Vector<f64, N>> + ArrayLen<f32> + ArrayLen<Vector<f32, N>>,
    Matrix<f64, N, N>: Determinant<Output = f64>,
    Matrix<f32, N, N>: Determinant<Output = f32>,
{
    m.case(&format!("floats/{n}"), |c| {
        for _ in 0..(reps / (1 + (n * n * n) as u64 / 500)).max(4) {
            let g = dominant(c, n);
            let (g, _) = scaled(c, g);
            let d = mat_of::<f64, N, N>(g.clone()).determinant();
            let w = det_f64(&g);
            c.check(((d - w) / w).abs() < 1e-10, || format!("f64 determinant of {:?}: got {d}, expected {w}", g));
            let g32: Grid<f32> = g.iter().map(|r| r.iter().map(|x| *x as f32).collect()).collect();
            let w = det_f64(&g32.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect());
            let d = mat_of::<f32, N, N>(g32.clone()).determinant() as f64;
            c.check(((d - w) / w).abs() < 1e-3, || format!("f32 determinant of {:?}: got {d}, expected {w}", g32));
            c.unit(grid_hash(&g), true);
        }
    });
}
macro_rules! f { ($m:ident $kind:expr, $t:ty, $r:expr => $n:ident, $nn:expr) => { field::<$t, $n>($m, $kind, $nn, $r); } }
macro_rules! fl { ($m:ident $r:expr => $n:ident, $nn:expr) => { floats::<$n>($m, $nn, $r); } }
macro_rules! small { ($m:ident $($x:tt)*) => {
    f!($m $($x)* U1, 1); f!($m $($x)* U2, 2); f!($m $($x)* U3, 3); f!($m $($x)* U4, 4); f!($m $($x)* U5, 5); f!($m $($x)* U6, 6); f!($m $($x)* U7, 7); f!($m $($x)* U8, 8);
} }

/// Zero pivots at a larger size: an answer has to come while somebody is still waiting for it.
fn answers<N>(m: &mut Mon, n: usize) -> bool
where
    N: ArrayLen<i64> + ArrayLen<Vector<i64, N>> + 'static,
    Matrix<i64, N, N>: Determinant<Output = i64>,
{
    let mut all = true;
    for kind in 0..3 {
        m.case(&format!("answers/{n}/{kind}"), |c| {
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
                let g = Matrix::<i64, N, N>::generate(|(i, j)| match kind { 0 => 0, 1 => (i + j == n - 1) as i64, _ => (i == (j + 1) % n) as i64 });
                let _ = tx.send(g.determinant());
            }).unwrap();
            let want = match kind { 0 => 0, 1 => if n * (n - 1) / 2 % 2 == 0 { 1 } else { -1 }, _ => if n % 2 == 1 { 1 } else { -1 } };
            match rx.recv_timeout(std::time::Duration::from_secs(60)) {
                Ok(d) => c.check(d == want, || format!("determinant of a {n}x{n} zero or permutation matrix: {d}")),
                Err(_) => { all = false; c.fail(format!("no determinant of a {n}x{n} zero or permutation matrix within 60 s")) }
            }
            c.unit((n * 10 + kind) as u64, true);
        });
        if !all { break }
    }
    all
}

fn main() {
    let mut mon = Mon::new("C10");
    let m = &mut mon;
    if !(answers::<U16>(m, 16) && answers::<U32>(m, 32)) {
        // the large sizes would only hang
        mon.finish();
        return;
    }
    let r = m.scale(1, 40, 1500);
    all::<7, U1>(m, 1, 1);
    all::<7, U2>(m, 2, 1);
    all::<2, U3>(m, 3, 1);
    all::<3, U3>(m, 3, 1);
    all::<2, U4>(m, 4, if m.thorough { 1 } else { 3 });
    all::<3, U4>(m, 4, if m.thorough { 23 } else { 8009 });
    all::<2, U5>(m, 5, if m.thorough { 29 } else { 9001 });
    small!(m "gf2", Fp<2>, r =>);
    small!(m "gf3", Fp<3>, r =>);
    small!(m "gf5", Fp<5>, r =>);
    small!(m "rational", Q, r / 2 =>);
    for_squares_all! {f m "gfp61", Fp<{ P61 }>, r =>}
    for_squares_all! {fl m r =>}
    mon.finish();
}
