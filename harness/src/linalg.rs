//! Exact fields and structured square matrices for the determinant, cofactor and inverse monitors.
use crate::field::*;
use crate::mon::Case;
use crate::model::*;
use num::{BigInt, BigRational};
use std::fmt::Debug;

pub trait Fld: Clone + PartialEq + Debug + num::Signed + num::Zero + num::One + std::ops::Neg<Output = Self> + 'static {
    fn rand(c: &mut Case) -> Self;
    fn nonzero(c: &mut Case) -> Self {
        loop {
            let x = Self::rand(c);
            if !x.is_zero() {
                return x;
            }
        }
    }
}
impl<const P: u64> Fld for Fp<P> {
    fn rand(c: &mut Case) -> Self {
        Fp(c.rng.below(P))
    }
}
pub type Q = BigRational;
impl Fld for Q {
    fn rand(c: &mut Case) -> Self {
        let n = match c.rng.below(6) {
            0 => c.rng.range(-1, 1),
            1 => c.rng.range(-1 << 40, 1 << 40),
            _ => c.rng.range(-9, 9),
        };
        let d = if c.rng.chance(1, 3) { c.rng.range(1, 12) } else { 1 };
        Q::new(BigInt::from(n), BigInt::from(d))
    }
}

pub const KINDS: u64 = 15;
/// Kinds whose determinant rowcol finds without expanding more than one level of cofactors, at any size.
pub const SAFE: [u64; 7] = [0, 3, 5, 6, 10, 13, 14];

pub fn matrix<F: Fld>(c: &mut Case, n: usize, kind: u64, safe: bool) -> Grid<F> {
    let mut g: Grid<F> = gen_grid(n, n, |_, _| F::zero());
    let rnd = |c: &mut Case, g: &mut Grid<F>| {
        for r in g.iter_mut() {
            for x in r.iter_mut() {
                *x = F::rand(c)
            }
        }
    };
    match kind {
        0 => rnd(c, &mut g),
        1 => {
            let d = 1 + c.rng.below(3);
            for i in 0..n { for j in 0..n { if c.rng.chance(d, 4) { g[i][j] = F::rand(c) } } }
        }
        2 => {
            let mut p: Vec<usize> = (0..n).collect();
            c.rng.shuffle(&mut p);
            for i in 0..n { g[i][p[i]] = F::nonzero(c) }
        }
        3 => {
            // rank at most r
            let r = if safe { n - 1 } else { c.rng.usize(n) };
            let mut a: Grid<F> = gen_grid(n, r, |_, _| F::zero());
            let mut b: Grid<F> = gen_grid(r, n, |_, _| F::zero());
            for x in a.iter_mut().flatten() { *x = F::rand(c) }
            for x in b.iter_mut().flatten() { *x = F::rand(c) }
            g = matmul(&a, &b, n, r, n);
        }
        4 => {
            let up = c.rng.chance(1, 2);
            for i in 0..n { for j in 0..n { if i == j || (i < j) == up { g[i][j] = F::rand(c) } } }
        }
        5 => {
            // the leading minor of size k+1 is singular: a zero pivot appears exactly there
            rnd(c, &mut g);
            let k = c.rng.usize(n);
            let co: Vec<F> = (0..k).map(|_| F::rand(c)).collect();
            for j in 0..=k {
                let mut s = F::zero();
                for i in 0..k { s = s + co[i].clone() * g[i][j].clone() }
                g[k][j] = s;
            }
        }
        6 => {
            // two proportional rows
            rnd(c, &mut g);
            if n > 1 {
                let (p, q) = if safe { (c.rng.usize(n - 1), n - 1) } else { let p = c.rng.usize(n); (p, (p + 1 + c.rng.usize(n - 1)) % n) };
                let k = F::rand(c);
                for j in 0..n { g[q][j] = g[p][j].clone() * k.clone() }
            }
        }
        7 => {
            rnd(c, &mut g);
            for i in 0..n { g[i][i] = F::zero() }
        }
        8 => {
            // anti-diagonal blocks
            rnd(c, &mut g);
            let k = c.rng.usize(n + 1);
            for i in 0..n { for j in 0..n { if (i < k) == (j < n - k) { g[i][j] = F::zero() } } }
        }
        9 => {
            for i in 0..n { for j in 0..n { if c.rng.chance(1, 2) { g[i][j] = F::one() } } }
        }
        10 => {
            // L*U with nonzero pivots
            let (mut l, mut u) = (g.clone(), g.clone());
            for i in 0..n { for j in 0..n {
                if i > j { l[i][j] = F::rand(c) } else { u[i][j] = if i == j { F::nonzero(c) } else { F::rand(c) } }
                if i == j { l[i][j] = F::one() }
            } }
            g = matmul(&l, &u, n, n, n);
        }
        11 => {
            // identity after a few row exchanges and additions
            g = eye(n);
            for _ in 0..1 + c.rng.usize(3) {
                let (p, q) = (c.rng.usize(n), c.rng.usize(n));
                if c.rng.chance(1, 2) { g.swap(p, q) } else if p != q {
                    let k = F::rand(c);
                    for j in 0..n { let x = g[p][j].clone() + k.clone() * g[q][j].clone(); g[p][j] = x }
                }
            }
        }
        12 => {
            rnd(c, &mut g);
            let k = c.rng.usize(n);
            if c.rng.chance(1, 2) { for j in 0..n { g[k][j] = F::zero() } } else { for i in 0..n { g[i][k] = F::zero() } }
        }
        13 => {
            // scalar matrix plus a rank-one change
            let k = F::nonzero(c);
            let u: Vec<F> = (0..n).map(|_| F::rand(c)).collect();
            let v: Vec<F> = (0..n).map(|_| F::rand(c)).collect();
            for i in 0..n { for j in 0..n { g[i][j] = u[i].clone() * v[j].clone() + if i == j { k.clone() } else { F::zero() } } }
        }
        _ => {
            // upper triangular, nonzero diagonal
            for i in 0..n { for j in i..n { g[i][j] = if i == j { F::nonzero(c) } else { F::rand(c) } } }
        }
    }
    g
}

/// All n x n matrices over GF(P), by number.
pub fn numbered<const P: u64>(n: usize, mut k: u64) -> Grid<Fp<P>> {
    gen_grid(n, n, |_, _| {
        let x = k % P;
        k /= P;
        Fp(x)
    })
}

/// Strictly diagonally dominant floats (by rows and columns), diagonal in +-[1, 2].
pub fn dominant(c: &mut Case, n: usize) -> Grid<f64> {
    let b = 0.5 / n.max(2) as f64;
    let mut g = gen_grid(n, n, |_, _| 0.0);
    let sparse = c.rng.chance(1, 3);
    for i in 0..n { for j in 0..n {
        g[i][j] = if i == j {
            c.rng.f64(1.0, 2.0) * if c.rng.chance(1, 2) { 1.0 } else { -1.0 }
        } else if sparse && c.rng.chance(1, 2) { 0.0 } else { c.rng.f64(-b, b) };
    } }
    g
}
/// The same matrix times a power of two (exact), small enough that its determinant still fits an f32.
pub fn scaled(c: &mut Case, g: Grid<f64>) -> (Grid<f64>, f64) {
    let most = (90 / g.len().max(1)).min(45) as i32;
    let s = match c.rng.below(4) { 0 => (2f64).powi(-most), 1 => (2f64).powi(most), 2 => (2f64).powi(c.rng.below(2 * most as u64 + 1) as i32 - most), _ => 1.0 };
    (g.into_iter().map(|r| r.into_iter().map(|x| x * s).collect()).collect(), s)
}
/// The same matrix times any power of two (exact) of at most `most`: its determinant may well be out of range.
pub fn scaled_wide(c: &mut Case, g: Grid<f64>, most: i32) -> Grid<f64> {
    let s = match c.rng.below(3) { 0 => (2f64).powi(-most), 1 => (2f64).powi(most), _ => (2f64).powi(c.rng.below(2 * most as u64 + 1) as i32 - most) };
    g.into_iter().map(|r| r.into_iter().map(|x| x * s).collect()).collect()
}
/// Determinant in f64 with partial pivoting (reference for dominant matrices).
pub fn det_f64(g: &Grid<f64>) -> f64 {
    let n = g.len();
    let mut a = g.clone();
    let mut d = 1.0;
    for k in 0..n {
        let p = (k..n).max_by(|&x, &y| a[x][k].abs().partial_cmp(&a[y][k].abs()).unwrap()).unwrap();
        if p != k { a.swap(p, k); d = -d }
        d *= a[k][k];
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n { a[i][j] -= f * a[k][j] }
        }
    }
    d
}
pub fn grid_hash<F: Debug>(g: &Grid<F>) -> u64 {
    crate::rng::hash_str(&format!("{g:?}"))
}
