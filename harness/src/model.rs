//! Plain nested-list models and conversions; independent of rowcol's algorithms.
use rowcol::matrix::Matrix;
use rowcol::vector::{ArrayLen, Vector};

pub type Grid<T> = Vec<Vec<T>>;

pub fn vec_of<T, N: ArrayLen<T>>(xs: Vec<T>) -> Vector<T, N> {
    assert_eq!(xs.len(), N::to_usize());
    let mut it = xs.into_iter();
    Vector::generate(|_| it.next().unwrap())
}
pub fn list<T: Clone, N: ArrayLen<T>>(v: &Vector<T, N>) -> Vec<T> {
    v.as_slice().iter().cloned().collect()
}
/// Row-major flat or nested list to matrix.
pub fn mat_of<T, R, C>(g: Grid<T>) -> Matrix<T, R, C>
where
    R: ArrayLen<Vector<T, C>>,
    C: ArrayLen<T>,
{
    let mut rows: Vec<std::vec::IntoIter<T>> = g.into_iter().map(|r| r.into_iter()).collect();
    Matrix::generate(|(i, _)| rows[i].next().unwrap())
}
pub fn grid<T: Clone, R, C>(m: &Matrix<T, R, C>) -> Grid<T>
where
    R: ArrayLen<Vector<T, C>>,
    C: ArrayLen<T>,
{
    (0..R::to_usize()).map(|i| (0..C::to_usize()).map(|j| m[(i, j)].clone()).collect()).collect()
}
pub fn gen_grid<T>(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> T) -> Grid<T> {
    (0..r).map(|i| (0..c).map(|j| f(i, j)).collect()).collect()
}
pub fn transpose<T: Clone>(g: &Grid<T>, r: usize, c: usize) -> Grid<T> {
    gen_grid(c, r, |i, j| g[j][i].clone())
}
/// Schoolbook product with factors in order.
pub fn matmul<T>(a: &Grid<T>, b: &Grid<T>, n: usize, k: usize, m: usize) -> Grid<T>
where
    T: Clone + num::Zero + std::ops::Mul<Output = T>,
{
    gen_grid(n, m, |i, j| {
        let mut s = T::zero();
        for x in 0..k {
            s = s + a[i][x].clone() * b[x][j].clone();
        }
        s
    })
}
pub fn eye<T: num::Zero + num::One>(n: usize) -> Grid<T> {
    gen_grid(n, n, |i, j| if i == j { T::one() } else { T::zero() })
}
/// Determinant and rank by elimination with row exchange (exact fields only).
pub fn det_rank<T>(a: &Grid<T>) -> (T, usize)
where
    T: Clone + num::Zero + num::One + std::ops::Mul<Output = T> + std::ops::Sub<Output = T> + std::ops::Div<Output = T>,
{
    let n = a.len();
    let mut a = a.clone();
    let (mut det, mut rank) = (T::one(), 0);
    for col in 0..n {
        let p = (rank..n).find(|&r| !a[r][col].is_zero());
        let p = match p {
            Some(p) => p,
            None => {
                det = T::zero();
                continue;
            }
        };
        if p != rank {
            a.swap(p, rank);
            det = T::zero() - det;
        }
        det = det * a[rank][col].clone();
        for r in rank + 1..n {
            if a[r][col].is_zero() {
                continue;
            }
            let f = a[r][col].clone() / a[rank][col].clone();
            for k in col..n {
                let x = a[r][k].clone() - f.clone() * a[rank][k].clone();
                a[r][k] = x;
            }
        }
        rank += 1;
    }
    (det, rank)
}
/// Leibniz formula, no division (n small).
pub fn leibniz<T>(a: &Grid<T>) -> T
where
    T: Clone + num::Zero + num::One + std::ops::Mul<Output = T> + std::ops::Sub<Output = T>,
{
    fn go<T>(a: &Grid<T>, i: usize, used: &mut Vec<usize>) -> T
    where
        T: Clone + num::Zero + num::One + std::ops::Mul<Output = T> + std::ops::Sub<Output = T>,
    {
        let n = a.len();
        if i == n {
            return T::one();
        }
        let mut s = T::zero();
        for j in 0..n {
            if used.contains(&j) || a[i][j].is_zero() {
                continue;
            }
            let inv = used.iter().filter(|&&u| u > j).count();
            used.push(j);
            let t = a[i][j].clone() * go(a, i + 1, used);
            used.pop();
            s = if inv % 2 == 0 { s + t } else { s - t };
        }
        s
    }
    go(a, 0, &mut vec![])
}
pub fn minor<T: Clone>(a: &Grid<T>, i: usize, j: usize) -> Grid<T> {
    a.iter()
        .enumerate()
        .filter(|(r, _)| *r != i)
        .map(|(_, row)| row.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| x.clone()).collect())
        .collect()
}
