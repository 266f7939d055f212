//! C13, type-level indices inside the bounds: they must compile and reach the right element.
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use rowcol::typenum::Unsigned;
use std::ops::{Index, IndexMut};

fn vec1<N, I>(c: &mut Case, i: I, n: usize, ii: usize)
where N: ArrayLen<String> + ArrayLen<u32>, I: Copy + Unsigned, Vector<String, N>: IndexMut<I> + Index<I, Output = String>, Vector<u32, N>: IndexMut<I> + Index<I, Output = u32> {
    let mut v: Vector<u32, N> = Vector::generate(|k| 100 + k as u32);
    c.eq("v[I]", &v[i], &(100 + ii as u32));
    c.eq("address of v[I]", &(&v[i] as *const u32), &(&v.as_slice()[ii] as *const u32));
    c.eq("address of &mut v[I]", &(&mut v[i] as *mut u32 as usize), &(&v.as_slice()[ii] as *const u32 as usize));
    v[i] = 7;
    c.eq("after v[I] = 7", &v.as_slice().to_vec(), &(0..n).map(|k| if k == ii { 7 } else { 100 + k as u32 }).collect());
    let mut v: Vector<String, N> = Vector::generate(|k| k.to_string());
    c.eq("v[I]", &v[i], &ii.to_string());
    v[i].push('x');
    c.eq("after v[I].push", &v.as_slice().to_vec(), &(0..n).map(|k| if k == ii { format!("{k}x") } else { k.to_string() }).collect());
    c.unit(mix((n * 64 + ii) as u64), true);
}
fn cell<R: ArrayLen<Vector<u32, C>>, C: ArrayLen<u32>>(m: &Matrix<u32, R, C>, i: usize, j: usize) -> *const u32 { &m[(i, j)] }
fn mat1<R, C, I, J>(c: &mut Case, i: I, j: J, r: usize, cc: usize, ii: usize, jj: usize)
where
    R: ArrayLen<Vector<u32, C>>, C: ArrayLen<u32>, I: Copy + Unsigned, J: Copy + Unsigned,
    Matrix<u32, R, C>: Index<(I, J), Output = u32> + IndexMut<(I, J)>,
{
    let at = |i: usize, j: usize| (1000 + i * 50 + j) as u32;
    let mut m: Matrix<u32, R, C> = Matrix::generate(|(i, j)| at(i, j));
    c.eq("m[(I,J)]", &m[(i, j)], &at(ii, jj));
    c.eq("address of m[(I,J)]", &(&m[(i, j)] as *const u32), &cell(&m, ii, jj));
    c.eq("address of &mut m[(I,J)]", &(&mut m[(i, j)] as *mut u32 as usize), &(cell(&m, ii, jj) as usize));
    m[(i, j)] = 7;
    let bad = (0..r).flat_map(|a| (0..cc).map(move |b| (a, b))).find(|&(a, b)| *unsafe { m.get_unchecked((a, b)) } != if (a, b) == (ii, jj) { 7 } else { at(a, b) });
    c.check(bad.is_none(), || format!("after m[({ii},{jj})] = 7 of a {r}x{cc} matrix, {bad:?} is wrong"));
    c.unit(mix((r * 1000000 + cc * 10000 + ii * 100 + jj) as u64), true);
}
macro_rules! vi { ($c:ident => $n:ident, $i:ident, $nn:expr, $ii:expr) => { vec1::<$n, $i>($c, $i::new(), $nn, $ii); } }
macro_rules! mi { ($c:ident => $r:ident, $c2:ident, $i:ident, $j:ident, $rr:expr, $cc:expr, $ii:expr, $jj:expr) => { mat1::<$r, $c2, $i, $j>($c, $i::new(), $j::new(), $rr, $cc, $ii, $jj); } }
fn main() {
    let mut mon = Mon::new("C13");
    mon.case("static/vector", |c| { for_index_in! {vi c =>} });
    mon.case("static/matrix", |c| { for_index2_in! {mi c =>} });
    mon.finish();
}
