//! C05: row and column iterators agree with the matrix from both ends.
use rcmon::elems::*;
use rcmon::iterdrive::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::matrix::iter::*;
use rowcol::vector::ArrayLen;

fn boxed<'a, K, I, F>(it: I, f: F) -> Box<dyn Obj<K> + 'a>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + 'a,
    F: Fn(I::Item) -> K + 'a,
{
    Box::new(Keyed(it, f))
}

fn shape<T, K, R, C>(m: &mut Mon, kind: &str, r: usize, cc: usize, depth: &dyn Fn(usize) -> usize, random: u64, mk: fn(u64) -> T, key: fn(&T) -> K)
where
    T: Clone + 'static,
    K: PartialEq + Clone + std::fmt::Debug,
    R: ArrayLen<Vector<T, C>> + ArrayLen<T> + 'static,
    C: ArrayLen<T> + 'static,
{
    m.case(&format!("{kind}/{r}x{cc}"), |c| {
        let base = c.rng.next();
        let at = |i: usize, j: usize| mk(base ^ (i * 64 + j) as u64);
        let mat: Matrix<T, R, C> = Matrix::generate(|(i, j)| at(i, j));
        let rows: Vec<Vec<K>> = (0..r).map(|i| (0..cc).map(|j| key(&at(i, j))).collect()).collect();
        let cols: Vec<Vec<K>> = (0..cc).map(|j| (0..r).map(|i| key(&at(i, j))).collect()).collect();
        // storage order: address of (i, j)
        let p0 = mat.get(0, 0, r, cc);
        let sz = std::mem::size_of::<T>();
        let addr = |i: usize, j: usize| p0 + (i * cc + j) * sz;
        let row_addr: Vec<(usize, usize)> = (0..r).map(|i| (if cc == 0 { 0 } else { addr(i, 0) }, cc)).collect();
        let col_addr: Vec<Vec<usize>> = (0..cc).map(|j| (0..r).map(|i| addr(i, j)).collect()).collect();

        sweep_obj(c, "rows_iter", r, depth(r), random, &mut || (boxed(mat.rows_iter(), |v| v.iter().map(key).collect::<Vec<K>>()), rows.clone()));
        sweep_obj(c, "cols_iter", cc, depth(cc), random, &mut || (boxed(mat.cols_iter(), |v| v.iter().map(key).collect::<Vec<K>>()), cols.clone()));
        // by reference: the very elements of the matrix
        sweep_obj(c, "rows_iter_ref", r, depth(r), random, &mut || {
            (boxed(mat.rows_iter_ref(), move |s: &[T]| (if s.is_empty() { 0 } else { s.as_ptr() as usize }, s.len())), row_addr.clone())
        });
        sweep_obj(c, "cols_iter_ref", cc, depth(cc), random, &mut || {
            (boxed(mat.cols_iter_ref(), |col: ColsIterRefInner<T, R, C>| col.map(|x| x as *const T as usize).collect::<Vec<usize>>()), col_addr.clone())
        });
        for j in 0..cc {
            if cc > 8 && j % 7 != 0 && j != cc - 1 { continue }
            sweep_obj(c, "column element iterator", r, depth(r).min(if cc > 3 { 2 } else { 9 }), random / 4, &mut || {
                (boxed(mat.cols_iter_ref().nth(j).unwrap(), |x: &T| x as *const T as usize), col_addr[j].clone())
            });
            sweep_obj(c, "column element iterator (constructed)", r, 1, random / 8, &mut || {
                (boxed(column(&mat, j), |x: &T| x as *const T as usize), col_addr[j].clone())
            });
            // values through the reference
            let vals: Vec<K> = mat.cols_iter_ref().nth(j).unwrap().map(key).collect();
            c.eq("column values", &vals, &cols[j]);
        }
        let vals: Vec<Vec<K>> = mat.rows_iter_ref().map(|s| s.iter().map(key).collect()).collect();
        c.eq("row values", &vals, &rows);
        // a column iterator from the back as well
        for (back, col) in mat.cols_iter_ref().rev().enumerate() {
            let j = cc - 1 - back;
            let got: Vec<usize> = col.rev().map(|x| x as *const T as usize).collect();
            let want: Vec<usize> = col_addr[j].iter().rev().cloned().collect();
            c.eq("reversed column of reversed columns", &got, &want);
        }
        // the matrix is what it was
        for i in 0..r { for j in 0..cc {
            c.check(key(&mat[(i, j)]) == rows[i][j], || format!("element ({i},{j}) changed"));
        } }
    });
}
/// The element iterator of column `j`, made through the public constructor of the iterator type when the rows are at hand.
fn column<'a, T, R, C>(m: &'a Matrix<T, R, C>, j: usize) -> ColsIterRefInner<'a, T, R, C>
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    let mut it = m.cols_iter_ref();
    for _ in j + 1..m.cols() { it.next_back(); }
    it.next_back().unwrap()
}
trait At { fn get(&self, i: usize, j: usize, r: usize, c: usize) -> usize; }
impl<T, R, C> At for Matrix<T, R, C> where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    fn get(&self, i: usize, j: usize, r: usize, c: usize) -> usize {
        if i < r && j < c { &self[(i, j)] as *const T as usize } else { 0 }
    }
}
macro_rules! sh { ($m:ident $kind:expr, $t:ty, $mk:expr, $key:expr, $d:expr, $r:expr => $R:ident, $C:ident, $rr:expr, $cc:expr) => {
    shape::<$t, _, $R, $C>($m, $kind, $rr, $cc, &$d, $r, $mk, $key);
} }

/// The public constructors of the iterator types, from the rows of a matrix.
fn constructors(m: &mut Mon) {
    m.case("constructors/3x4", |c| {
        let v: Vector<Vector<u64, U4>, U3> = Vector::generate(|i| Vector::generate(|j| (i * 10 + j) as u64));
        let want_cols: Vec<Vec<u64>> = (0..4).map(|j| (0..3).map(|i| (i * 10 + j) as u64).collect()).collect();
        let want_rows: Vec<Vec<u64>> = (0..3).map(|i| (0..4).map(|j| (i * 10 + j) as u64).collect()).collect();
        sweep_obj(c, "RowsIter::new", 3, 2, 50, &mut || (boxed(RowsIter::new(&v), |x: Vector<u64, U4>| x.as_slice().to_vec()), want_rows.clone()));
        sweep_obj(c, "ColsIter::new", 4, 2, 50, &mut || (boxed(ColsIter::new(&v), |x: Vector<u64, U3>| x.as_slice().to_vec()), want_cols.clone()));
        sweep_obj(c, "RowsIterRef::new", 3, 2, 50, &mut || (boxed(RowsIterRef::new(&v), |x: &[u64]| x.to_vec()), want_rows.clone()));
        sweep_obj(c, "ColsIterRef::new", 4, 2, 50, &mut || (boxed(ColsIterRef::new(&v), |x: ColsIterRefInner<u64, U3, U4>| x.cloned().collect::<Vec<u64>>()), want_cols.clone()));
        for j in 0..4 {
            sweep_obj(c, "ColsIterRefInner::new", 3, 2, 50, &mut || (boxed(ColsIterRefInner::new(&v, j), |x: &u64| *x), want_cols[j].clone()));
        }
    });
}

fn main() {
    let mut mon = Mon::new("C05");
    let m = &mut mon;
    let d = |n: usize| if n <= 4 { 3 } else { 2 };
    if m.slow() {
        let z = |_: usize| 0usize;
        let r = m.scale(8, 0, 0);
        for_shapes_small! {sh m "string", String, (|k| format!("{k}")), (|s: &String| s.clone()), z, r =>}
    } else {
        let th = m.thorough;
        let d2 = move |n: usize| if th { 4 } else { d(n) };
        let r = m.scale(0, 120, 6000);
        for_shapes! {sh m "u64", u64, (|k| k), (|x: &u64| *x), d2, r =>}
        let one = |_: usize| 1usize;
        let r = m.scale(0, 40, 1500);
        #[cfg(feature = "narrow")]
        {
            sh!(m "string", String, (|k| format!("{k}")), (|s: &String| s.clone()), one, r => U3, U2, 3, 2);
        }
        #[cfg(not(feature = "narrow"))]
        {
        for_shapes_small! {sh m "string", String, (|k| format!("{k}")), (|s: &String| s.clone()), one, r =>}
        for_shapes_small! {sh m "tok", Tok, Tok::new, (|t: &Tok| t.val()), one, r =>}
        for_shapes_small! {sh m "352-byte tok", Tok352, Tok352::new, (|t: &Tok352| t.val()), one, r =>}
        for_shapes_small! {sh m "al64", Al64, (|k| Al64(k as u8)), (|t: &Al64| t.0), one, r =>}
        }
        constructors(m);
    }
    mon.finish();
}
