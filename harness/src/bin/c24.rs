//! C24: reported lengths and shapes and the named aliases.
use rcmon::elems::{Al64, Elem, HTok, Zst};
use rcmon::model::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use rowcol::typenum::Unsigned;
use std::any::TypeId;

fn len_all<T, N: ArrayLen<T>>(c: &mut Case, when: &str, v: &Vector<T, N>, n: usize) {
    let got = [v.len(), v.as_slice().len(), v.iter().len(), v.iter().count(), v.as_ref().len(), AsRef::<[T]>::as_ref(&**v).len(), N::to_usize()];
    c.check(got.iter().all(|&g| g == n), || format!("{when}: len, as_slice, iter().len, iter().count, as_ref, deref, type say {got:?}, expected {n}"));
    c.check(v.is_empty() == (n == 0), || format!("{when}: is_empty of length {n} is {}", v.is_empty()));
}
fn dim_all<T, R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T>>(c: &mut Case, when: &str, m: &Matrix<T, R, C>, r: usize, k: usize) {
    let got = (m.rows(), m.cols(), m.dim());
    c.check(got == (r, k, (r, k)), || format!("{when}: rows, cols, dim are {got:?}, expected {r}x{k}"));
    let got = (m.rows_iter_ref().len(), m.cols_iter_ref().len(), m.rows_iter_ref().count(), m.cols_iter_ref().count());
    c.check(got == (r, k, r, k), || format!("{when}: row and column iterators report {got:?}, expected {r}x{k}"));
    for row in m.rows_iter_ref() { c.check(row.len() == k, || format!("{when}: a row has {} elements, expected {k}", row.len())); }
    for col in m.cols_iter_ref() { c.check(col.len() == r && col.count() == r, || format!("{when}: a column has a length other than {r}")); }
}
fn vector<T: Elem, N: ArrayLen<T>>(m: &mut Mon, kind: &str, n: usize) {
    m.case(&format!("vector/{kind}/N{n}"), |c| {
        // through a life of mutation: the reported length never moves
        let mut v: Vector<T, N> = Vector::generate(|i| T::mk(i as u64));
        len_all(c, "generated", &v, n);
        let mut k = 100;
        for step in 0..8 {
            match c.rng.below(9) {
                0 => for x in v.iter_mut() { k += 1; *x = T::mk(k) },
                1 => v.as_slice_mut().reverse(),
                2 => { let w = v.clone(); len_all(c, "clone", &w, n); v = w; }
                3 => { let mut it = v.into_iter(); c.check(it.len() == n, || format!("into_iter().len() is {}", it.len())); v = it.by_ref().collect(); }
                4 => { let a = v.into_inner(); c.check(a.as_ref().len() == n, || format!("the inner array has {} elements", a.as_ref().len())); v = Vector::new(a); }
                5 => { if n > 0 { let i = c.rng.usize(n); k += 1; v[i] = T::mk(k) } }
                6 => { let w = Vector::generate(|i| T::mk(i as u64 + k)); let old = std::mem::replace(&mut v, w); len_all(c, "replaced", &old, n); }
                7 => { v = v.into_iter().rev().collect(); }
                _ => { let mut w = v.clone(); std::mem::swap(&mut v, &mut w); len_all(c, "swapped", &w, n); }
            }
            len_all(c, &format!("step {step}"), &v, n);
            c.check(v.iter_mut().len() == n && v.as_slice_mut().len() == n && AsMut::<[T]>::as_mut(&mut v).len() == n && (*v).as_mut().len() == n, || "a mutable view has another length".into());
            let h = c.rng.next();
            c.unit(h, true);
        }
        let b = Box::new(v);
        len_all(c, "boxed", &b, n);
        c.sample(|| format!("length {n}: seven views agree through 8 random changes"));
    });
}
fn matrix<T: Elem, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize)
where R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> {
    m.case(&format!("matrix/{kind}/{r}x{k}"), |c| {
        let mut a: Matrix<T, R, C> = mat_of(gen_grid(r, k, |i, j| T::mk((i * 40 + j) as u64)));
        dim_all(c, "generated", &a, r, k);
        for step in 0..4 {
            match c.rng.below(5) {
                0 => a = a.clone(),
                1 => a = a.transposed().transposed(),
                2 => a = a.map(|_, x| x),
                3 => { if r * k > 0 { let p = (c.rng.usize(r), c.rng.usize(k)); a[p] = T::mk(77) } }
                _ => { let b = mat_of(gen_grid(r, k, |i, _| T::mk(i as u64))); let old = std::mem::replace(&mut a, b); dim_all(c, "replaced", &old, r, k); }
            }
            dim_all(c, &format!("step {step}"), &a, r, k);
            let t = a.transposed();
            dim_all(c, "transposed", &t, k, r);
            c.check(a.rows_iter().len() == r && a.cols_iter().len() == k, || "owning row or column iterator reports another length".into());
            for row in a.rows_iter() { len_all(c, "row", &row, k); }
            for col in a.cols_iter() { len_all(c, "column", &col, r); }
            let mut n = 0;
            a.all(|(i, j), _| { n += 1; i < r && j < k });
            c.check(n == r * k, || format!("all() visits {n} elements of {r}x{k}"));
            let h = c.rng.next();
            c.unit(h, true);
        }
        c.sample(|| format!("{r}x{k}: rows, cols, dim and all iterators agree through 4 random changes"));
    });
}
fn array_len<T: 'static, N: ArrayLen<T>, A: 'static>(c: &mut Case, n: usize) where N::Array: 'static {
    c.check(TypeId::of::<N::Array>() == TypeId::of::<A>(), || format!("the array type of length {n} is {}, expected {}", std::any::type_name::<N::Array>(), std::any::type_name::<A>()));
    c.check(N::to_usize() == n, || format!("length {n} counts as {}", N::to_usize()));
}
macro_rules! v { ($m:ident => $n:ident, $nn:expr) => {
    vector::<u8, $n>($m, "u8", $nn);
    vector::<String, $n>($m, "String", $nn);
    vector::<(), $n>($m, "()", $nn);
    vector::<Zst, $n>($m, "Zst", $nn);
    vector::<Al64, $n>($m, "Al64", $nn);
    $m.case(&format!("array type/N{}", $nn), |c| {
        array_len::<u8, $n, [u8; $nn]>(c, $nn);
        array_len::<String, $n, [String; $nn]>(c, $nn);
        array_len::<(), $n, [(); $nn]>(c, $nn);
        array_len::<Vector<f32, $n>, $n, [Vector<f32, $n>; $nn]>(c, $nn);
        c.distinct($nn);
    });
} }
macro_rules! s { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    matrix::<i32, $r, $c>($m, "i32", $rr, $cc);
} }
macro_rules! s2 { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    matrix::<HTok, $r, $c>($m, "HTok", $rr, $cc);
    matrix::<(), $r, $c>($m, "()", $rr, $cc);
    matrix::<Zst, $r, $c>($m, "Zst", $rr, $cc);
} }
fn main() {
    let mut mon = Mon::new("C24");
    let m = &mut mon;
    let rounds = m.scale(1, 2, 60);
    for round in 0..rounds {
        m.round = round;
        for_lens! {v m =>}
        for_shapes! {s m =>}
        for_shapes_small! {s2 m =>}
    }
    mon.finish();
}
