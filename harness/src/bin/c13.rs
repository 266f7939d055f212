//! C13: every access path reaches the same element; bad indices are refused.
use rcmon::elems::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use rowcol::matrix::iter::ColsIterRefInner;
use std::fmt::Debug;
use std::marker::PhantomData;

fn bad_indices(n: usize) -> Vec<usize> {
    let mut v = vec![n, n + 1, n + 2, 2 * n, 2 * n + 1, 31, 32, 33, 63, 64, 255, 256, 257, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX, usize::MAX - n];
    // indices whose byte offset wraps around to a valid one
    for s in [2usize, 3, 4, 8, 16, 24, 64, 320] { v.push(usize::MAX / s + 1); v.push(usize::MAX / s + 2); }
    v.retain(|&b| b >= n);
    v
}
fn p<T>(x: &T) -> usize { x as *const T as usize }

fn vector<T: Elem, N>(m: &mut Mon, kind: &str, n: usize)
where N: ArrayLen<T>, N::Array: Debug {
    m.case(&format!("vector/{kind}/N{n}"), |c| {
        let base = c.rng.next();
        let at = |i: usize| T::mk(mix(base ^ i as u64));
        let mut v: Vector<T, N> = Vector::generate(at);
        let sz = std::mem::size_of::<T>();
        let p0 = v.as_slice().as_ptr() as usize;
        c.eq("address of the elements", &p0, &(&v as *const _ as usize));
        c.eq("slice lengths", &(v.as_slice().len(), AsRef::<[T]>::as_ref(&v).len(), AsRef::<[T]>::as_ref(&*v).len(), v.iter().count()), &(n, n, n, n));
        for i in 0..n {
            let want = p0 + i * sz;
            c.eq("v[i]", &p(&v[i]), &want);
            c.eq("as_slice()[i]", &p(&v.as_slice()[i]), &want);
            c.eq("as_ref()[i]", &p(&AsRef::<[T]>::as_ref(&v)[i]), &want);
            c.eq("(*v)[i]", &p(&AsRef::<[T]>::as_ref(&*v)[i]), &want);
            c.eq("iter().nth(i)", &p(v.iter().nth(i).unwrap()), &want);
            c.eq("iter().rev().nth(n-1-i)", &p(v.iter().rev().nth(n - 1 - i).unwrap()), &want);
            c.eq("get_unchecked(i)", &p(unsafe { v.get_unchecked(i) }), &want);
            c.eq("&mut v[i]", &p(&mut v[i]), &want);
            c.eq("as_slice_mut()[i]", &p(&mut v.as_slice_mut()[i]), &want);
            c.eq("as_mut()[i]", &p(&mut AsMut::<[T]>::as_mut(&mut v)[i]), &want);
            c.eq("(*v)[i] mutably", &p(&mut AsMut::<[T]>::as_mut(&mut *v)[i]), &want);
            c.eq("iter_mut().nth(i)", &p(v.iter_mut().nth(i).unwrap()), &want);
            c.eq("get_unchecked_mut(i)", &p(unsafe { v.get_unchecked_mut(i) }), &want);
            c.check(v[i] == at(i), || format!("element {i} is {:?}", v[i]));
            c.unit(mix(hash_str(kind) ^ (n * 64 + i) as u64), true);
        }
        // writes through each path
        let mut model: Vec<T> = (0..n).map(at).collect();
        let paths: [(&str, fn(&mut Vector<T, N>, usize, T)); 6] = [
            ("index", |v, i, x| v[i] = x),
            ("as_slice_mut", |v, i, x| v.as_slice_mut()[i] = x),
            ("as_mut", |v, i, x| AsMut::<[T]>::as_mut(v)[i] = x),
            ("deref", |v, i, x| AsMut::<[T]>::as_mut(&mut **v)[i] = x),
            ("iter_mut", |v, i, x| *v.iter_mut().nth(i).unwrap() = x),
            ("unchecked", |v, i, x| unsafe { *v.get_unchecked_mut(i) = x }),
        ];
        for (k, (name, f)) in paths.iter().enumerate() {
            for i in 0..n {
                let x = mix(base ^ (k * 1000 + i + 77) as u64);
                f(&mut v, i, T::mk(x));
                model[i] = T::mk(x);
                c.check(v.as_slice() == &model[..], || format!("after writing {i} through {name}: {:?}, expected {:?}", v, model));
                c.count("writes checked", 1);
            }
        }
        for b in bad_indices(n) {
            c.check(panics(|| { let _ = &v[b]; }), || format!("v[{b}] of a vector of length {n} did not panic"));
            c.check(panics(|| { let _ = &mut v[b]; }), || format!("&mut v[{b}] of a vector of length {n} did not panic"));
            c.check(v.iter().nth(b).is_none() && v.as_slice().get(b).is_none(), || format!("an element at {b} of {n}"));
            c.count("bad indices", 2);
            c.unit(mix(hash_str(kind) ^ hash_str("bad") ^ (n as u64) ^ mix(b as u64)), true);
        }
        c.check(v.as_slice() == &model[..], || "changed by refused accesses".into());
        let arr = v.into_inner();
        c.check(arr.as_ref() == &model[..], || "into_inner".into());
    });
}

fn matrix<T: Elem, R, C>(m: &mut Mon, kind: &str, r: usize, cc: usize)
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    m.case(&format!("matrix/{kind}/{r}x{cc}"), |c| {
        let base = c.rng.next();
        let at = |i: usize, j: usize| T::mk(mix(base ^ (i * 100 + j) as u64));
        let mut a: Matrix<T, R, C> = Matrix::generate(|(i, j)| at(i, j));
        let sz = std::mem::size_of::<T>();
        let p0 = &a as *const _ as usize;
        let dense = r * cc <= 300;
        for i in 0..r {
            for j in 0..cc {
                let want = p0 + (i * cc + j) * sz;
                c.eq("m[(i,j)]", &p(&a[(i, j)]), &want);
                c.eq("get_unchecked", &p(unsafe { a.get_unchecked((i, j)) }), &want);
                c.eq("&mut m[(i,j)]", &p(&mut a[(i, j)]), &want);
                c.eq("get_unchecked_mut", &p(unsafe { a.get_unchecked_mut((i, j)) }), &want);
                if dense || (i + j) % 7 == 0 {
                    c.eq("rows_iter_ref", &p(&a.rows_iter_ref().nth(i).unwrap()[j]), &want);
                    c.eq("cols_iter_ref", &p(a.cols_iter_ref().nth(j).unwrap().nth(i).unwrap()), &want);
                    c.eq("cols_iter_ref from the back", &p(a.cols_iter_ref().rev().nth(cc - 1 - j).unwrap().rev().nth(r - 1 - i).unwrap()), &want);
                }
                c.check(a[(i, j)] == at(i, j), || format!("element ({i},{j}) is {:?}", a[(i, j)]));
                c.unit(mix(hash_str(kind) ^ hash_str("m") ^ (r * 64 + cc) as u64 ^ mix((i * 64 + j) as u64)), true);
            }
        }
        let mut seen = 0;
        a.all(|(i, j), x| { c.eq("all: element address", &p(x), &(p0 + (i * cc + j) * sz)); seen += 1; true });
        c.eq("all: elements visited", &seen, &(r * cc));
        let mut model: Vec<T> = (0..r * cc).map(|k| at(k / cc.max(1), k % cc.max(1))).collect();
        for k in 0..2usize {
            for i in 0..r { for j in 0..cc {
                if !dense && (i * 5 + j) % 11 != 0 { continue }
                let x = mix(base ^ (k * 100000 + i * 100 + j + 77) as u64);
                if k == 0 { a[(i, j)] = T::mk(x) } else { unsafe { *a.get_unchecked_mut((i, j)) = T::mk(x) } }
                model[i * cc + j] = T::mk(x);
                let bad = (0..r).flat_map(|i| (0..cc).map(move |j| (i, j))).find(|&(i, j)| a[(i, j)] != model[i * cc + j]);
                c.check(bad.is_none(), || format!("after writing ({i},{j}) through path {k}, ({bad:?}) is wrong"));
                c.count("writes checked", 1);
            } }
        }
        let mut bad: Vec<(usize, usize)> = vec![];
        for b in bad_indices(r) { for j in [0, cc / 2, cc.wrapping_sub(1), cc, usize::MAX] { bad.push((b, j)) } }
        for b in bad_indices(cc) { for i in [0, r / 2, r.wrapping_sub(1), r, usize::MAX] { bad.push((i, b)) } }
        // every pair that is outside although its flat position is inside
        for i in 0..=r { for j in 0..=(r * cc + 1) { if (i >= r || j >= cc) && j <= cc + 40 { bad.push((i, j)) } } }
        for q in bad {
            c.check(panics(|| { let _ = &a[q]; }), || format!("m[{q:?}] of a {r}x{cc} matrix did not panic"));
            c.check(panics(|| { let _ = &mut a[q]; }), || format!("&mut m[{q:?}] of a {r}x{cc} matrix did not panic"));
            c.count("bad indices", 2);
            c.unit(mix(hash_str(kind) ^ hash_str("mb") ^ (r * 64 + cc) as u64 ^ mix(q.0 as u64) ^ mix(!q.1 as u64)), true);
        }
        let rows: Vector<Vector<T, C>, R> = Vector::generate(|i| Vector::generate(|j| at(i, j)));
        for b in bad_indices(cc) {
            c.check(panics(|| { let _ = ColsIterRefInner::new(&rows, b); }), || format!("an iterator over column {b} of a {r}x{cc} matrix was made"));
            c.check(a.cols_iter_ref().nth(b).is_none(), || format!("column {b} of a {r}x{cc} matrix"));
        }
        for b in bad_indices(r) {
            c.check(a.rows_iter_ref().nth(b).is_none(), || format!("row {b} of a {r}x{cc} matrix"));
        }
    });
}

/// Which type-level indices the type system accepts.
struct VI<N, I>(PhantomData<(N, I)>);
struct VM<N, I>(PhantomData<(N, I)>);
struct MI<R, C, I, J>(PhantomData<(R, C, I, J)>);
struct MM<R, C, I, J>(PhantomData<(R, C, I, J)>);
trait Nope { const HAS: bool = false; }
impl<N, I> Nope for VI<N, I> {}
impl<N, I> Nope for VM<N, I> {}
impl<R, C, I, J> Nope for MI<R, C, I, J> {}
impl<R, C, I, J> Nope for MM<R, C, I, J> {}
#[allow(dead_code)]
impl<N: ArrayLen<u8>, I> VI<N, I> where Vector<u8, N>: std::ops::Index<I, Output = u8> { const HAS: bool = true; }
#[allow(dead_code)]
impl<N: ArrayLen<u8>, I> VM<N, I> where Vector<u8, N>: std::ops::IndexMut<I, Output = u8> { const HAS: bool = true; }
#[allow(dead_code)]
impl<R: ArrayLen<Vector<u8, C>>, C: ArrayLen<u8>, I, J> MI<R, C, I, J> where Matrix<u8, R, C>: std::ops::Index<(I, J), Output = u8> { const HAS: bool = true; }
#[allow(dead_code)]
impl<R: ArrayLen<Vector<u8, C>>, C: ArrayLen<u8>, I, J> MM<R, C, I, J> where Matrix<u8, R, C>: std::ops::IndexMut<(I, J), Output = u8> { const HAS: bool = true; }

macro_rules! vi { ($v:ident => $n:ident, $i:ident, $nn:expr, $ii:expr) => { $v.push(($nn, $ii, VI::<$n, $i>::HAS, VM::<$n, $i>::HAS)); } }
macro_rules! mi { ($v:ident => $r:ident, $c:ident, $i:ident, $j:ident, $rr:expr, $cc:expr, $ii:expr, $jj:expr) => {
    $v.push(($rr, $cc, $ii, $jj, MI::<$r, $c, $i, $j>::HAS, MM::<$r, $c, $i, $j>::HAS));
} }
fn types(m: &mut Mon) {
    m.case("types/vector", |c| {
        let mut v: Vec<(usize, usize, bool, bool)> = vec![];
        for_index! {vi v =>}
        for (n, i, a, b) in v {
            c.eq("type-level index accepted (length, index, Index, IndexMut)", &(n, i, a, b), &(n, i, i < n, i < n));
            c.unit(mix((n * 100 + i) as u64), true);
        }
        c.count("type-level indices probed", c.iter_events);
    });
    m.case("types/matrix", |c| {
        let mut v: Vec<(usize, usize, usize, usize, bool, bool)> = vec![];
        for_index2! {mi v =>}
        for (r, k, i, j, a, b) in v {
            let ok = i < r && j < k;
            c.eq("type-level index accepted (rows, cols, i, j, Index, IndexMut)", &(r, k, i, j, a, b), &(r, k, i, j, ok, ok));
            c.unit(mix((r * 1000000 + k * 10000 + i * 100 + j) as u64), true);
        }
    });
}

macro_rules! v { ($m:ident $kind:expr, $t:ty => $n:ident, $nn:expr) => { vector::<$t, $n>($m, $kind, $nn); } }
macro_rules! sh { ($m:ident $kind:expr, $t:ty => $r:ident, $c:ident, $rr:expr, $cc:expr) => { matrix::<$t, $r, $c>($m, $kind, $rr, $cc); } }

fn main() {
    let mut mon = Mon::new("C13");
    let m = &mut mon;
    for_lens! {v m "u64", u64 =>}
    for_lens_small! {v m "u8", u8 =>}
    for_lens_small! {v m "string", String =>}
    for_lens_small! {v m "al64", Al64 =>}
    for_lens_small! {v m "unit", () =>}
    for_lens_small! {v m "array40", [u64; 40] =>}
    for_shapes! {sh m "u64", u64 =>}
    for_shapes_small! {sh m "u8", u8 =>}
    for_shapes_small! {sh m "string", String =>}
    for_shapes_small! {sh m "al64", Al64 =>}
    types(m);
    mon.finish();
}
