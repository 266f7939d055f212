//! C01: whichever type-level index the type system lets through must reach an element of the value itself.
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::marker::PhantomData;

struct VI<N, I>(PhantomData<(N, I)>);
struct VM<N, I>(PhantomData<(N, I)>);
struct MI<R, C, I>(PhantomData<(R, C, I)>);
struct MM<R, C, I>(PhantomData<(R, C, I)>);
/// Distance in bytes of the reached element from the start of the value.
trait Refused { fn reach() -> Option<isize> { None } }
impl<N, I> Refused for VI<N, I> {}
impl<N, I> Refused for VM<N, I> {}
impl<R, C, I> Refused for MI<R, C, I> {}
impl<R, C, I> Refused for MM<R, C, I> {}
fn dist<V>(v: *const V, x: *const u8) -> Option<isize> { Some((x as isize).wrapping_sub(v as isize)) }
#[allow(dead_code)]
impl<N: ArrayLen<u8>, I: Default> VI<N, I> where Vector<u8, N>: std::ops::Index<I, Output = u8> {
    fn reach() -> Option<isize> { let v: Vector<u8, N> = Vector::generate(|k| k as u8); let x = &v[I::default()]; std::hint::black_box(*x); dist(&v, x) }
}
#[allow(dead_code)]
impl<N: ArrayLen<u8>, I: Default> VM<N, I> where Vector<u8, N>: std::ops::IndexMut<I, Output = u8> {
    fn reach() -> Option<isize> { let mut v: Vector<u8, N> = Vector::generate(|k| k as u8); let b: *const _ = &v; dist(b, &mut v[I::default()]) }
}
#[allow(dead_code)]
impl<R: ArrayLen<Vector<u8, C>>, C: ArrayLen<u8>, I: Default> MI<R, C, I> where Matrix<u8, R, C>: std::ops::Index<I, Output = u8> {
    fn reach() -> Option<isize> { let m: Matrix<u8, R, C> = Matrix::generate(|(i, j)| (i + j) as u8); let x = &m[I::default()]; std::hint::black_box(*x); dist(&m, x) }
}
#[allow(dead_code)]
impl<R: ArrayLen<Vector<u8, C>>, C: ArrayLen<u8>, I: Default> MM<R, C, I> where Matrix<u8, R, C>: std::ops::IndexMut<I, Output = u8> {
    fn reach() -> Option<isize> { let mut m: Matrix<u8, R, C> = Matrix::generate(|(i, j)| (i + j) as u8); let b: *const _ = &m; dist(b, &mut m[I::default()]) }
}
type Reach = fn() -> Option<isize>;
macro_rules! vi { ($v:ident => $n:ident, $i:ident, $nn:expr, $ii:expr) => { $v.push(($nn, 1, ($ii, 0), VI::<$n, $i>::reach as Reach, VM::<$n, $i>::reach as Reach)); } }
macro_rules! mi { ($v:ident => $r:ident, $c:ident, $i:ident, $j:ident, $rr:expr, $cc:expr, $ii:expr, $jj:expr) => {
    $v.push(($rr, $cc, ($ii, $jj), MI::<$r, $c, ($i, $j)>::reach as Reach, MM::<$r, $c, ($i, $j)>::reach as Reach));
} }
fn static_indices(m: &mut Mon) {
    for mat in [false, true] {
        m.case(if mat { "type-level/matrix" } else { "type-level/vector" }, |c| {
            let mut v: Vec<(usize, usize, (usize, usize), Reach, Reach)> = vec![];
            if mat { for_index2! {mi v =>} } else { for_index! {vi v =>} }
            for (r, k, ij, a, b) in v {
                for (how, f) in [("shared", a), ("mutable", b)] {
                    let got = catches(f);
                    c.check(matches!(got, Ok(None)) || matches!(got, Ok(Some(d)) if d >= 0 && (d as usize) < r * k),
                        || format!("a {how} type-level index {ij:?} into {r}x{k} is accepted and reaches {got:?} bytes into {} bytes", r * k));
                    if matches!(got, Ok(Some(_))) { c.count("type-level indices accepted", 1) } else { c.count("type-level indices refused", 1) }
                }
                c.unit(mix((r * 1000000 + k * 10000 + ij.0 * 100 + ij.1) as u64 ^ (mat as u64) << 60), true);
            }
        });
    }
}

fn main() {
    let mut m = Mon::new("C01");
    static_indices(&mut m);
    m.finish();
}
