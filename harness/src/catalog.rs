//! The op catalogue: every public operation as a function over a pool of values, shared by the monitors of memory
//! safety, ownership, faults, profiles, allocation and threads. Ops use no heap of their own.
use crate::elems::{Arith, Elem, HTok, Tok};
use crate::fault::callback as cb;
use crate::rng::{mix, Rng};
use rowcol::matrix::Matrix;
use rowcol::matrix::ops::{Cofactor, Determinant, Inverse};
use rowcol::typenum::consts::*;
use rowcol::typenum::uint::UInt;
use rowcol::typenum::{Bit, Mod, Prod, Same, Unsigned};
use rowcol::vector::{ArrayLen, Vector};
use approx::ApproxEq;
use std::cmp::Ordering;
use std::fmt::Write;
use std::ops::{Add, Mul, Rem, Sub};

/// May panic on its own (the panic is caught inside).
pub const PANICS: u8 = 1;
/// Documented to differ between profiles.
pub const PROFILE: u8 = 2;
/// Allocates by documentation (Display).
pub const ALLOC: u8 = 4;
/// Reads the pool only.
pub const READS: u8 = 8;

pub struct Env {
    pub rng: Rng,
    pub dig: u64,
    k: u64,
    /// Elements are among the first so many of their kind (zeros, ones, equal ones); 0 is no limit.
    palette: u64,
    /// Elements handed to or taken from the library.
    pub seen: u64,
}
impl Env {
    pub fn new(seed: u64) -> Env {
        Env { rng: Rng::new(seed), dig: 0, k: seed % 1000, palette: [0, 0, 0, 1, 2, 2, 3, 6][(mix(seed ^ 0x5eed) % 8) as usize], seen: 0 }
    }
    pub fn mk<T: Elem>(&mut self) -> T {
        self.k += 1;
        T::mk(match self.palette {
            0 => mix(self.k) % 100_000,
            p => mix(self.k) % p,
        })
    }
    pub fn note(&mut self, x: u64) {
        self.dig = mix(self.dig ^ x);
    }
    pub fn look<T: Elem>(&mut self, x: &T) {
        self.seen += 1;
        let p = x.peek();
        self.note(p);
    }
    pub fn see<T: Elem>(&mut self, x: T) {
        self.look(&x);
    }
    pub fn opt<T: Elem>(&mut self, x: Option<T>) {
        match x {
            Some(x) => self.see(x),
            None => self.note(0xdead),
        }
    }
    pub fn look_v<T: Elem, N: ArrayLen<T>>(&mut self, v: &Vector<T, N>) {
        let n = v.as_slice().len();
        self.note(n as u64 + 1000);
        for x in v.iter() {
            self.look(x);
        }
    }
    pub fn see_v<T: Elem, N: ArrayLen<T>>(&mut self, v: Vector<T, N>) {
        self.look_v(&v);
    }
    pub fn look_m<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(&mut self, m: &Matrix<T, R, C>) {
        for r in m.rows_iter_ref() {
            for x in r {
                self.look(x);
            }
        }
    }
    pub fn see_m<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(&mut self, m: Matrix<T, R, C>) {
        self.look_m(&m);
    }
    pub fn see_vv<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(&mut self, v: &Vector<Vector<T, C>, R>) {
        for r in v.iter() {
            self.look_v(r);
        }
    }
    fn small(&mut self, n: usize) -> usize {
        match self.rng.below(8) {
            0 => usize::MAX - self.rng.usize(2),
            1 => n,
            2 => n + 1,
            _ => self.rng.usize(n + 1) / 2,
        }
    }
    pub fn vec<T: Elem, N: ArrayLen<T>>(&mut self) -> Vector<T, N> {
        (0..N::to_usize()).map(|_| self.mk()).collect()
    }
    pub fn mat<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(&mut self) -> Matrix<T, R, C> {
        Matrix::generate(|_| self.mk())
    }
}
/// Folds formatted text, without allocating.
pub struct Sink(pub u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = mix(self.0 ^ b as u64);
        }
        Ok(())
    }
}
/// A source of `left` new elements; every request is a callback.
pub struct Src<'a> {
    pub e: &'a mut Env,
    pub left: usize,
}
impl<'a> Src<'a> {
    fn pull<T: Elem>(&mut self) -> Option<T> {
        cb();
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(self.e.mk())
    }
}
/// A source whose size hint has nothing to do with what it yields.
pub struct Liar<'a, T>(pub Src<'a>, pub (usize, Option<usize>), pub std::marker::PhantomData<T>);
impl<'a, T: Elem> Iterator for Liar<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.pull() }
    fn size_hint(&self) -> (usize, Option<usize>) { cb(); self.1 }
}
fn liar_hint(e: &mut Env, n: usize) -> (usize, Option<usize>) {
    let c = [0, 1, n / 2, n, n, n, n + 1, 2 * n, usize::MAX];
    (c[e.rng.usize(9)], if e.rng.chance(2, 3) { Some(c[e.rng.usize(9)]) } else { None })
}

pub trait Filled {
    fn fill(&mut self, e: &mut Env);
    /// Reads every element.
    fn inspect(&self, e: &mut Env);
}
pub type Op<P> = (&'static str, u8, fn(&mut P, &mut Env));

/// Matrices a, b (R x C), t (C x R), vectors v, w (C), u (R). Consuming ops take them out; `fill` puts new ones in.
pub struct Pool<T, R, C>
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    pub a: Option<Matrix<T, R, C>>,
    pub b: Option<Matrix<T, R, C>>,
    pub t: Option<Matrix<T, C, R>>,
    pub v: Option<Vector<T, C>>,
    pub w: Option<Vector<T, C>>,
    pub u: Option<Vector<T, R>>,
}
impl<T: Elem, R, C> Pool<T, R, C>
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    pub fn empty() -> Self {
        Pool { a: None, b: None, t: None, v: None, w: None, u: None }
    }
}
impl<T: Elem, R, C> Filled for Pool<T, R, C>
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    fn fill(&mut self, e: &mut Env) {
        if self.a.is_none() { self.a = Some(e.mat()) }
        if self.b.is_none() { self.b = Some(e.mat()) }
        if self.t.is_none() { self.t = Some(e.mat()) }
        if self.v.is_none() { self.v = Some(e.vec()) }
        if self.w.is_none() { self.w = Some(e.vec()) }
        if self.u.is_none() { self.u = Some(e.vec()) }
    }
    fn inspect(&self, e: &mut Env) {
        if let Some(x) = &self.a { e.look_m(x) }
        if let Some(x) = &self.b { e.look_m(x) }
        if let Some(x) = &self.t { e.look_m(x) }
        if let Some(x) = &self.v { e.look_v(x) }
        if let Some(x) = &self.w { e.look_v(x) }
        if let Some(x) = &self.u { e.look_v(x) }
    }
}

/// Random front/back steps and skips; what happens to the iterator afterwards is the caller's choice.
pub fn drive<T: Elem, I: DoubleEndedIterator<Item = T>>(e: &mut Env, it: &mut I, n: usize, steps: usize) {
    for _ in 0..steps {
        match e.rng.below(6) {
            0 | 1 => { let x = it.next(); e.opt(x) }
            2 | 3 => { let x = it.next_back(); e.opt(x) }
            4 => { let k = e.small(n); let x = it.nth(k); e.opt(x) }
            _ => { let k = e.small(n); let x = it.nth_back(k); e.opt(x) }
        }
    }
}
/// One consuming adaptor chosen at random.
pub fn finish<T: Elem, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(e: &mut Env, mut it: I, n: usize) {
    let k = e.small(n);
    match e.rng.below(30) {
        0 => drop(it),
        1 => { let c = it.count(); e.note(c as u64) }
        2 => { let x = it.last(); e.opt(x) }
        3 => it.for_each(|x| { cb(); e.see(x) }),
        4 => it.rev().for_each(|x| { cb(); e.see(x) }),
        5 => { let h = it.fold(1, |h, x| { cb(); mix(h ^ x.peek()) }); e.note(h) }
        6 => { let h = it.rfold(1, |h, x| { cb(); mix(h ^ x.peek()) }); e.note(h) }
        7 => { let mut left = k; let r = it.try_fold(0u64, |h, x| { cb(); if left == 0 { Err(x) } else { left -= 1; Ok(mix(h ^ x.peek())) } }); match r { Ok(h) => e.note(h), Err(x) => e.see(x) } e.note(it.len() as u64) }
        8 => { let mut left = k; let r = it.try_rfold(0u64, |h, x| { cb(); if left == 0 { Err(x) } else { left -= 1; Ok(mix(h ^ x.peek())) } }); match r { Ok(h) => e.note(h), Err(x) => e.see(x) } e.note(it.len() as u64) }
        9 => for x in it.skip(k) { e.see(x) },
        10 => for x in it.take(k) { e.see(x) },
        11 => for x in it.rev().skip(k) { e.see(x) },
        12 => for x in it.rev().take(k) { e.see(x) },
        13 => for x in it.step_by(1 + k % 3) { e.see(x) },
        14 => { let mut left = k; for x in it.take_while(|_| { cb(); left = left.wrapping_sub(1); left < usize::MAX / 2 }) { e.see(x) } }
        15 => { let mut i = 0; for x in it.filter(|_| { cb(); i += 1; i % 2 == 0 }) { e.see(x) } }
        16 => { let mut i = 0; let r = it.find(|_| { cb(); i += 1; i > k % 5 }); e.opt(r); e.note(it.len() as u64) }
        17 => { let mut i = 0; let r = it.position(|x| { cb(); i += 1; e.look(&x); i > k % 5 }); e.note(r.unwrap_or(99) as u64) }
        18 => { let mut i = 0; let r = it.rposition(|x| { cb(); i += 1; e.look(&x); i > k % 5 }); e.note(r.unwrap_or(99) as u64) }
        19 => { let r = it.max_by(|a, b| { cb(); a.peek().cmp(&b.peek()) }); e.opt(r) }
        20 => { let mut p = it.peekable(); if let Some(x) = p.peek() { let q = x.peek(); e.note(q) } if k % 2 == 0 { let x = p.next(); e.opt(x) } }
        21 => { let r = it.rev().nth(k); e.opt(r) }
        22 => for (i, x) in it.enumerate().rev() { e.note(i as u64); e.see(x) },
        23 => { let mut i = 0; for x in it { e.see(x); i += 1; if i > k { break } } }
        24 => { let mut held = None; for x in it.map(|x| { cb(); x }) { held = Some(x) } e.opt(held) }
        25 => { let r = it.all(|x| { cb(); e.look(&x); true }); e.note(r as u64) }
        26 => { let mut z = it.skip(1).rev().skip(1); let x = z.next(); e.opt(x) }
        27 => { let r = it.nth(k); e.opt(r); let c = it.count(); e.note(c as u64) }
        28 => { let mut f = it.fuse(); while let Some(x) = f.next_back() { e.see(x) } let x = f.next(); e.opt(x) }
        _ => { let x = it.next_back(); e.opt(x); let y = it.next(); e.opt(y); drop(it) }
    }
}

macro_rules! ops { ($(#[$doc:meta])* $name:ident [$($g:tt)*] ($p:ident: $pool:ty, $e:ident) where { $($w:tt)* } { $($op:literal $flags:expr => $body:expr;)* }) => {
    $(#[$doc])*
    #[allow(unused_mut, unused_variables)]
    pub fn $name<$($g)*>() -> Vec<Op<$pool>> where $($w)* { vec![ $( ($op, $flags, |$p: &mut $pool, $e: &mut Env| { $body; }) ),* ] }
} }

fn nn<T, N: ArrayLen<T>>() -> usize { <N as Unsigned>::to_usize() }

ops! { 
    /// Ops on vectors of any element.
    vector_ops [T: Elem, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> + ArrayLen<u64> } {
    "generate" 0 => { let v = Vector::<T, C>::generate(|_| { cb(); e.mk() }); p.v = Some(v); };
    "collect" 0 => { let n = nn::<T, C>(); let v: Vector<T, C> = { let mut s = Src { e, left: n }; std::iter::from_fn(|| s.pull()).collect() }; p.v = Some(v); };
    "collect from a source that lies about its size" 0 => { let n = nn::<T, C>(); let h = liar_hint(e, n); let v: Vector<T, C> = Liar(Src { e, left: n }, h, std::marker::PhantomData).collect(); p.v = Some(v); };
    "collect too few from a source that lies about its size" PANICS => { let n = nn::<T, C>(); if n > 0 { let h = liar_hint(e, n); let k = e.rng.usize(n); let r = crate::catches(|| Liar(Src { e, left: k }, h, std::marker::PhantomData).collect::<Vector<T, C>>()); e.note(r.is_ok() as u64) } };
    "collect from a source that resumes" PANICS => { let n = nn::<T, C>(); if n > 0 { let k = e.rng.usize(n); let r = crate::catches(|| { let mut i = 0; let mut s = Src { e, left: 2 * n }; std::iter::from_fn(|| { i += 1; if i == k + 1 { None } else { s.pull::<T>() } }).collect::<Vector<T, C>>() }); e.note(r.is_ok() as u64) } };
    "collect map" 0 => { let v: Vector<T, C> = p.v.take().unwrap().into_iter().map(|x| { cb(); x }).collect(); p.v = Some(v); };
    "collect too few" PANICS => { let n = nn::<T, C>(); if n > 0 { let k = e.rng.usize(n); let r = crate::catches(|| { let mut s = Src { e, left: k }; std::iter::from_fn(|| s.pull()).collect::<Vector<T, C>>() }); e.note(r.is_ok() as u64); } };
    "collect too many" PANICS | PROFILE => { let n = nn::<T, C>(); let k = n + 1 + e.rng.usize(3); let r = crate::catches(|| { let mut s = Src { e, left: k }; std::iter::from_fn(|| s.pull()).collect::<Vector<T, C>>() }); if let Ok(v) = r { e.see_v(v); } };
    "collect twice from one source" 0 => { let n = nn::<T, C>(); let (x, y) = { let mut s = Src { e, left: 2 * n }; let mut it = std::iter::from_fn(|| s.pull()); let x: Vector<T, C> = it.by_ref().take(n).collect(); let y: Vector<T, C> = it.by_ref().take(n).collect(); (x, y) }; p.v = Some(x); p.w = Some(y); };
    "collect chain" 0 => { let n = nn::<T, C>(); let k = e.rng.usize(n + 1); let x: Vector<T, C> = p.v.take().unwrap().into_iter().skip(k).chain(p.w.take().unwrap()).take(n).collect(); p.v = Some(x); };
    "collect rev" 0 => { let x: Vector<T, C> = p.v.take().unwrap().into_iter().rev().collect(); p.v = Some(x); };
    "collect from options" PANICS => { let n = nn::<T, C>(); let k = e.rng.usize(n + 1); let r = crate::catches(|| { let mut s = Src { e, left: n }; let mut i = 0; let v: Option<Vector<T, C>> = std::iter::from_fn(|| { i += 1; if i <= n { s.pull::<T>().map(|x| if i == k { None } else { Some(x) }) } else { None } }).collect(); v }); if let Ok(Some(v)) = r { e.see_v(v) } };
    "into_iter dropped part-way" 0 => { let n = nn::<T, C>(); let mut it = p.v.take().unwrap().into_iter(); let s = e.rng.usize(n + 2); drive(e, &mut it, n, s); e.note(it.len() as u64); };
    "into_iter finished" 0 => { let n = nn::<T, C>(); let mut it = p.v.take().unwrap().into_iter(); let s = e.rng.usize(n + 2) / 2; drive(e, &mut it, n, s); finish(e, it, n); };
    "into_iter finished at once" 0 => { let n = nn::<T, C>(); finish(e, p.v.take().unwrap().into_iter(), n); };
    "into_iter moved" 0 => { let n = nn::<T, C>(); let mut it = p.v.take().unwrap().into_iter(); let mut jt = p.w.take().unwrap().into_iter(); drive(e, &mut it, n, 2); std::mem::swap(&mut it, &mut jt); drive(e, &mut it, n, 1); let mut both = [Some(it), Some(jt)]; drive(e, both[1].as_mut().unwrap(), n, 1); let it = both[1].take().unwrap(); finish(e, it, n); };
    "iterators zipped" 0 => { let n = nn::<T, C>(); let k = e.rng.usize(n + 1); for (x, y) in p.v.take().unwrap().into_iter().skip(k).zip(p.w.take().unwrap()) { cb(); e.see(x); e.see(y) } };
    "iterators zipped from the back" 0 => { for (x, y) in p.v.take().unwrap().into_iter().zip(p.w.take().unwrap()).rev().take(3) { e.see(x); e.see(y) } };
    "iterators chained" 0 => { let n = nn::<T, C>(); let mut it = p.v.take().unwrap().into_iter().chain(p.w.take().unwrap()); drive(e, &mut it, n, 5); };
    "clone" 0 => { let x = p.v.as_ref().unwrap().clone(); e.see_v(x); };
    "clone twice and drop" 0 => { let x = p.v.as_ref().unwrap().clone(); let y = x.clone(); drop(x); p.w = Some(y); };
    "clone_from" 0 => { let w = p.w.take().unwrap(); p.v.as_mut().unwrap().clone_from(&w); p.w = Some(w); };
    "==" 0 => { let r = p.v == p.w; let s = p.v.as_ref().unwrap() != p.v.as_ref().unwrap(); e.note(r as u64 + 2 * s as u64); };
    "Debug" 0 => { let mut s = Sink(1); write!(s, "{:?} {:#?}", p.v.as_ref().unwrap(), p.w.as_ref().unwrap()).unwrap(); e.note(s.0); };
    "Debug with flags" 0 => { let mut s = Sink(1); let v = p.v.as_ref().unwrap(); write!(s, "{:12?} {:>5.2?} {:#08x?} {:+?}", v, v, v, v).unwrap(); e.note(s.0); };
    "slice edits" 0 => { let v = p.v.as_mut().unwrap(); v.as_slice_mut().reverse(); let n = v.len(); if n > 0 { let k = e.rng.usize(n); v.as_slice_mut().rotate_left(k); v.as_slice_mut().swap(0, k); (**v).as_mut().swap(k, n - 1); AsMut::<[T]>::as_mut(v).reverse(); } };
    "sort" 0 => p.v.as_mut().unwrap().as_slice_mut().sort_unstable_by(|a, b| { cb(); a.peek().cmp(&b.peek()) });
    "replace by index" 0 => { let v = p.v.as_mut().unwrap(); let n = v.len(); if n > 0 { let k = e.rng.usize(n); v[k] = e.mk(); let old = std::mem::replace(&mut v[n - 1 - k], e.mk()); e.see(old); } };
    "replace by iter_mut" 0 => for x in p.v.as_mut().unwrap().iter_mut() { cb(); *x = e.mk() };
    "unchecked access" 0 => { let v = p.v.as_mut().unwrap(); let n = v.len(); for i in 0..n { unsafe { let y: *const T = v.get_unchecked(i); e.look(&*y); if i % 2 == 0 { *v.get_unchecked_mut(i) = e.mk(); } } } };
    "index out of bounds" PANICS => { let v = p.v.as_mut().unwrap(); let n = v.len(); let k = [n, n + 1, usize::MAX, usize::MAX / 2 + 1][e.rng.usize(4)]; let r = crate::catches(|| v[k].peek()); let s = crate::catches(|| { v[k] = T::mk(1); }); e.note(r.is_ok() as u64 + s.is_ok() as u64); };
    "into_inner" 0 => { let v = p.v.take().unwrap(); let a = v.into_inner(); for x in a.as_ref() { e.look(x) } if e.rng.chance(1, 2) { p.v = Some(Vector::new(a)); } };
    "swap and replace" 0 => { std::mem::swap(&mut p.v, &mut p.w); let x = e.vec(); let old = p.v.replace(x); e.see_v(old.unwrap()); let y = e.vec(); *p.w.as_mut().unwrap() = y; };
    "nested vectors" 0 => { let n = nn::<T, C>(); let x: Vector<Vector<T, C>, U2> = [p.v.take().unwrap(), p.w.take().unwrap()].into_iter().collect(); let mut it = x.into_iter(); let b = it.next_back(); let first = it.next().unwrap(); drop(it); finish(e, first.into_iter(), n); p.v = b; };
    "nested iterators" 0 => { let n = nn::<T, C>(); let mut x = Vector::<_, U2>::new([p.v.take().unwrap().into_iter(), p.w.take().unwrap().into_iter()]); drive(e, &mut x[0], n, 1); drive(e, &mut x[1], n, 2); let mut it = x.into_iter(); let y = it.nth(1).unwrap(); finish(e, y, n); };
    "map to numbers" 0 => { let v: Vector<u64, C> = p.v.take().unwrap().into_iter().map(|x| { cb(); x.peek() }).collect(); for &x in v.iter() { e.note(x) } };
    "vector of options" 0 => { let n = nn::<T, C>(); let mut v: Vector<Option<T>, U3> = Vector::default(); let mut it = p.v.take().unwrap().into_iter(); v[1] = it.next(); v[2] = it.next_back(); let x = v[1].take(); if let Some(x) = x { e.see(x) } drop(it); if n > 1 { if let Some(x) = &v[2] { e.look(x) } } };
    "len" READS => { let v = p.v.as_ref().unwrap(); e.note(v.len() as u64 * 2 + v.is_empty() as u64) };
    "read" READS => { let v = p.v.as_ref().unwrap(); for x in v.iter().rev() { e.look(x) } for x in v.as_ref() { e.look(x) } };
} }

ops! {
    /// Ops on matrices of any element.
    matrix_ops [T: Elem, R, C] (p: Pool<T, R, C>, e) where {
        R: ArrayLen<Vector<T, C>> + ArrayLen<T> + ArrayLen<<C as ArrayLen<T>>::Array> + ArrayLen<Vector<u64, C>>,
        C: ArrayLen<T> + ArrayLen<Vector<T, R>> + ArrayLen<u64>
    } {
    "matrix generate" 0 => { let m = Matrix::generate(|_| { cb(); e.mk() }); p.a = Some(m); };
    "Matrix::new" 0 => { let rows: Vector<<C as ArrayLen<T>>::Array, R> = (0..nn::<T, R>()).map(|_| { cb(); e.vec::<T, C>().into_inner() }).collect(); p.a = Some(Matrix::new(rows.into_inner())); };
    "matrix map" 0 => { let m = p.a.take().unwrap().map(|(i, j), x| { cb(); if (i + j) % 2 == 0 { x } else { e.mk() } }); p.a = Some(m); };
    "matrix map to numbers" 0 => { let m = p.a.take().unwrap().map(|(i, j), x| { cb(); mix(x.peek() ^ i as u64) ^ j as u64 }); for r in m.rows_iter_ref() { for &x in r { e.note(x) } } };
    "all and any" 0 => { let a = p.a.as_ref().unwrap(); let mut k = e.rng.usize(12); let r = a.all(|_, x| { cb(); x.peek(); if k > 0 { k -= 1 }; k > 0 }); let s = a.any(|_, x| { cb(); x.peek() % 7 == 0 }); e.note(r as u64 + 2 * s as u64) };
    "transposed" 0 => { let t = p.a.as_ref().unwrap().transposed(); p.t = Some(t); };
    "transposed twice" 0 => { let t = p.a.as_ref().unwrap().transposed().transposed(); e.see_m(t); };
    "rows_iter" 0 => { let n = nn::<T, R>(); let mut it = p.a.as_ref().unwrap().rows_iter(); for _ in 0..e.rng.usize(4) { let x = match e.rng.below(4) { 0 => it.next(), 1 => it.next_back(), 2 => { let k = e.small(n); it.nth(k) } _ => { let k = e.small(n); it.nth_back(k) } }; if let Some(x) = x { e.see_v(x) } } e.note(it.len() as u64); if e.rng.chance(1, 2) { for x in it.rev() { e.see_v(x) } } };
    "cols_iter" 0 => { let n = nn::<T, C>(); let mut it = p.a.as_ref().unwrap().cols_iter(); for _ in 0..e.rng.usize(4) { let x = match e.rng.below(4) { 0 => it.next(), 1 => it.next_back(), 2 => { let k = e.small(n); it.nth(k) } _ => { let k = e.small(n); it.nth_back(k) } }; if let Some(x) = x { e.see_v(x) } } e.note(it.len() as u64); if e.rng.chance(1, 2) { for x in it.rev() { e.see_v(x) } } };
    "rows_iter ends" 0 => { let a = p.a.as_ref().unwrap(); let x = a.rows_iter().last(); if let Some(x) = x { e.see_v(x) } let c = a.rows_iter().count(); e.note(c as u64); let mut f = a.rows_iter(); for _ in 0..3 { if let Some(x) = f.next_back() { e.see_v(x) } } };
    "cols_iter ends" 0 => { let a = p.a.as_ref().unwrap(); let x = a.cols_iter().last(); if let Some(x) = x { e.see_v(x) } let c = a.cols_iter().count(); e.note(c as u64); let mut f = a.cols_iter(); for _ in 0..3 { if let Some(x) = f.next_back() { e.see_v(x) } } };
    "rows_iter_ref" READS => { let n = nn::<T, R>(); let a = p.a.as_ref().unwrap(); let mut it = a.rows_iter_ref(); for _ in 0..e.rng.usize(4) { let x = match e.rng.below(4) { 0 => it.next(), 1 => it.next_back(), 2 => { let k = e.small(n); it.nth(k) } _ => { let k = e.small(n); it.nth_back(k) } }; if let Some(x) = x { for y in x { e.look(y) } } } for x in it { for y in x { e.look(y) } } let l = a.rows_iter_ref().last(); e.note(l.map_or(0, |l| l.len() as u64)) };
    "cols_iter_ref" READS => { let n = nn::<T, C>(); let h = nn::<T, R>(); let a = p.a.as_ref().unwrap(); let mut it = a.cols_iter_ref(); for _ in 0..e.rng.usize(4) { let x = match e.rng.below(4) { 0 => it.next(), 1 => it.next_back(), 2 => { let k = e.small(n); it.nth(k) } _ => { let k = e.small(n); it.nth_back(k) } }; if let Some(mut x) = x { let k = e.small(h); if let Some(y) = x.nth(k) { e.look(y) } if let Some(y) = x.next_back() { e.look(y) } let k = e.small(h); if let Some(y) = x.nth_back(k) { e.look(y) } for y in x { e.look(y) } } } for x in it.rev() { if let Some(y) = x.last() { e.look(y) } } };
    "matrix clone" 0 => { let x = p.a.as_ref().unwrap().clone(); p.b = Some(x); };
    "matrix clone_from" 0 => { let b = p.b.take().unwrap(); p.a.as_mut().unwrap().clone_from(&b); p.b = Some(b); };
    "matrix ==" 0 => { let r = p.a == p.b; let s = p.a.as_ref().unwrap() == p.a.as_ref().unwrap(); e.note(r as u64 + 2 * s as u64) };
    "matrix Debug" 0 => { let mut s = Sink(1); write!(s, "{:?} {:#?}", p.a.as_ref().unwrap(), p.b.as_ref().unwrap()).unwrap(); e.note(s.0) };
    "matrix Debug with flags" 0 => { let mut s = Sink(1); let a = p.a.as_ref().unwrap(); write!(s, "{:12?} {:>5.2?} {:#08x?} {:+?}", a, a, a, a).unwrap(); e.note(s.0) };
    "matrix replace by index" 0 => { let (r, c) = (nn::<T, R>(), nn::<T, C>()); if r * c > 0 { let i = (e.rng.usize(r), e.rng.usize(c)); let m = p.a.as_mut().unwrap(); m[i] = e.mk(); let y: *const T = &m[i]; e.look(unsafe { &*y }); let old = std::mem::replace(&mut m[i], e.mk()); e.see(old); unsafe { *m.get_unchecked_mut(i) = e.mk(); let y: *const T = m.get_unchecked(i); e.look(&*y) } } };
    "matrix index out of bounds" PANICS => { let (r, c) = (nn::<T, R>(), nn::<T, C>()); let m = p.a.as_mut().unwrap(); let i = [(r, 0), (0, c), (usize::MAX, usize::MAX), (0, c + 1), (r, c), (r.wrapping_sub(1), usize::MAX), (usize::MAX / 2 + 1, 0)][e.rng.usize(7)]; let x = crate::catches(|| m[i].peek()); let y = crate::catches(|| m[i] = T::mk(1)); e.note(x.is_ok() as u64 + y.is_ok() as u64) };
    "matrix swap and replace" 0 => { std::mem::swap(&mut p.a, &mut p.b); let x = e.mat(); let old = p.a.replace(x); e.see_m(old.unwrap()); *p.b.as_mut().unwrap() = e.mat(); };
    "dim" READS => { let d = p.a.as_ref().unwrap().dim(); let m = p.a.as_ref().unwrap(); e.note(d.0 as u64 * 64 + d.1 as u64 + m.rows() as u64 + m.cols() as u64) };
} }

ops! {
    /// In-place and square-only structure.
    square_ops [T: Elem, N] (p: Pool<T, N, N>, e) where { N: ArrayLen<Vector<T, N>> + ArrayLen<T> } {
    "transpose" 0 => p.a.as_mut().unwrap().transpose();
    "transpose twice" 0 => { let m = p.a.as_mut().unwrap(); m.transpose(); m.transpose() };
} }

ops! {
    /// Default-based construction.
    default_ops [T: Elem + Default, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> } {
    "default" 0 => { p.v = Some(Vector::default()); p.a = Some(Matrix::default()); };
    "take by default" 0 => { let v = std::mem::take(p.v.as_mut().unwrap()); e.see_v(v); let m = std::mem::take(p.a.as_mut().unwrap()); e.see_m(m); };
} }

ops! {
    /// Arithmetic in every operand form.
    arith_ops [T: Arith, R, C] (p: Pool<T, R, C>, e) where {
        R: ArrayLen<Vector<T, C>> + ArrayLen<T> + ArrayLen<Vector<T, R>>,
        C: ArrayLen<T> + ArrayLen<Vector<T, R>> + ArrayLen<Vector<T, C>>,
        for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T>
    } {
    "v + w" 0 => { let x = p.v.take().unwrap() + p.w.take().unwrap(); e.see_v(x) };
    "v + &w" 0 => { let x = p.v.take().unwrap() + p.w.as_ref().unwrap(); e.see_v(x) };
    "&v + w" 0 => { let x = p.v.as_ref().unwrap() + p.w.take().unwrap(); e.see_v(x) };
    "&v + &w" 0 => { let x = p.v.as_ref().unwrap() + p.w.as_ref().unwrap(); e.see_v(x) };
    "v - w" 0 => { let x = p.v.take().unwrap() - p.w.take().unwrap(); e.see_v(x) };
    "v - &w" 0 => { let x = p.v.take().unwrap() - p.w.as_ref().unwrap(); e.see_v(x) };
    "&v - w" 0 => { let x = p.v.as_ref().unwrap() - p.w.take().unwrap(); e.see_v(x) };
    "&v - &w" 0 => { let x = p.v.as_ref().unwrap() - p.w.as_ref().unwrap(); e.see_v(x) };
    "v += w" 0 => { let w = p.w.take().unwrap(); *p.v.as_mut().unwrap() += w };
    "v -= w" 0 => { let w = p.w.take().unwrap(); *p.v.as_mut().unwrap() -= w };
    "v * s" 0 => { let s = e.mk::<T>(); let x = p.v.take().unwrap() * s; e.see_v(x) };
    "v *= s" 0 => { let s = e.mk::<T>(); *p.v.as_mut().unwrap() *= s };
    "-v" 0 => { let x = -p.v.take().unwrap(); e.see_v(x) };
    "sum" 0 => { let x = p.v.as_ref().unwrap().sum(); e.see(x); let x = p.a.as_ref().unwrap().sum(); e.see(x) };
    "dot" 0 => { let x = p.v.as_ref().unwrap().dot(p.w.as_ref().unwrap()); e.see(x) };
    "zero" 0 => { p.v = Some(num::Zero::zero()); p.a = Some(num::Zero::zero()) };
    "is_zero" 0 => { let x = num::Zero::is_zero(p.v.as_ref().unwrap()); let y = num::Zero::is_zero(p.a.as_ref().unwrap()); e.note(x as u64 + 2 * y as u64) };
    "min_value" 0 => { p.v = Some(num::Bounded::min_value()); p.a = Some(num::Bounded::max_value()); p.b = Some(num::Bounded::min_value()); p.w = Some(num::Bounded::max_value()) };
    "a + b" 0 => { let x = p.a.take().unwrap() + p.b.take().unwrap(); e.see_m(x) };
    "a + &b" 0 => { let x = p.a.take().unwrap() + p.b.as_ref().unwrap(); e.see_m(x) };
    "&a + b" 0 => { let x = p.a.as_ref().unwrap() + p.b.take().unwrap(); e.see_m(x) };
    "&a + &b" 0 => { let x = p.a.as_ref().unwrap() + p.b.as_ref().unwrap(); e.see_m(x) };
    "a - b" 0 => { let x = p.a.take().unwrap() - p.b.take().unwrap(); e.see_m(x) };
    "a - &b" 0 => { let x = p.a.take().unwrap() - p.b.as_ref().unwrap(); e.see_m(x) };
    "&a - b" 0 => { let x = p.a.as_ref().unwrap() - p.b.take().unwrap(); e.see_m(x) };
    "&a - &b" 0 => { let x = p.a.as_ref().unwrap() - p.b.as_ref().unwrap(); e.see_m(x) };
    "a += b" 0 => { let b = p.b.take().unwrap(); *p.a.as_mut().unwrap() += b };
    "a -= b" 0 => { let b = p.b.take().unwrap(); *p.a.as_mut().unwrap() -= b };
    "a * s" 0 => { let s = e.mk::<T>(); let x = p.a.take().unwrap() * s; e.see_m(x) };
    "a * &s" 0 => { let s = e.mk::<T>(); let x = p.a.take().unwrap() * &s; e.see_m(x) };
    "a *= s" 0 => { let s = e.mk::<T>(); *p.a.as_mut().unwrap() *= s };
    "-a" 0 => { let x = -p.a.take().unwrap(); e.see_m(x) };
    "a * t" 0 => { let x: Matrix<T, R, R> = p.a.take().unwrap() * p.t.take().unwrap(); e.see_m(x) };
    "a * &t" 0 => { let x: Matrix<T, R, R> = p.a.take().unwrap() * p.t.as_ref().unwrap(); e.see_m(x) };
    "&a * t" 0 => { let x: Matrix<T, R, R> = p.a.as_ref().unwrap() * p.t.take().unwrap(); e.see_m(x) };
    "&a * &t" 0 => { let x: Matrix<T, R, R> = p.a.as_ref().unwrap() * p.t.as_ref().unwrap(); e.see_m(x) };
    "&t * &a" 0 => { let x: Matrix<T, C, C> = p.t.as_ref().unwrap() * p.a.as_ref().unwrap(); e.see_m(x) };
    "a * v" 0 => { let x: Vector<T, R> = p.a.take().unwrap() * p.v.take().unwrap(); p.u = Some(x) };
    "a * &v" 0 => { let x: Vector<T, R> = p.a.take().unwrap() * p.v.as_ref().unwrap(); p.u = Some(x) };
} }

ops! {
    /// Division (elements must tolerate any divisor).
    div_ops [T: Arith, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> } {
    "v / s" 0 => { let s = T::mk(7); let x = p.v.take().unwrap() / s; e.see_v(x) };
    "v /= s" 0 => { let s = T::mk(7); *p.v.as_mut().unwrap() /= s };
    "a / s" 0 => { let s = T::mk(7); let x = p.a.take().unwrap() / s; e.see_m(x) };
    "a / &s" 0 => { let s = T::mk(7); let x = p.a.take().unwrap() / &s; e.see_m(x) };
    "a /= s" 0 => { let s = T::mk(7); *p.a.as_mut().unwrap() /= s };
} }

ops! {
    /// Square arithmetic.
    square_arith_ops [T: Arith, N] (p: Pool<T, N, N>, e) where { N: ArrayLen<Vector<T, N>> + ArrayLen<T> } {
    "a *= b" 0 => { let b = p.b.take().unwrap(); *p.a.as_mut().unwrap() *= b };
    "pow" 0 => { let k = if nn::<T, N>() > 4 { e.rng.usize(6) } else { [0, 1, 2, 3, 4, 5, 7, 31, 64, 255, 256, 257, 1000, 4097, 65535][e.rng.usize(15)] }; let x = p.a.as_ref().unwrap().pow(k); e.see_m(x) };
    "identity" 0 => { p.a = Some(Matrix::identity()); p.b = Some(num::One::one()) };
} }

ops! {
    /// Clamping.
    clamp_ops [T: Elem + Ord, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> } {
    "clamp" 0 => { let (x, y) = (e.mk::<T>(), e.mk::<T>()); let (x, y) = if x <= y { (x, y) } else { (y, x) }; p.v.as_mut().unwrap().clamp(x, y) };
    "clamped" 0 => { let (x, y) = (e.mk::<T>(), e.mk::<T>()); let (x, y) = if x <= y { (x, y) } else { (y, x) }; let z = p.v.as_ref().unwrap().clamped(x, y); e.see_v(z) };
    "matrix clamp" 0 => { let (x, y) = (e.mk::<T>(), e.mk::<T>()); let (x, y) = if x <= y { (x, y) } else { (y, x) }; p.a.as_mut().unwrap().clamp(x, y) };
    "matrix clamped" 0 => { let (x, y) = (e.mk::<T>(), e.mk::<T>()); let (x, y) = if x <= y { (x, y) } else { (y, x) }; let z = p.a.as_ref().unwrap().clamped(x, y); e.see_m(z) };
} }

ops! {
    /// Extrema (positive sizes only).
    extrema_ops [T: Elem + Ord, U: Unsigned, B: Bit] (p: Pool<T, UInt<U, B>, UInt<U, B>>, e) where { UInt<U, B>: ArrayLen<T> + ArrayLen<Vector<T, UInt<U, B>>> } {
    "max" 0 => { let x = p.v.as_ref().unwrap().max(); e.see(x); let x = p.v.as_ref().unwrap().min(); e.see(x) };
    "max_by" 0 => { let f = |a: &T, b: &T| { cb(); a.peek().cmp(&b.peek()) }; let x = p.v.as_ref().unwrap().max_by(f); e.see(x); let x = p.v.as_ref().unwrap().min_by(f); e.see(x) };
    "matrix max" 0 => { let x = p.a.as_ref().unwrap().max(); e.see(x); let x = p.a.as_ref().unwrap().min(); e.see(x) };
    "matrix max_by" 0 => { let f = |a: &T, b: &T| { cb(); a.peek().cmp(&b.peek()) }; let x = p.a.as_ref().unwrap().max_by(f); e.see(x); let x = p.a.as_ref().unwrap().min_by(f); e.see(x) };
    "max_by inconsistent" 0 => { let mut r = e.rng.clone(); let x = p.v.as_ref().unwrap().max_by(|_, _| { cb(); [Ordering::Less, Ordering::Equal, Ordering::Greater][r.usize(3)] }); e.see(x) };
} }

ops! {
    /// Determinant and inverse.
    linear_ops [T: Arith, N] (p: Pool<T, N, N>, e) where { N: ArrayLen<Vector<T, N>> + ArrayLen<T>, Matrix<T, N, N>: Determinant<Output = T> + Inverse<Output = Matrix<T, N, N>> } {
    "determinant" 0 => { let x = p.a.as_ref().unwrap().determinant(); e.see(x) };
    "determinant of a singular matrix" 0 => { let n = nn::<T, N>(); let k = e.rng.usize(n.max(1)); let m = p.a.take().unwrap().map(|(i, j), x| if i == k || (i == 0 && j == 0) { T::zero() } else { x }); let x = m.determinant(); e.see(x) };
    "inverse" 0 => { let x = p.a.as_ref().unwrap().inverse(); if let Some(x) = x { e.see_m(x) } };
    "inverse of a singular matrix" 0 => { let n = nn::<T, N>(); let k = e.rng.usize(n.max(1)); let m = p.a.take().unwrap().map(|(_, j), x| if j == k { T::zero() } else { x }); let x = m.inverse(); e.note(x.is_some() as u64) };
    "inverse of a permutation" 0 => { let n = nn::<T, N>(); let k = e.rng.usize(n.max(1)); let m: Matrix<T, N, N> = Matrix::generate(|(i, j)| if (i + k) % n == j { T::one() } else { T::zero() }); if let Some(x) = m.inverse() { e.see_m(x) } };
} }
ops! {
    /// Determinant and inverse without the expansion by minors, whose time is factorial (large matrices).
    big_linear_ops [T: Arith, N] (p: Pool<T, N, N>, e) where { N: ArrayLen<Vector<T, N>> + ArrayLen<T>, Matrix<T, N, N>: Determinant<Output = T> + Inverse<Output = Matrix<T, N, N>> + Cofactor<Output = T> } {
    "determinant of a triangular matrix" 0 => { let u = e.rng.chance(1, 2); let m = p.a.take().unwrap().map(|(i, j), x| if i == j { T::one() } else if (i < j) == u { x } else { T::zero() }); let x = m.determinant(); e.see(x) };
    "inverse of a triangular matrix" 0 => { let u = e.rng.chance(1, 2); let m = p.a.take().unwrap().map(|(i, j), x| if i == j { T::one() } else if (i < j) == u { x } else { T::zero() }); let x = m.inverse(); if let Some(x) = x { e.see_m(x) } };
    "inverse of a large permutation" 0 => { let n = nn::<T, N>(); let k = e.rng.usize(n.max(1)); let m: Matrix<T, N, N> = Matrix::generate(|(i, j)| if (i + k) % n == j { T::one() } else { T::zero() }); if let Some(x) = m.inverse() { e.see_m(x) } };
    "cofactor on the diagonal of a triangular matrix" 0 => { let n = nn::<T, N>(); let k = e.rng.usize(n); let m = p.a.take().unwrap().map(|(i, j), x| if i == j { T::one() } else if i > j { x } else { T::zero() }); let x = m.cofactor((k, k)); e.see(x) };
} }
ops! {
    /// Cofactors.
    cofactor_ops [T: Arith, N] (p: Pool<T, N, N>, e) where { N: ArrayLen<Vector<T, N>> + ArrayLen<T>, Matrix<T, N, N>: Cofactor<Output = T> } {
    "cofactor" 0 => { let n = nn::<T, N>(); let i = (e.rng.usize(n), e.rng.usize(n)); let x = p.a.as_ref().unwrap().cofactor(i); e.see(x) };
    "cofactor out of bounds" PANICS => { let n = nn::<T, N>(); let i = [(n, 0), (0, n), (usize::MAX, 0), (1, usize::MAX), (n, n)][e.rng.usize(5)]; let m = p.a.as_ref().unwrap(); let x = crate::catches(|| m.cofactor(i).peek()); e.note(x.is_ok() as u64) };
} }
ops! {
    /// cross, 3-vectors only.
    cross_ops [T: Arith,] (p: Pool<T, U3, U3>, e) where { T: Arith } {
    "cross" 0 => { let x = p.v.as_ref().unwrap().cross(p.w.as_ref().unwrap()); e.see_v(x) };
    "type-level index" 0 => { let v = p.v.as_mut().unwrap(); v[U2::new()] = e.mk(); let x = v[U0::new()].peek(); e.note(x); let m = p.a.as_mut().unwrap(); m[(U0::new(), U2::new())] = e.mk(); m[(U1::new(), U0::new())] = e.mk(); let x = m[(U0::new(), U0::new())].peek() ^ m[(U2::new(), U2::new())].peek(); e.note(x) };
} }
macro_rules! static_index_ops { ($($name:ident $r:ident $c:ident [$($i:ident)*] $js:tt;)*) => { $( ops! {
    $name [T: Elem,] (p: Pool<T, $r, $c>, e) where { T: Elem } {
    "type-level index of a vector" 0 => { let v = p.u.as_mut().unwrap(); $( v[$i::new()] = e.mk(); let old = std::mem::replace(&mut v[$i::new()], e.mk()); e.see(old); let x = v[$i::new()].peek(); e.note(x); )* };
    "type-level index of a matrix" 0 => { let m = p.a.as_mut().unwrap(); $( static_row!(m e $i $js); )* };
} } )* } }
macro_rules! static_row { ($m:ident $e:ident $i:ident [$($j:ident)*]) => { $( $m[($i::new(), $j::new())] = $e.mk(); let x = $m[($i::new(), $j::new())].peek(); $e.note(x); )* } }
static_index_ops! { static_26 U2 U6 [U0 U1] [U0 U1 U4 U5]; static_62 U6 U2 [U0 U1 U4 U5] [U0 U1]; static_33 U3 U3 [U0 U1 U2] [U0 U1 U2]; static_15 U1 U5 [U0] [U0 U2 U4]; static_51 U5 U1 [U0 U2 U4] [U0]; }
macro_rules! diag_ops { ($($name:ident $r:ident $c:ident $d:ident $n:expr;)*) => { $( ops! {
    $name [T: Arith,] (p: Pool<T, $r, $c>, e) where { T: Arith } {
    "diag" 0 => { let d = e.vec::<T, $d>(); let m = Matrix::<T, $r, $c>::diag(d.into_inner()); p.a = Some(m) };
} } )* } }
diag_ops! { diag_ops_22 U2 U2 U2 2; diag_ops_32 U3 U2 U2 2; diag_ops_24 U2 U4 U2 2; diag_ops_44 U4 U4 U4 4; diag_ops_02 U0 U2 U0 0; }

ops! {
    /// Results of another element type than the operands'.
    retype_ops [T: Elem, V: Elem, R, C] (p: Pool<T, R, C>, e) where {
        R: ArrayLen<Vector<T, C>> + ArrayLen<T> + ArrayLen<Vector<V, C>> + ArrayLen<V>,
        C: ArrayLen<T> + ArrayLen<Vector<T, R>> + ArrayLen<V> + ArrayLen<Vector<V, R>>
    } {
    "matrix map to another type" 0 => { let m: Matrix<V, R, C> = p.a.take().unwrap().map(|_, x| { cb(); let y = V::mk(x.peek() & 0xffff); drop(x); y }); e.see_m(m) };
    "matrix map there and back" 0 => { let mut kept = None; let m = p.a.take().unwrap().map(|(i, _), x| { cb(); let k = x.peek() & 0xff; if i == 0 { kept = Some(x); } V::mk(k) }).map(|_, y: V| { cb(); T::mk(y.peek() & 0xff) }); p.a = Some(m); e.opt(kept); };
    "matrix of another type, transposed" 0 => { let m: Matrix<V, C, R> = p.t.take().unwrap().map(|(i, j), _| { cb(); V::mk((i * 40 + j) as u64) }); let t = m.transposed(); e.see_m(t); e.see_m(m) };
    "collect another type" 0 => { let w: Vector<V, C> = p.v.take().unwrap().into_iter().map(|x| { cb(); V::mk(x.peek() & 0xff) }).collect(); e.see_v(w) };
    "collect another type from the back" 0 => { let w: Vector<V, R> = p.u.take().unwrap().into_iter().rev().map(|x| { cb(); V::mk(x.peek() & 0xff) }).collect(); e.see_v(w) };
    "collect pairs" 0 => { let n = nn::<T, C>(); let k = e.rng.usize(n + 1); let w: Vector<V, C> = p.v.take().unwrap().into_iter().zip(p.w.take().unwrap()).map(|(x, y)| { cb(); V::mk((x.peek() ^ y.peek()) & 0xff) }).collect(); let mut it = w.into_iter(); let y = it.nth(k); e.opt(y) };
    "collect another type, given up" PANICS => { let n = nn::<T, C>(); if n > 0 { let k = e.rng.usize(n); let v = p.v.take().unwrap(); let r = crate::catches(|| { let w: Vector<V, C> = v.into_iter().take(k).map(|x| { cb(); V::mk(x.peek() & 0xff) }).collect(); w.len() }); e.note(r.is_ok() as u64) } };
} }

ops! {
    /// Arithmetic over two element types.
    mixed_ops [R, C,] (p: Pool<Tok, R, C>, e) where {
        R: ArrayLen<Vector<Tok, C>> + ArrayLen<Tok> + ArrayLen<Vector<HTok, C>> + ArrayLen<HTok>,
        C: ArrayLen<Tok> + ArrayLen<Vector<Tok, R>> + ArrayLen<HTok>
    } {
    "mixed v + w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.take().unwrap() + w; e.see_v(x) };
    "mixed v + &w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.take().unwrap() + &w; e.see_v(x); e.see_v(w) };
    "mixed &v + w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.as_ref().unwrap() + w; e.see_v(x) };
    "mixed &v + &w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.as_ref().unwrap() + &w; e.see_v(x); e.see_v(w) };
    "mixed v - w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.take().unwrap() - w; e.see_v(x) };
    "mixed v - &w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.take().unwrap() - &w; e.see_v(x); e.see_v(w) };
    "mixed &v - w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.as_ref().unwrap() - w; e.see_v(x) };
    "mixed &v - &w" 0 => { let w: Vector<HTok, C> = e.vec(); let x = p.v.as_ref().unwrap() - &w; e.see_v(x); e.see_v(w) };
    "mixed v += w" 0 => { let w: Vector<HTok, C> = e.vec(); *p.v.as_mut().unwrap() += w };
    "mixed v -= w" 0 => { let w: Vector<HTok, C> = e.vec(); *p.v.as_mut().unwrap() -= w };
    "mixed a += b" 0 => { let b: Matrix<HTok, R, C> = e.mat(); *p.a.as_mut().unwrap() += b };
    "mixed a -= b" 0 => { let b: Matrix<HTok, R, C> = e.mat(); *p.a.as_mut().unwrap() -= b };
    "mixed v * s" 0 => { let s: HTok = e.mk(); let x = p.v.take().unwrap() * s; e.see_v(x) };
    "mixed v / s" 0 => { let s: HTok = e.mk(); let x = p.v.take().unwrap() / s; e.see_v(x) };
    "mixed v *= s" 0 => { let s: HTok = e.mk(); *p.v.as_mut().unwrap() *= s };
    "mixed v /= s" 0 => { let s: HTok = e.mk(); *p.v.as_mut().unwrap() /= s };
} }

/// Vector of length N in chunks of I.
pub struct ChunkPool<T, N: ArrayLen<T>, I> {
    pub v: Option<Vector<T, N>>,
    _i: std::marker::PhantomData<I>,
}
impl<T: Elem, N: ArrayLen<T>, I> ChunkPool<T, N, I> {
    pub fn empty() -> Self {
        ChunkPool { v: None, _i: std::marker::PhantomData }
    }
}
impl<T: Elem, N: ArrayLen<T>, I> Filled for ChunkPool<T, N, I> {
    fn fill(&mut self, e: &mut Env) {
        if self.v.is_none() { self.v = Some(e.vec()) }
    }
    fn inspect(&self, e: &mut Env) {
        if let Some(x) = &self.v { e.look_v(x) }
    }
}
ops! {
    chunk_ops [T: Elem, N, I] (p: ChunkPool<T, N, I>, e) where { N: ArrayLen<T> + Rem<I>, I: ArrayLen<T>, Mod<N, I>: Same<U0> } {
    "chunks dropped part-way" 0 => { let n = nn::<T, N>() / nn::<T, I>(); let mut it = p.v.take().unwrap().into_chunks::<I>(); for _ in 0..e.rng.usize(n + 2) { let x = match e.rng.below(5) { 0 | 1 => it.next(), 2 => it.next_back(), 3 => { let k = e.small(n); it.nth(k) } _ => { let k = e.small(n); it.nth_back(k) } }; if let Some(x) = x { e.see_v(x) } e.note(it.len() as u64) } };
    "chunks collected" 0 => { let it = p.v.take().unwrap().into_chunks::<I>(); for x in it { cb(); for y in x.into_iter().rev() { e.see(y) } } };
    "chunks reversed" 0 => { let it = p.v.take().unwrap().into_chunks::<I>(); for x in it.rev() { cb(); let k = e.rng.usize(3); for y in x.into_iter().skip(k) { e.see(y) } } };
    "chunks consumed" 0 => { let n = nn::<T, N>() / nn::<T, I>(); let k = e.small(n); let mut it = p.v.take().unwrap().into_chunks::<I>(); match e.rng.below(7) { 0 => e.note(it.count() as u64), 1 => if let Some(x) = it.last() { e.see_v(x) }, 2 => for x in it.skip(k) { e.see_v(x) }, 3 => for x in it.take(k) { e.see_v(x) }, 4 => it.for_each(|x| { cb(); e.see_v(x) }), 5 => { let mut q = 0; let x = it.find(|_| { cb(); q += 1; q > 1 }); if let Some(x) = x { e.see_v(x) } } _ => { let x = it.next(); let y = it.next_back(); if let Some(y) = y { e.see_v(y) } drop(it); if let Some(x) = x { e.see_v(x) } } } };
    "chunks moved" 0 => { let mut it = p.v.take().unwrap().into_chunks::<I>(); let x = it.next(); let mut o = Some(it); if let Some(x) = o.as_mut().unwrap().next_back() { e.see_v(x) } let it = o.take().unwrap(); drop(x); for x in it { e.see_v(x) } };
} }
/// R x C from a flat vector.
pub struct FlatPool<T, R, C>(std::marker::PhantomData<(T, R, C)>);
impl<T, R, C> FlatPool<T, R, C> {
    pub fn empty() -> Self {
        FlatPool(std::marker::PhantomData)
    }
}
impl<T: Elem, R, C> Filled for FlatPool<T, R, C> {
    fn fill(&mut self, _: &mut Env) {}
    fn inspect(&self, _: &mut Env) {}
}
ops! {
    flat_ops [T: Elem, R, C] (p: FlatPool<T, R, C>, e) where {
        R: ArrayLen<Vector<T, C>> + Mul<C>, C: ArrayLen<T>, Prod<R, C>: ArrayLen<T> + Rem<C>, Mod<Prod<R, C>, C>: Same<U0>
    } {
    "from flat" 0 => { let v: Vector<T, Prod<R, C>> = e.vec(); let m: Matrix<T, R, C> = v.into(); e.see_m(m) };
    "from flat of clones" 0 => { let v: Vector<T, Prod<R, C>> = e.vec(); let m: Matrix<T, R, C> = Matrix::from(v.clone()); e.see_m(m); e.see_v(v) };
} }

ops! {
    /// Display (allocates, by documentation).
    display_ops [T: Elem, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>>, Matrix<T, R, C>: std::fmt::Display } {
    "Display" ALLOC => { let mut s = Sink(1); let _ = write!(s, "{}", p.a.as_ref().unwrap()); e.note(s.0) };
    "Display with precision" ALLOC => { let mut s = Sink(1); let _ = write!(s, "{:>7.3}", p.a.as_ref().unwrap()); e.note(s.0) };
} }
ops! {
    /// Floating point.
    float_ops [T: Elem + num::Float + approx::ApproxEq<Epsilon = T>, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> } {
    "norm" 0 => { let x = p.v.as_ref().unwrap().norm(); e.see(x) };
    "normalized" 0 => { let x = p.v.as_ref().unwrap().normalized(); e.see_v(x) };
    "relative_eq" 0 => { let x = p.a.as_ref().unwrap().relative_eq(p.b.as_ref().unwrap(), T::epsilon(), T::epsilon()); let y = p.a.as_ref().unwrap().ulps_eq(&p.a.as_ref().unwrap().clone(), T::epsilon(), 4); e.note(x as u64 + 2 * y as u64) };
} }
ops! {
    /// Copies.
    copy_ops [T: Elem + Copy, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>>, Vector<T, C>: Copy, Matrix<T, R, C>: Copy } {
    "copy" 0 => { let x = *p.v.as_ref().unwrap(); let y = x; e.see_v(x); p.w = Some(y); let m = *p.a.as_ref().unwrap(); p.b = Some(m); e.see_m(m) };
} }
ops! {
    /// The iterators' own constructors, over a vector of vectors.
    iter_new_ops [T: Elem, R, C] (p: Pool<T, R, C>, e) where { R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T> + ArrayLen<Vector<T, R>> } {
    "RowsIter::new" 0 => { let v: Vector<Vector<T, C>, R> = Vector::generate(|_| e.vec()); for x in rowcol::matrix::iter::RowsIter::<T, R, C>::new(&v) { e.see_v(x) } for x in rowcol::matrix::iter::RowsIterRef::<T, R, C>::new(&v) { for y in x { e.look(y) } } e.see_vv(&v) };
    "ColsIter::new" 0 => { let v: Vector<Vector<T, C>, R> = Vector::generate(|_| e.vec()); for x in rowcol::matrix::iter::ColsIter::<T, R, C>::new(&v).rev() { e.see_v(x) } for x in rowcol::matrix::iter::ColsIterRef::<T, R, C>::new(&v) { for y in x.rev() { e.look(y) } } };
    "ColsIterRefInner::new" PANICS => { let (h, n) = (nn::<T, R>(), nn::<T, C>()); let v: Vector<Vector<T, C>, R> = Vector::generate(|_| e.vec()); let k = e.small(n); let r = crate::catches(|| { let mut s = 0; for y in rowcol::matrix::iter::ColsIterRefInner::<T, R, C>::new(&v, k) { s = mix(s ^ y.peek()) } s }); e.note(r.unwrap_or(h as u64)) };
} }
ops! {
    conjugate_ops [R, C,] (p: Pool<num::Complex<f64>, R, C>, e) where { R: ArrayLen<Vector<num::Complex<f64>, C>> + ArrayLen<num::Complex<f64>>, C: ArrayLen<num::Complex<f64>> + ArrayLen<Vector<num::Complex<f64>, R>> } {
    "conjugate" 0 => { let x = p.a.as_ref().unwrap().conjugate(); e.see_m(x) };
} }
