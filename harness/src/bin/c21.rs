//! C21: values live inline: no heap use, no size overhead. The monitor is the global allocator.
use rcmon::catalog::{Env, ALLOC, PANICS};
use rcmon::elems::*;
use rcmon::field::Fp;
use rcmon::soup::Subject;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::alloc::{GlobalAlloc, Layout, System};
use std::mem::{align_of, align_of_val, size_of, size_of_val};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
include!("../subjects/kinds.rs");
include!("../subjects/big.rs");

struct Counting;
static CALLS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        CALLS.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as u64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CALLS.fetch_add(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        CALLS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

type P61 = Fp<2305843009213693951>;

macro_rules! kind { ($l:ident, $name:expr, $t:ty) => {
    $l.push(subject!($name, $t, U2, U3; vec mat copy iters));
    $l.push(subject!($name, $t, U3, U3; sq));
    $l.push(subject!($name, $t, U0, U2; vec mat iters));
    $l.push(chunk_subject!($name, $t, U6, U2));
    $l.push(flat_subject!($name, $t, U2, U3));
} }

macro_rules! length_kind { ($l:ident, $name:expr, $t:ty, $n:ident, $k:expr) => { $l.push(subject!($name, $t, U1, $n; vec ar div float)); } }
macro_rules! length_sized { ($l:ident, $name:expr, $t:ty, $n:ident, $k:expr) => { $l.push(subject!($name, $t, U1, $n; vec)); } }
macro_rules! chunk_kind { ($l:ident, $name:expr, $t:ty, $n:ident, $i:ident, $a:expr, $b:expr) => { $l.push(chunk_subject!($name, $t, $n, $i)); } }
macro_rules! shape_kind { ($l:ident, $name:expr, $t:ty, $r:ident, $c:ident, $a:expr, $b:expr) => { $l.push(subject!($name, $t, $r, $c; mat ar)); } }
macro_rules! square_kind { ($l:ident, $name:expr, $t:ty, $n:ident, $k:expr) => { $l.push(subject!($name, $t, $n, $n; sq sqar lin)); } }

fn main() {
    let mut m = Mon::new("C21");
    let mut l: Vec<Box<dyn Subject>> = vec![];
    for_kinds!(kind l);
    l.push(subject!("f64", f64, U3, U3; vec mat def ar div sqar lin cof cross float copy));
    l.push(subject!("f64", f64, U4, U4; def ar div sqar lin cof diag_ops_44 float));
    l.push(subject!("f64", f64, U1, U1; def ar div sqar lin float));
    l.push(subject!("f64", f64, U6, U6; lin cof sqar));
    l.push(subject!("f64", f64, U8, U8; ar mat));
    l.push(subject!("f64", f64, U32, U32; mat));
    l.push(subject!("f32", f32, U2, U3; ar div float));
    l.push(subject!("P61", P61, U5, U5; vec mat def ar div sqar lin cof));
    l.push(subject!("complex", num::Complex<f64>, U2, U3; vec mat conj));
    l.push(subject!("i64", i64, U3, U3; clamp ext sq));
    l.push(subject!("i64", i64, U17, U17; clamp ext sq vec));
    l.push(subject!("char", char, U1, U32; vec clamp));
    l.push(chunk_subject!("f64", f64, U32, U8));
    l.push(flat_subject!("f64", f64, U8, U4));
    big_subjects!(l, "f64", f64);
    huge_subjects!(l, "f64", f64);
    big_subjects!(l, "P61", P61);
    big_ordered!(l, "i64", i64);
    l.push(subject!("big f64 float", f64, U9, U9; float copy iters));
    l.push(subject!("big f64 float", f64, U32, U32; float copy));
    l.push(chunk_subject!("big unit", (), U32, U4));
    l.push(flat_subject!("big u8", u8, U16, U2));
    for_lens!(length_kind l, "long f64", f64,);
    for_lens!(length_sized l, "long [u64;40]", [u64; 40],);
    for_chunks!(chunk_kind l, "u8", u8,);
    for_shapes_mid!(shape_kind l, "f64 shape", f64,);
    for_squares_pos!(square_kind l, "P61 square", P61,);
    l.push(retype_subject!("u128 to u8", u128, u8, U3, U4));
    l.push(retype_subject!("u8 to u128", u8, u128, U3, U4));
    l.push(retype_subject!("bytes to u64", [u8; 8], u64, U5, U9));
    l.push(retype_subject!("u64 to bytes", u64, [u8; 8], U1, U17));
    l.push(retype_subject!("bytes to over-aligned", [u8; 64], Al64, U2, U3));
    l.push(retype_subject!("f64 to large", f64, [u64; 40], U4, U4));
    // the counter counts
    m.case("allocator/self-test", |c| {
        let b = CALLS.load(Relaxed);
        let x = std::hint::black_box(Box::new(5u64));
        drop(x);
        c.check(CALLS.load(Relaxed) >= b + 2, || "the counting allocator does not count".into());
        c.unit(1, false);
    });
    let reps = m.scale(1, 40, 2000);
    for s in l.iter_mut() {
        let name = s.name().to_string();
        let reps = if s.big() { (reps / 8).max(3) } else if ["long ", "u8 chunks", "f64 shape", "P61 square"].iter().any(|p| name.starts_with(p)) { (reps / 8).max(3) } else { reps };
        for i in 0..s.ops() {
            let (op, flags) = s.op(i);
            if flags & (PANICS | ALLOC) != 0 { continue }
            m.case(&format!("heap/{name}/{op}"), |c| {
                for _ in 0..if s.ops() > 40 || reps < 50 { reps } else { reps / 2 } {
                    let seed = c.rng.next();
                    let mut e = Env::new(seed);
                    s.clear();
                    s.fill(&mut e);
                    let (n, b) = (CALLS.load(Relaxed), BYTES.load(Relaxed));
                    s.run(i, &mut e);
                    s.clear();
                    let (n, b) = (CALLS.load(Relaxed) - n, BYTES.load(Relaxed) - b);
                    c.check(n == 0, || format!("{op}: {n} calls of the allocator ({b} bytes)"));
                    c.unit(seed, true);
                    if !c.ok() { break }
                }
                c.count("operations watched", reps);
                c.sample(|| format!("{reps} runs, no allocator call; elements handled in the last: {}", { let mut e = Env::new(1); s.fill(&mut e); s.inspect(&mut e); e.seen }));
            });
        }
    }
    sizes(&mut m);
    m.finish();
}

fn vsize<T: Elem, N: ArrayLen<T>>(c: &mut Case, kind: &str, n: usize) {
    let mut e = Env::new(n as u64);
    let v: Vector<T, N> = e.vec();
    c.eq(&format!("size of a vector of {n} x {kind}"), &size_of_val(&v), &(n * size_of::<T>()));
    c.eq(&format!("alignment of a vector of {n} x {kind}"), &align_of_val(&v), &align_of::<T>());
    c.eq(&format!("size of the type Vector<{kind}, {n}>"), &size_of::<Vector<T, N>>(), &(n * size_of::<T>()));
    c.eq(&format!("address of the first of {n} x {kind}"), &(v.as_slice().as_ptr() as usize), &(&v as *const _ as usize));
    if n > 1 { c.eq("distance from the first to the last element", &(&v[n - 1] as *const T as usize - &v[0] as *const T as usize), &((n - 1) * size_of::<T>())); }
    c.unit(hash_str(kind) ^ n as u64, n > 0);
}
fn msize<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(c: &mut Case, kind: &str, r: usize, k: usize) {
    c.eq(&format!("size of a {r}x{k} matrix of {kind}"), &size_of::<Matrix<T, R, C>>(), &(r * k * size_of::<T>()));
    c.eq(&format!("alignment of a {r}x{k} matrix of {kind}"), &align_of::<Matrix<T, R, C>>(), &align_of::<T>());
    c.unit(hash_str(kind) ^ (r * 100 + k) as u64, r * k > 0);
}
macro_rules! vs { ($c:ident $t:ty, $k:expr, $n:ident, $l:expr) => { vsize::<$t, $n>($c, $k, $l) } }
macro_rules! ms { ($c:ident $t:ty, $k:expr, $r:ident, $q:ident, $a:expr, $b:expr) => { msize::<$t, $r, $q>($c, $k, $a, $b) } }
fn sizes(m: &mut Mon) {
    macro_rules! all { ($m:ident, $k:expr, $t:ty) => {
        $m.case(&format!("size/{}", $k), |c| { for_lens!(vs c $t, $k,); for_shapes!(ms c $t, $k,); });
    } }
    for_kinds!(all m);
    all!(m, "Box", Box<u32>);
    all!(m, "Option<Box>", Option<Box<u16>>);
    all!(m, "String", String);
    all!(m, "heap tok", HTok);
    all!(m, "zst", Zst);
}
