//! C06: construction fills every position in order with exactly N elements.
use rcmon::elems::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;

const DEBUG: bool = cfg!(debug_assertions);

/// A source with `len` items (endless if None) that counts every request, may lie about its size and may resume
/// after its end.
struct Src<'a, T> {
    at: usize,
    len: Option<usize>,
    pulls: &'a Cell<usize>,
    cap: usize,
    hint: (usize, Option<usize>),
    resume: bool,
    ended: bool,
    mk: &'a dyn Fn(usize) -> T,
}
impl<'a, T> Iterator for Src<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.pulls.set(self.pulls.get() + 1);
        if self.pulls.get() > self.cap {
            panic!("source asked for far too many items");
        }
        if self.len == Some(self.at) && !(self.resume && self.ended) {
            self.ended = true;
            return None;
        }
        self.at += 1;
        Some((self.mk)(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn vector<T: Elem, N: ArrayLen<T> + ArrayLen<Dv>>(m: &mut Mon, kind: &str, n: usize) {
    m.case(&format!("generate/{kind}/N{n}"), |c| {
        let base = c.rng.next();
        let log = RefCell::new(vec![]);
        let v: Vector<T, N> = Vector::generate(|i| { log.borrow_mut().push(i); T::mk(base ^ i as u64) });
        c.eq("generator calls", &*log.borrow(), &(0..n).collect::<Vec<_>>());
        c.check(v.as_slice().len() == n && (0..n).all(|i| v[i] == T::mk(base ^ i as u64)), || format!("generated {:?}", v));
        // stateful generator: the k-th call's value is at k
        let mut k = 0u64;
        let v: Vector<T, N> = Vector::generate(|_| { k += 1; T::mk(base + k) });
        c.check((0..n).all(|i| v[i] == T::mk(base + 1 + i as u64)), || format!("stateful generator: {:?}", v));
        let w: Vector<T, N> = Vector::new(v.clone().into_inner());
        c.check(v == w, || "into_inner/new round trip".into());
        c.unit(mix(n as u64 ^ hash_str(kind)), n > 0);
    });
    m.case(&format!("collect/{kind}/N{n}"), |c| {
        let base = c.rng.next();
        let mk = |i: usize| T::mk(base ^ i as u64);
        for surplus in [-33i64, -2, -1, 0, 1, 2, 7, 1000, i64::MAX] {
            let len = if surplus == i64::MAX { None } else {
                let l = n as i64 + surplus;
                if l < 0 { if surplus == -33 && n > 0 { Some(0) } else { continue } } else { Some(l as usize) }
            };
            for (hname, hint) in [("honest", (len.unwrap_or(usize::MAX), len)), ("none", (0, None)), ("zero", (0, Some(0))), ("exact", (n, Some(n))), ("huge", (usize::MAX, Some(usize::MAX)))] {
                for resume in [false, true] {
                    let pulls = Cell::new(0);
                    let src = Src { at: 0, len, pulls: &pulls, cap: n + 64, hint, resume, ended: false, mk: &mk };
                    let what = || format!("{} items (hint {hname}, resuming {resume}) into {n}", len.map_or("endless".into(), |l| l.to_string()));
                    let r = catches(|| src.collect::<Vector<T, N>>());
                    let short = len.map_or(false, |l| l < n);
                    let long = len.map_or(true, |l| l > n);
                    c.check(pulls.get() <= n + 1, || format!("{}: {} items requested", what(), pulls.get()));
                    match r {
                        Ok(v) => {
                            c.check(!short, || format!("{}: accepted", what()));
                            c.check(!(long && DEBUG), || format!("{}: surplus accepted with debug assertions on", what()));
                            c.check(v.as_slice().len() == n && (0..n).all(|i| v[i] == mk(i)), || format!("{}: got {:?}", what(), v));
                        }
                        Err(e) => {
                            c.check(short || (long && DEBUG), || format!("{}: panicked: {e}", what()));
                            c.check(!e.contains("far too many"), || format!("{}: kept asking the source", what()));
                        }
                    }
                    c.unit(mix(hash_str(kind) ^ n as u64 ^ hash_str(&what())), n > 0);
                }
            }
        }
        c.sample(|| format!("sources of n-33..n+1000 and endless items into N={n} {kind}"));
        // ordinary sources
        let xs: Vec<T> = (0..n).map(mk).collect();
        let v: Vector<T, N> = xs.iter().cloned().collect();
        c.check(v.as_slice() == &xs[..], || "collect of a slice iterator".into());
        let v: Vector<T, N> = xs.clone().into_iter().rev().collect();
        c.check(v.iter().rev().eq(xs.iter()), || "collect of a reversed vec".into());
        let v: Vector<T, N> = std::iter::repeat(()).zip(xs.clone()).map(|(_, x)| x).collect();
        c.check(v.as_slice() == &xs[..], || "collect of an adaptor chain".into());
        let w: Vector<T, N> = v.into_iter().collect();
        c.check(w.as_slice() == &xs[..], || "collect of a vector's own iterator".into());
    });
    m.case(&format!("default/{kind}/N{n}"), |c| {
        DEFAULTS.with(|d| d.set(0));
        let v: Vector<Dv, N> = Default::default();
        let calls = DEFAULTS.with(|d| d.get());
        c.eq("Default::default() calls", &calls, &(n as u64));
        c.eq("default elements, each once", &v.iter().map(|x| x.0).collect::<BTreeSet<_>>(), &(1..=n as u64).collect());
        c.unit(mix(n as u64 + 77), n > 0);
    });
}
thread_local! { static DEFAULTS: Cell<u64> = const { Cell::new(0) }; }
/// Every default value is distinguishable.
#[derive(Clone, PartialEq, Debug)]
struct Dv(u64);
impl Default for Dv {
    fn default() -> Dv {
        Dv(DEFAULTS.with(|d| { d.set(d.get() + 1); d.get() }))
    }
}

macro_rules! v { ($m:ident $kind:expr, $t:ty => $n:ident, $nn:expr) => { vector::<$t, $n>($m, $kind, $nn); } }
macro_rules! arr { ($m:ident => $n:ident, $nn:expr) => {
    $m.case(concat!("array/N", stringify!($nn)), |c| {
        let b = c.rng.next();
        let v = Vector::<u64, $n>::new(std::array::from_fn(|i| b ^ i as u64));
        c.check((0..$nn).all(|i| v[i] == b ^ i as u64) && v.len() == $nn, || format!("{:?}", v));
        let back: [u64; $nn] = v.into_inner();
        c.check((0..$nn).all(|i| back[i] == b ^ i as u64), || format!("into_inner: {:?}", back));
        let v = Vector::<String, $n>::new(std::array::from_fn(|i| i.to_string()));
        c.check((0..$nn).all(|i| v[i] == i.to_string()), || format!("{:?}", v));
        c.unit(mix($nn + 5000), $nn > 0);
    });
} }
macro_rules! mat { ($m:ident => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    $m.case(concat!("matrix/", stringify!($rr), "x", stringify!($cc)), |c| {
        let b = c.rng.next();
        let at = |i: usize, j: usize| b ^ (i * 100 + j) as u64;
        let check = |c: &mut Case, what: &str, m: &Matrix<u64, $r, $c>| {
            let got: Vec<Vec<u64>> = m.rows_iter_ref().map(|s| s.to_vec()).collect();
            let want: Vec<Vec<u64>> = (0..$rr).map(|i| (0..$cc).map(|j| at(i, j)).collect()).collect();
            c.eq(what, &got, &want);
        };
        let m = Matrix::<u64, $r, $c>::new(std::array::from_fn(|i| std::array::from_fn(|j| at(i, j))));
        check(c, "Matrix::new", &m);
        let mut log = vec![];
        let m = Matrix::<u64, $r, $c>::generate(|(i, j)| { log.push((i, j)); at(i, j) });
        check(c, "Matrix::generate", &m);
        let order: Vec<(usize, usize)> = (0..$rr).flat_map(|i| (0..$cc).map(move |j| (i, j))).collect();
        c.eq("generator calls", &log, &order);
        let mut k = 0u64;
        let m = Matrix::<u64, $r, $c>::generate(|_| { k += 1; k });
        c.check((0..$rr).all(|i| (0..$cc).all(|j| m[(i, j)] == (i * $cc + j) as u64 + 1)), || format!("stateful generator: {:?}", m));
        DEFAULTS.with(|d| d.set(0));
        let d: Matrix<Dv, $r, $c> = Default::default();
        c.eq("Default calls", &DEFAULTS.with(|d| d.get()), &($rr * $cc));
        let mut all = BTreeSet::new();
        for i in 0..$rr { for j in 0..$cc { all.insert(d[(i, j)].0); } }
        c.eq("default elements, each once", &all, &(1..=$rr * $cc as u64).collect());
        let m = Matrix::<String, $r, $c>::new(std::array::from_fn(|i| std::array::from_fn(|j| format!("{i},{j}"))));
        c.check((0..$rr).all(|i| (0..$cc).all(|j| m[(i, j)] == format!("{i},{j}"))), || format!("{:?}", m));
        c.unit(mix(9000 + $rr * 100 + $cc), $rr * $cc > 0);
    });
} }
macro_rules! flat { ($m:ident => $r:ident, $c:ident, $p:ident, $rr:expr, $cc:expr) => {
    $m.case(concat!("flat/", stringify!($rr), "x", stringify!($cc)), |c| {
        let b = c.rng.next();
        let v: Vector<u64, $p> = Vector::generate(|k| b ^ k as u64);
        let m: Matrix<u64, $r, $c> = v.into();
        let got: Vec<Vec<u64>> = m.rows_iter_ref().map(|s| s.to_vec()).collect();
        let want: Vec<Vec<u64>> = (0..$rr).map(|i| (0..$cc).map(|j| b ^ (i * $cc + j) as u64).collect()).collect();
        c.eq("matrix from flat vector", &got, &want);
        let v: Vector<String, $p> = Vector::generate(|k| k.to_string());
        let m: Matrix<String, $r, $c> = Matrix::from(v);
        c.check((0..$rr).all(|i| (0..$cc).all(|j| m[(i, j)] == (i * $cc + j).to_string())), || format!("{:?}", m));
        c.unit(mix(20000 + $rr * 100 + $cc), $rr > 0);
    });
} }

fn main() {
    let mut mon = Mon::new("C06");
    let m = &mut mon;
    for_lens! {v m "u64", u64 =>}
    for_lens_small! {v m "string", String =>}
    for_lens_small! {v m "tok", Tok =>}
    for_lens_small! {v m "box", Box<u32> =>}
    for_lens_small! {v m "al64", Al64 =>}
    for_lens_small! {v m "array40", [u64; 40] =>}
    for_lens! {arr m =>}
    for_shapes! {mat m =>}
    for_flat! {flat m =>}
    mon.finish();
}
