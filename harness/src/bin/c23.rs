//! C23: values have no hidden shared state between threads. Race detectors (ThreadSanitizer, Miri) watch the runs; the
//! results are compared with sequential ones; auto traits are probed.
#[macro_use]
extern crate rowcol;
use rcmon::catalog::{Env, PANICS};
use rcmon::elems::*;
use rcmon::field::Fp;
use rcmon::soup::Subject;
use rcmon::*;
use rowcol::matrix::iter::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Chunks, IntoIter};
use std::cell::Cell;
use std::fmt::Write;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::thread;

type P61 = Fp<2305843009213693951>;

fn subjects() -> Vec<Box<dyn Subject>> {
    let mut l: Vec<Box<dyn Subject>> = vec![];
    l.push(subject!("heap tok", HTok, U2, U3; vec mat def ar div clamp));
    l.push(subject!("f64", f64, U3, U3; ar div sqar lin cof cross float copy show));
    l.push(subject!("P61", P61, U4, U4; sqar lin cof sq));
    if cfg!(not(miri)) {
        l.push(subject!("String", String, U3, U2; vec mat def clamp));
        l.push(subject!("heap tok", HTok, U4, U4; ext lin cof sqar sq diag_ops_44 show));
        l.push(subject!("u64", u64, U1, U17; vec));
        l.push(subject!("f32", f32, U5, U5; ar lin cof float));
        l.push(subject!("f64", f64, U9, U9; vec mat sqar ar biglin));
        l.push(subject!("u64", u64, U17, U32; mat));
        l.push(subject!("P61", P61, U12, U12; sqar sq biglin));
        l.push(subject!("i64", i64, U10, U10; ext clamp));
    }
    l.push(chunk_subject!("box", Box<u32>, U6, U2));
    l.push(flat_subject!("String", String, U2, U3));
    l
}

/// The transcript of one random history of subject `k`; everything is made and dropped by the calling thread.
fn history(k: usize, seed: u64, steps: usize) -> u64 {
    let mut l = subjects();
    let s = &mut l[k];
    let mut rng = Rng::new(seed);
    let mut e = Env::new(seed ^ 99);
    fault::ledger_reset();
    for _ in 0..steps {
        let i = rng.usize(s.ops());
        if s.op(i).1 & PANICS != 0 && cfg!(miri) { continue }
        s.fill(&mut e);
        s.run(i, &mut e);
    }
    s.clear();
    for x in fault::ledger_errs() { e.note(hash_str(&x)) }
    e.note(fault::ledger_live());
    e.dig
}

fn meeting_subjects() -> Vec<Box<dyn Subject>> {
    let mut l: Vec<Box<dyn Subject>> = vec![];
    l.push(subject!("heap tok", HTok, U2, U3; vec mat def ar div clamp show));
    l.push(subject!("heap tok", HTok, U1, U1; sqar sq ext lin show));
    l.push(subject!("heap tok", HTok, U2, U2; vec mat sqar sq ext lin cof));
    l.push(subject!("heap tok", HTok, U3, U3; sqar sq lin cof cross ext));
    l.push(subject!("heap tok", HTok, U4, U4; sqar sq lin cof ext));
    l.push(subject!("heap tok", HTok, U5, U5; lin cof));
    l.push(subject!("tok", Tok, U10, U18; vec mat ar div clamp));
    l.push(chunk_subject!("heap tok", HTok, U6, U2));
    l.push(flat_subject!("heap tok", HTok, U2, U3));
    l
}
/// One call of operation `i` on fresh values; `inside` runs in the given callback. Returns the transcript and the
/// number of callbacks.
fn one_call(s: &mut dyn Subject, i: usize, seed: u64, inside: Option<(u64, Box<dyn FnOnce()>)>) -> (u64, u64) {
    let mut e = Env::new(seed);
    fault::ledger_reset();
    s.fill(&mut e);
    if let Some((at, f)) = inside { fault::hook(at, f) }
    fault::arm(0, 0);
    s.run(i, &mut e);
    let (n, _) = fault::disarm();
    fault::unhook();
    s.inspect(&mut e);
    s.clear();
    for x in fault::ledger_errs() { e.note(hash_str(&x)) }
    e.note(fault::ledger_live());
    (e.dig, n)
}
/// One question and one answer at a time, over nothing but atomics: the standard channels hide their synchronisation in
/// code that ThreadSanitizer does not see, and it takes them for races.
#[derive(Default)]
struct Post { state: AtomicUsize, word: std::sync::atomic::AtomicU64 }
impl Post {
    const ASKED: usize = 1;
    const ANSWERED: usize = 2;
    const CLOSED: usize = 3;
    const BROKEN: usize = 4;
    fn rest(round: &mut u32) {
        *round += 1;
        if *round < 200 { thread::yield_now() } else { thread::sleep(std::time::Duration::from_micros(50)) }
    }
    fn ask(&self, word: u64, most: std::time::Duration) -> Option<u64> {
        let start = std::time::Instant::now();
        self.word.store(word, SeqCst);
        self.state.store(Post::ASKED, SeqCst);
        let mut round = 0;
        while self.state.load(SeqCst) != Post::ANSWERED {
            if start.elapsed() > most || self.state.load(SeqCst) == Post::BROKEN { return None }
            Post::rest(&mut round);
        }
        self.state.store(0, SeqCst);
        Some(self.word.load(SeqCst))
    }
    fn request(&self) -> Option<u64> {
        let mut round = 0;
        loop {
            match self.state.load(SeqCst) {
                Post::ASKED => return Some(self.word.load(SeqCst)),
                Post::CLOSED => return None,
                _ => Post::rest(&mut round),
            }
        }
    }
    fn answer(&self, word: u64) {
        self.word.store(word, SeqCst);
        // a question given up is not answered
        let _ = self.state.compare_exchange(Post::ASKED, Post::ANSWERED, SeqCst, SeqCst);
    }
    fn close(&self) { self.state.store(Post::CLOSED, SeqCst) }
}
/// While one thread is inside a call (in a callback of its elements), another makes the same call on values of its own.
fn meeting(c: &mut Case, k: usize, i: usize) {
    let mut l = meeting_subjects();
    let s = &mut *l[k];
    let post = std::sync::Arc::new(Post::default());
    let theirs = post.clone();
    let other = thread::spawn(move || {
        let mut l = meeting_subjects();
        struct Broken(std::sync::Arc<Post>);
        impl Drop for Broken {
            fn drop(&mut self) { if thread::panicking() { self.0.state.store(Post::BROKEN, SeqCst) } }
        }
        let theirs = Broken(theirs);
        let theirs = &theirs.0;
        while let Some(seed) = theirs.request() { theirs.answer(one_call(&mut *l[k], i, seed, None).0) }
    });
    let mut stuck = false;
    for _ in 0..2 {
        let (seed, seed2) = (c.rng.next(), c.rng.next());
        let (want, n) = one_call(s, i, seed, None);
        let (want2, _) = one_call(s, i, seed2, None);
        let at: Vec<u64> = if n <= 6 { (1..=n).collect() } else { (0..6).map(|_| 1 + c.rng.below(n)).collect() };
        for p in at {
            let met = std::rc::Rc::new(Cell::new(None));
            let (post, m2) = (post.clone(), met.clone());
            let (got, _) = one_call(s, i, seed, Some((p, Box::new(move || {
                m2.set(Some(post.ask(seed2, std::time::Duration::from_secs(120))));
            }))));
            match met.get() {
                Some(Some(d)) => {
                    c.eq("transcript of a call during which another thread made the same call", &got, &want);
                    c.eq("transcript of a call made while another thread was inside the same call", &d, &want2);
                    c.count("calls met half-way by the same call on another thread", 1);
                    c.unit(mix(seed ^ p), true);
                }
                Some(None) => { stuck = true; c.fail(format!("a call on one thread waits for a call on another (callback {p} of {n})")); break }
                None => c.fail(format!("the call made {n} callbacks and then fewer than {p} with the same values")),
            }
        }
        if stuck { break }
        c.sample(|| format!("{n} callbacks; the other thread's call made inside some of them"));
    }
    post.close();
    if !stuck { other.join().expect("the other thread panicked") }
}

/// Goes to any thread; whether its content may is what `probes` looks at (a run that refuses to build could not say).
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn take(self) -> T { self.0 }
    fn look(&self) -> &T { &self.0 }
}

/// Lines threads up so that the operations overlap.
struct Gate(AtomicUsize);
impl Gate {
    fn wait(&self, n: usize) {
        self.0.fetch_add(1, SeqCst);
        while self.0.load(SeqCst) < n { thread::yield_now() }
    }
}

fn main() {
    let mut m = Mon::new("C23");
    probes(&mut m);
    let threads = if m.slow() { 3 } else { 8 };
    let n = subjects().len();
    let (reps, steps) = if m.slow() { (1, 8) } else if m.thorough { (400, 60) } else { (30, 40) };
    for k in 0..n {
        let name = subjects()[k].name().to_string();
        for rep in 0..reps {
            m.case(&format!("distinct values/{name}#{rep}"), |c| {
                let base = c.rng.next();
                let same = c.rng.chance(1, 2);
                let seeds: Vec<u64> = (0..threads as u64).map(|t| if same { base } else { mix(base ^ t) }).collect();
                let gate = Gate(AtomicUsize::new(0));
                let got: Vec<u64> = thread::scope(|sc| {
                    let hs: Vec<_> = seeds.iter().map(|&s| { let gate = &gate; sc.spawn(move || { gate.wait(threads); history(k, s, steps) }) }).collect();
                    hs.into_iter().map(|h| h.join().expect("a worker thread panicked")).collect()
                });
                for (s, g) in seeds.iter().zip(&got) {
                    let want = history(k, *s, steps);
                    c.eq("transcript of a concurrent history and of the same history alone", g, &want);
                    c.unit(*s, true);
                }
                c.sample(|| format!("{threads} threads, {steps} operations each, {} histories: transcripts {:x?}", if same { "equal" } else { "different" }, &got[..2]));
                c.count("histories run concurrently", threads as u64);
                c.count("concurrent operations", (threads * steps) as u64);
            });
        }
    }
    if !m.slow() {
        for k in 0..meeting_subjects().len() {
            let ops = meeting_subjects()[k].ops();
            let name = meeting_subjects()[k].name().to_string();
            for i in 0..ops {
                let op = meeting_subjects()[k].op(i).0;
                m.case(&format!("in the middle of a call/{name}/{op}"), |c| meeting(c, k, i));
            }
        }
    }
    for rep in 0..if m.slow() { 1 } else { reps * 2 } {
        m.case(&format!("shared value/f64 3x3#{rep}"), |c| shared::<f64, U3>(c, threads, if cfg!(miri) { 1 } else { 20 }, |a| a.determinant().peek() ^ a.inverse().map_or(7, |x| x.sum().peek())));
        m.case(&format!("shared value/f64 4x4#{rep}"), |c| shared::<f64, U4>(c, threads, if cfg!(miri) { 1 } else { 20 }, |a| a.determinant().peek() ^ a.inverse().map_or(7, |x| x.sum().peek()) ^ a.cofactor((1, 2)).peek()));
        m.case(&format!("shared value/P61 5x5#{rep}"), |c| shared::<P61, U5>(c, threads, if cfg!(miri) { 1 } else { 20 }, |a| a.determinant().peek() ^ a.inverse().map_or(7, |x| x.sum().peek()) ^ a.cofactor((4, 0)).peek()));
        m.case(&format!("handed over/tok#{rep}"), handed_over);
    }
    m.finish();
}

/// All by-reference calls on one matrix and vector.
fn readers<T: Arith, N>(a: &Matrix<T, N, N>, v: &Vector<T, N>, more: fn(&Matrix<T, N, N>) -> u64) -> u64
where
    N: ArrayLen<Vector<T, N>> + ArrayLen<T>,
    for<'a> &'a T: std::ops::Add<&'a T, Output = T> + std::ops::Sub<&'a T, Output = T>,
{
    let mut e = Env::new(1);
    e.look_m(a);
    e.look_v(v);
    for r in a.rows_iter() { e.see_v(r) }
    for r in a.cols_iter().rev() { e.see_v(r) }
    for r in a.cols_iter_ref() { for x in r.rev() { e.look(x) } }
    e.see_m(a.transposed());
    e.see_m(a.clone());
    e.see_v(v.clone());
    e.see_m(a * a);
    e.see_m(a + a);
    e.see_m(a - a);
    e.see_v(v + v);
    e.see_v(a.clone() * v);
    e.see_m(a.pow(3));
    e.see(a.sum());
    e.see(v.sum());
    e.see(v.dot(v));
    e.note((a == a) as u64 + 2 * (v == v) as u64 + 4 * a.all(|_, x| x.is_zero()) as u64 + 8 * a.any(|_, x| x.is_zero()) as u64);
    e.note(num::Zero::is_zero(a) as u64 + v.len() as u64 + a.dim().0 as u64);
    let mut s = rcmon::catalog::Sink(1);
    let _ = write!(s, "{a:?} {v:?}");
    e.note(s.0);
    for i in 0..v.len() { e.look(&v[i]); e.look(&a[(i, v.len() - 1 - i)]); }
    e.note(more(a));
    e.dig
}
fn shared<T: Arith, N>(c: &mut Case, threads: usize, rounds: usize, more: fn(&Matrix<T, N, N>) -> u64)
where
    N: ArrayLen<Vector<T, N>> + ArrayLen<T>,
    for<'a> &'a T: std::ops::Add<&'a T, Output = T> + std::ops::Sub<&'a T, Output = T>,
{
    let seed = c.rng.next();
    let mut e = Env::new(seed);
    let a: Matrix<T, N, N> = e.mat();
    let v: Vector<T, N> = e.vec();
    let gate = Gate(AtomicUsize::new(0));
    let both = &Any((&a, &v));
    let got: Vec<u64> = thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|_| { let gate = &gate; sc.spawn(move || { let (a, v) = *both.look(); gate.wait(threads); (0..rounds).fold(0, |h, _| mix(h ^ readers::<T, N>(a, v, more))) }) }).collect();
        hs.into_iter().map(|h| h.join().expect("a reader panicked")).collect()
    });
    let want = (0..rounds).fold(0, |h, _| mix(h ^ readers::<T, N>(&a, &v, more)));
    for g in got { c.eq("what a concurrent reader saw and what a lone one sees", &g, &want); }
    c.count("concurrent read rounds", (threads * rounds) as u64);
    c.unit(seed, true);
}
/// Values and half-used iterators made on one thread, changed on a second, finished on a third.
fn handed_over(c: &mut Case) {
    let k = c.rng.below(1000);
    let v = Vector::<Box<u64>, U8>::generate(|i| Box::new(k + i as u64));
    let m = Matrix::<Box<u64>, U2, U3>::generate(|(i, j)| Box::new(k + (i * 3 + j) as u64));
    let mut it = v.into_iter();
    let first = it.next().unwrap();
    let mut ch = Vector::<Box<u64>, U6>::generate(|i| Box::new(i as u64)).into_chunks::<U2>();
    ch.next_back();
    let parts = Any((it, ch, m));
    let parts = thread::spawn(move || { let (mut it, mut ch, mut m) = parts.take(); it.nth_back(1); it.next(); *m[(1, 2)] += 5; ch.next(); Any((it, ch, m)) }).join().unwrap();
    let got = thread::spawn(move || {
        let (it, ch, m) = parts.take();
        let mut r: Vec<u64> = it.map(|x| *x).collect();
        for x in ch { r.extend(x.into_iter().map(|x| *x)) }
        r.extend(m.rows_iter_ref().flat_map(|r| r.iter().map(|x| **x)));
        r
    }).join().unwrap();
    let want: Vec<u64> = vec![k + 2, k + 3, k + 4, k + 5, 2, 3, k, k + 1, k + 2, k + 3, k + 4, k + 10];
    c.eq("what the third thread saw", &got, &want);
    c.eq("what the first thread kept", &*first, &k);
    c.unit(k, true);
}

struct SendOnly(#[allow(dead_code)] Cell<u8>);
struct Neither(#[allow(dead_code)] std::rc::Rc<u8>);
struct SyncOnly(#[allow(dead_code)] PhantomData<std::sync::MutexGuard<'static, u8>>);
struct Both(#[allow(dead_code)] u8);
macro_rules! is { ($t:ty: $tr:ident) => {{
    trait No { const YES: bool = false; }
    impl<T: ?Sized> No for T {}
    struct W<T: ?Sized>(PhantomData<T>);
    #[allow(dead_code)]
    impl<T: ?Sized + $tr> W<T> { const YES: bool = true; }
    <W<$t>>::YES
}} }
fn probes(m: &mut Mon) {
    macro_rules! one { ($c:ident, $t:ty, $send:expr, $sync:expr) => {{
        $c.eq(concat!(stringify!($t), ": Send"), &is!($t: Send), &$send);
        $c.eq(concat!(stringify!($t), ": Sync"), &is!($t: Sync), &$sync);
        $c.unit(hash_str(stringify!($t)), true);
        $c.count("auto traits probed", 2);
    }} }
    macro_rules! all { ($e:ident, $send:expr, $sync:expr) => {
        m.case(concat!("auto traits/", stringify!($e)), |c| {
            one!(c, $e, $send, $sync);
            one!(c, Vector<$e, U0>, $send, $sync);
            one!(c, Vector<$e, U1>, $send, $sync);
            one!(c, Vector<$e, U3>, $send, $sync);
            one!(c, Vector<$e, U32>, $send, $sync);
            one!(c, Vector<Vector<$e, U2>, U3>, $send, $sync);
            one!(c, Matrix<$e, U0, U0>, $send, $sync);
            one!(c, Matrix<$e, U1, U1>, $send, $sync);
            one!(c, Matrix<$e, U2, U3>, $send, $sync);
            one!(c, Matrix<$e, U32, U32>, $send, $sync);
            one!(c, IntoIter<$e, U0>, $send, $sync);
            one!(c, IntoIter<$e, U4>, $send, $sync);
            one!(c, IntoIter<$e, U32>, $send, $sync);
            one!(c, Chunks<$e, U6, U2>, $send, $sync);
            one!(c, Chunks<$e, U4, U4>, $send, $sync);
            one!(c, &'static Vector<$e, U3>, $sync, $sync);
            one!(c, &'static mut Vector<$e, U3>, $send, $sync);
            one!(c, RowsIter<'static, $e, U2, U3>, $sync, $sync);
            one!(c, ColsIter<'static, $e, U2, U3>, $sync, $sync);
            one!(c, RowsIterRef<'static, $e, U2, U3>, $sync, $sync);
            one!(c, ColsIterRef<'static, $e, U2, U3>, $sync, $sync);
            one!(c, ColsIterRefInner<'static, $e, U2, U3>, $sync, $sync);
            one!(c, RowsIter<'static, $e, U0, U1>, $sync, $sync);
            one!(c, ColsIterRef<'static, $e, U1, U0>, $sync, $sync);
        });
    } }
    all!(Both, true, true);
    all!(SendOnly, true, false);
    all!(SyncOnly, false, true);
    all!(Neither, false, false);
    m.case("auto traits/conversions keep them", |c| {
        one!(c, std::iter::Skip<std::iter::Rev<IntoIter<Box<u8>, U2>>>, true, true);
        one!(c, std::iter::Zip<RowsIter<'static, String, U2, U3>, ColsIter<'static, String, U3, U2>>, true, true);
        one!(c, std::iter::Peekable<Chunks<std::rc::Rc<u8>, U6, U3>>, false, false);
    });
}
