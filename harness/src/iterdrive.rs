//! Monitor for double-ended exact-size iterators: replays a call history on the real iterator and on a deque.
use crate::mon::Case;
use crate::rng::Rng;
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    TryFold(usize),
    TryRfold(usize),
    ByRefTake(usize),
    ByRefRevTake(usize),
    Find(usize),
    RFind(usize),
    Position(usize),
    Rposition(usize),
    All(usize),
    Any(usize),
    Move,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Term {
    Drop,
    Count,
    Last,
    Fold,
    Rfold,
    Collect,
    RevCollect,
    ForEach,
    Skip(usize),
    SkipRev(usize),
    Take(usize),
    TakeRev(usize),
    StepBy(usize),
    ZipIdx,
    ZipRev,
    EnumRev,
    Chain,
    Peek,
    RevNth(usize),
    RevLast,
    RevCount,
    MapRev,
    FilterOdd,
    Partition,
    ForLoop,
    Extend,
    Reduce,
    SkipWhile(usize),
    Eq,
}

pub const MAXU: usize = usize::MAX;

pub fn all_terms() -> Vec<Term> {
    use Term::*;
    vec![
        Drop, Count, Last, Fold, Rfold, Collect, RevCollect, ForEach, Skip(1), Skip(MAXU), SkipRev(1), SkipRev(3), Take(0), Take(2),
        Take(MAXU), TakeRev(2), StepBy(1), StepBy(2), StepBy(3), ZipIdx, ZipRev, EnumRev, Chain, Peek, RevNth(0), RevNth(1),
        RevNth(MAXU), RevLast, RevCount, MapRev, FilterOdd, Partition, ForLoop, Extend, Reduce, SkipWhile(1), Eq,
    ]
}

pub fn alphabet(n: usize) -> Vec<Op> {
    use Op::*;
    vec![Next, Back, Nth(0), Nth(1), Nth(2), Nth(n), Nth(MAXU), NthBack(0), NthBack(1), NthBack(MAXU)]
}

pub fn random_op(r: &mut Rng, n: usize) -> Op {
    use Op::*;
    let k = |r: &mut Rng| match r.below(14) {
        10 => (1usize << r.below(64)).wrapping_add(r.usize(3)).wrapping_sub(r.usize(2)),
        11 => (1usize << [8, 16, 32, 63][r.usize(4)]) + r.usize(n + 1),
        12 => (MAXU / (1 + r.usize(33))).wrapping_add(r.usize(3)),
        13 => (MAXU / (1 + r.usize(n + 1))).wrapping_add(1),
        0 => MAXU - r.usize(3),
        1 => n + r.usize(3),
        2 => (MAXU >> 1) + r.usize(2),
        3 => n / 2,
        _ => r.usize(4),
    };
    match r.below(20) {
        0..=3 => Next,
        4..=7 => Back,
        8 | 9 => Nth(k(r)),
        10 | 11 => NthBack(k(r)),
        12 => TryFold(k(r)),
        13 => TryRfold(k(r)),
        14 => ByRefTake(k(r)),
        15 => ByRefRevTake(k(r)),
        16 => Find(k(r)),
        17 => RFind(k(r)),
        18 => match r.below(4) {
            0 => Position(k(r)),
            1 => Rposition(k(r)),
            2 => All(k(r)),
            _ => Any(k(r)),
        },
        _ => Move,
    }
}

pub fn random_history(r: &mut Rng, n: usize) -> Vec<Op> {
    let len = match r.below(4) {
        0 => r.usize(3),
        1 => r.usize(8),
        _ => r.usize(n + 6),
    };
    (0..len).map(|_| random_op(r, n)).collect()
}

pub fn hist_hash(ops: &[Op], t: Term, salt: u64) -> u64 {
    use std::hash::{Hash, Hasher};
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3) } }
        fn write_usize(&mut self, x: usize) { self.0 = crate::rng::mix(self.0 ^ x as u64) }
        fn write_isize(&mut self, x: isize) { self.0 = crate::rng::mix(self.0 ^ x as u64) }
    }
    let mut h = H(salt);
    ops.hash(&mut h);
    t.hash(&mut h);
    crate::rng::mix(h.0)
}


/// The iterator under test behind a vtable, items mapped to keys: one monomorphisation of the monitor per key type.
/// Every method is forwarded to the same method of the real iterator.
pub trait Obj<K> {
    fn o_next(&mut self) -> Option<K>;
    fn o_back(&mut self) -> Option<K>;
    fn o_nth(&mut self, k: usize) -> Option<K>;
    fn o_nth_back(&mut self, k: usize) -> Option<K>;
    fn o_hint(&self) -> (usize, Option<usize>);
    fn o_len(&self) -> usize;
    fn o_count(self: Box<Self>) -> usize;
    fn o_last(self: Box<Self>) -> Option<K>;
    fn o_fold(self: Box<Self>, f: &mut dyn FnMut(K));
    fn o_rfold(self: Box<Self>, f: &mut dyn FnMut(K));
    fn o_collect(self: Box<Self>) -> Vec<K>;
    fn o_try(&mut self, f: &mut dyn FnMut(K) -> bool);
    fn o_rtry(&mut self, f: &mut dyn FnMut(K) -> bool);
    fn o_find(&mut self, f: &mut dyn FnMut() -> bool) -> Option<K>;
    fn o_rfind(&mut self, f: &mut dyn FnMut() -> bool) -> Option<K>;
    fn o_position(&mut self, f: &mut dyn FnMut(K) -> bool) -> Option<usize>;
    fn o_rposition(&mut self, f: &mut dyn FnMut(K) -> bool) -> Option<usize>;
    fn o_all(&mut self, f: &mut dyn FnMut(K) -> bool) -> bool;
    fn o_any(&mut self, f: &mut dyn FnMut(K) -> bool) -> bool;
    fn o_move<'a>(self: Box<Self>) -> Box<dyn Obj<K> + 'a> where Self: 'a;
}
pub struct Keyed<I, F>(pub I, pub F);
impl<K, I, F> Obj<K> for Keyed<I, F>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item) -> K,
{
    fn o_next(&mut self) -> Option<K> { self.0.next().map(&self.1) }
    fn o_back(&mut self) -> Option<K> { self.0.next_back().map(&self.1) }
    fn o_nth(&mut self, k: usize) -> Option<K> { self.0.nth(k).map(&self.1) }
    fn o_nth_back(&mut self, k: usize) -> Option<K> { self.0.nth_back(k).map(&self.1) }
    fn o_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn o_len(&self) -> usize { self.0.len() }
    fn o_count(self: Box<Self>) -> usize { let Keyed(i, _) = *self; i.count() }
    fn o_last(self: Box<Self>) -> Option<K> { let Keyed(i, f) = *self; i.last().map(f) }
    fn o_fold(self: Box<Self>, g: &mut dyn FnMut(K)) { let Keyed(i, f) = *self; i.fold((), |_, x| g(f(x))) }
    fn o_rfold(self: Box<Self>, g: &mut dyn FnMut(K)) { let Keyed(i, f) = *self; i.rfold((), |_, x| g(f(x))) }
    fn o_collect(self: Box<Self>) -> Vec<K> {
        let Keyed(i, f) = *self;
        let v: Vec<I::Item> = i.collect();
        v.into_iter().map(f).collect()
    }
    fn o_try(&mut self, g: &mut dyn FnMut(K) -> bool) { let f = &self.1; let _ = self.0.try_fold((), |_, x| if g(f(x)) { Ok(()) } else { Err(()) }); }
    fn o_rtry(&mut self, g: &mut dyn FnMut(K) -> bool) { let f = &self.1; let _ = self.0.try_rfold((), |_, x| if g(f(x)) { Ok(()) } else { Err(()) }); }
    fn o_find(&mut self, g: &mut dyn FnMut() -> bool) -> Option<K> { self.0.find(|_| g()).map(&self.1) }
    fn o_rfind(&mut self, g: &mut dyn FnMut() -> bool) -> Option<K> { self.0.rfind(|_| g()).map(&self.1) }
    fn o_position(&mut self, g: &mut dyn FnMut(K) -> bool) -> Option<usize> { let f = &self.1; self.0.position(|x| g(f(x))) }
    fn o_rposition(&mut self, g: &mut dyn FnMut(K) -> bool) -> Option<usize> { let f = &self.1; self.0.rposition(|x| g(f(x))) }
    fn o_all(&mut self, g: &mut dyn FnMut(K) -> bool) -> bool { let f = &self.1; self.0.all(|x| g(f(x))) }
    fn o_any(&mut self, g: &mut dyn FnMut(K) -> bool) -> bool { let f = &self.1; self.0.any(|x| g(f(x))) }
    fn o_move<'a>(self: Box<Self>) -> Box<dyn Obj<K> + 'a> where Self: 'a {
        let v = *self;
        Box::new(std::hint::black_box(v))
    }
}
/// Iterator over the boxed object; forwards everything, counts items so that a runaway iterator is noticed.
pub struct Dyn<'a, K> { o: Box<dyn Obj<K> + 'a>, left: usize }
impl<'a, K> Dyn<'a, K> {
    fn tick(&mut self) {
        if self.left == 0 { panic!("iterator keeps yielding items after its end") }
        self.left -= 1;
    }
}
impl<'a, K> Iterator for Dyn<'a, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> { self.tick(); self.o.o_next() }
    fn nth(&mut self, k: usize) -> Option<K> { self.tick(); self.o.o_nth(k) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.o.o_hint() }
    fn count(self) -> usize { self.o.o_count() }
    fn last(self) -> Option<K> { self.o.o_last() }
}
impl<'a, K> DoubleEndedIterator for Dyn<'a, K> {
    fn next_back(&mut self) -> Option<K> { self.tick(); self.o.o_back() }
    fn nth_back(&mut self, k: usize) -> Option<K> { self.tick(); self.o.o_nth_back(k) }
}
impl<'a, K> ExactSizeIterator for Dyn<'a, K> {
    fn len(&self) -> usize { self.o.o_len() }
}

/// The model: a list of which `lo..hi` is left.
struct Deq<K> { v: Vec<K>, lo: usize, hi: usize }
impl<K: Clone> Deq<K> {
    fn len(&self) -> usize { self.hi - self.lo }
    fn pop_front(&mut self) -> Option<K> {
        if self.lo < self.hi { self.lo += 1; Some(self.v[self.lo - 1].clone()) } else { None }
    }
    fn pop_back(&mut self) -> Option<K> {
        if self.lo < self.hi { self.hi -= 1; Some(self.v[self.hi].clone()) } else { None }
    }
    fn front(&mut self, k: usize) -> Vec<K> {
        let r = self.v[self.lo..self.lo + k].to_vec();
        self.lo += k;
        r
    }
    fn skip(&mut self, k: usize) { self.lo += k }
    fn rest(&self) -> Vec<K> { self.v[self.lo..self.hi].to_vec() }
    fn truncate(&mut self, n: usize) { self.hi = self.lo + n }
}

struct D<'c, K> {
    c: &'c mut Case,
    m: Deq<K>,
    ctx: &'c dyn Fn() -> String,
    at: usize,
}

impl<'c, K: PartialEq + Debug + Clone> D<'c, K> {
    fn same<X: PartialEq + Debug>(&mut self, what: &str, got: X, want: X) {
        if got != want {
            let s = format!("{} after {} step(s): {what}: got {got:?}, expected {want:?}", (self.ctx)(), self.at);
            self.c.fail(s);
        }
    }
}

#[allow(unused_variables, unused_mut)]
fn finish0<'a, K: PartialEq + Debug + Clone>(d: &mut D<K>, mut it: Dyn<'a, K>, term: Term) {
    match term {
        Term::Count => (|| { let m = d.m.rest(); let n = m.len(); d.same("count()", it.o.o_count(), n) })(),
        Term::RevCollect => (|| { let m = d.m.rest(); let n = m.len(); d.same("rev().collect", it.rev().collect(), m.into_iter().rev().collect::<Vec<K>>()) })(),
        Term::TakeRev(k) => (|| { let m = d.m.rest(); let n = m.len(); d.same("take.rev", it.take(k).rev().collect::<Vec<K>>(), m.into_iter().take(k).rev().collect()) })(),
        Term::Chain => (|| {
            let m = d.m.rest();
            let n = m.len();
            let e = it.chain(std::iter::empty());
            d.same("chain", e.collect::<Vec<_>>(), m)
        })(),
        Term::MapRev => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mm = it.map(|x| x);
            d.same("map.len", mm.len(), n);
            d.same("map.rev", mm.rev().collect::<Vec<_>>(), m.into_iter().rev().collect())
        })(),
        Term::Reduce => (|| { let m = d.m.rest(); let n = m.len(); d.same("reduce", it.reduce(|_, b| b), m.last().cloned()) })(),
        t => finish1(d, it, t),
    }
}
#[allow(unused_variables, unused_mut)]
fn finish1<'a, K: PartialEq + Debug + Clone>(d: &mut D<K>, mut it: Dyn<'a, K>, term: Term) {
    match term {
        Term::Last => (|| { let m = d.m.rest(); let n = m.len(); d.same("last()", it.o.o_last(), m.last().cloned()) })(),
        Term::ForEach => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut g = vec![];
            it.for_each(|x| g.push(x));
            d.same("for_each", g, m)
        })(),
        Term::StepBy(k) => (|| { let m = d.m.rest(); let n = m.len(); d.same("step_by", it.step_by(k).collect::<Vec<K>>(), m.into_iter().step_by(k).collect()) })(),
        Term::Peek => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut p = it.peekable();
            let some = p.peek().is_some();
            d.same("peek", some, n > 0);
            d.same("peekable.len", p.len(), n);
            d.same("peekable", p.collect::<Vec<_>>(), m)
        })(),
        Term::FilterOdd => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut i = 0;
            let g = it.filter(|_| { i += 1; i % 2 == 0 }).collect::<Vec<_>>();
            d.same("filter", g, m.into_iter().skip(1).step_by(2).collect())
        })(),
        Term::SkipWhile(k) => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut i = 0;
            d.same("skip_while", it.skip_while(|_| { i += 1; i <= k }).collect::<Vec<_>>(), m.into_iter().skip(k).collect())
        })(),
        t => finish2(d, it, t),
    }
}
#[allow(unused_variables, unused_mut)]
fn finish2<'a, K: PartialEq + Debug + Clone>(d: &mut D<K>, mut it: Dyn<'a, K>, term: Term) {
    match term {
        Term::Fold => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut g = vec![];
            it.o.o_fold(&mut |x| g.push(x));
            d.same("fold", g, m)
        })(),
        Term::Skip(k) => (|| { let m = d.m.rest(); let n = m.len(); d.same("skip", it.skip(k).collect::<Vec<K>>(), m.into_iter().skip(k).collect()) })(),
        Term::ZipIdx => (|| { let m = d.m.rest(); let n = m.len(); d.same("zip", it.zip(0..n + 3).map(|(x, i)| (x, i)).collect::<Vec<_>>(), m.into_iter().zip(0..n + 3).collect()) })(),
        Term::RevNth(k) => (|| { let m = d.m.rest(); let n = m.len(); d.same("rev().nth", it.rev().nth(k), m.into_iter().rev().nth(k)) })(),
        Term::Partition => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut i = 0;
            let (a, b): (Vec<K>, Vec<K>) = it.partition(|_| { i += 1; i % 2 == 1 });
            d.same("partition", (a, b),
                (m.iter().cloned().step_by(2).collect::<Vec<K>>(), m.iter().cloned().skip(1).step_by(2).collect::<Vec<K>>()))
        })(),
        Term::Eq => (|| { let m = d.m.rest(); let n = m.len(); d.same("eq", it.eq(m.iter().cloned()), true) })(),
        t => finish3(d, it, t),
    }
}
#[allow(unused_variables, unused_mut)]
fn finish3<'a, K: PartialEq + Debug + Clone>(d: &mut D<K>, mut it: Dyn<'a, K>, term: Term) {
    match term {
        Term::Rfold => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut g = vec![];
            it.o.o_rfold(&mut |x| g.push(x));
            d.same("rfold", g, m.into_iter().rev().collect())
        })(),
        Term::SkipRev(k) => (|| { let m = d.m.rest(); let n = m.len(); d.same("skip.rev", it.skip(k).rev().collect::<Vec<K>>(), m.into_iter().skip(k).rev().collect()) })(),
        Term::ZipRev => (|| { let m = d.m.rest(); let n = m.len(); d.same("zip.rev", it.zip(0..n / 2).rev().map(|(x, i)| (x, i)).collect::<Vec<_>>(), m.into_iter().zip(0..n / 2).rev().collect()) })(),
        Term::RevLast => (|| { let m = d.m.rest(); let n = m.len(); d.same("rev().last", it.rev().last(), m.first().cloned()) })(),
        Term::ForLoop => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut g = vec![];
            for x in it {
                g.push(x);
                if g.len() > 5000 { break }
            }
            d.same("for loop", g, m)
        })(),
        t => finish4(d, it, t),
    }
}
#[allow(unused_variables, unused_mut)]
fn finish4<'a, K: PartialEq + Debug + Clone>(d: &mut D<K>, mut it: Dyn<'a, K>, term: Term) {
    match term {
        Term::Collect => (|| {
            let m = d.m.rest();
            let n = m.len();
            let g = it.o.o_collect();
            d.same("collect", g, m)
        })(),
        Term::Take(k) => (|| { let m = d.m.rest(); let n = m.len(); d.same("take", it.take(k).collect::<Vec<K>>(), m.into_iter().take(k).collect()) })(),
        Term::EnumRev => (|| { let m = d.m.rest(); let n = m.len(); d.same("enumerate.rev", it.enumerate().rev().map(|(i, x)| (i, x)).collect::<Vec<_>>(), m.into_iter().enumerate().rev().collect()) })(),
        Term::RevCount => (|| { let m = d.m.rest(); let n = m.len(); d.same("rev().count", it.rev().count(), n) })(),
        Term::Extend => (|| {
            let m = d.m.rest();
            let n = m.len();
            let mut v: Vec<K> = Vec::new();
            v.extend(it);
            d.same("extend", v, m)
        })(),
        Term::Drop => drop(it),
        _ => unreachable!(),
    }
}

/// Drives `it` through `ops` then `term`. `key` turns an item into something comparable (it consumes the item).
pub fn drive<'a, I, K>(c: &mut Case, what: &str, it: I, model: Vec<K>, key: impl Fn(I::Item) -> K + 'a, ops: &[Op], term: Term)
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + 'a,
    K: PartialEq + Debug + Clone,
{
    drive_obj(c, what, Box::new(Keyed(it, key)), model, ops, term)
}

pub fn drive_obj<'a, K>(c: &mut Case, what: &str, it: Box<dyn Obj<K> + 'a>, model: Vec<K>, ops: &[Op], term: Term)
where
    K: PartialEq + Debug + Clone,
{
    let budget = model.len() * 4 + 64 + ops.len() * 1100;
    let mut it = Dyn { o: it, left: budget };
    let mut events = 1u64;
    let ctx = || format!("{what} history {ops:?} then {term:?}");
    let mut d = D { c, m: Deq { lo: 0, hi: model.len(), v: model }, ctx: &ctx, at: 0 };
    macro_rules! lens {
        () => {
            let n = d.m.len();
            d.same("len()", it.len(), n);
            d.same("size_hint()", it.size_hint(), (n, Some(n)));
        };
    }
    lens!();
    for &op in ops {
        d.at += 1;
        events += 3;
        match op {
            Op::Next => (|| {
                let w = d.m.pop_front();
                d.same("next()", it.next(), w)
            })(),
            Op::Back => (|| {
                let w = d.m.pop_back();
                d.same("next_back()", it.next_back(), w)
            })(),
            Op::Nth(k) => (|| {
                let n = d.m.len();
                d.m.skip(k.min(n));
                let w = d.m.pop_front();
                d.same("nth()", it.nth(k), w)
            })(),
            Op::NthBack(k) => (|| {
                let n = d.m.len();
                d.m.truncate(n - k.min(n));
                let w = d.m.pop_back();
                d.same("nth_back()", it.nth_back(k), w)
            })(),
            Op::TryFold(k) => (|| {
                let mut got = vec![];
                it.o.o_try(&mut |x| { got.push(x); got.len() <= k });
                let n = d.m.len().min(k.saturating_add(1));
                let w: Vec<K> = d.m.front(n);
                d.same("try_fold", got, w)
            })(),
            Op::TryRfold(k) => (|| {
                let mut got = vec![];
                it.o.o_rtry(&mut |x| { got.push(x); got.len() <= k });
                let mut w = vec![];
                while w.len() <= k {
                    match d.m.pop_back() {
                        Some(x) => w.push(x),
                        None => break,
                    }
                }
                d.same("try_rfold", got, w)
            })(),
            Op::ByRefTake(k) => (|| {
                let k = k.min(1000);
                let got: Vec<K> = it.by_ref().take(k).collect();
                let n = d.m.len().min(k);
                let w: Vec<K> = d.m.front(n);
                d.same("by_ref().take()", got, w)
            })(),
            Op::ByRefRevTake(k) => (|| {
                let k = k.min(1000);
                let got: Vec<K> = it.by_ref().rev().take(k).collect();
                let w: Vec<K> = (0..k).map_while(|_| d.m.pop_back()).collect();
                d.same("by_ref().rev().take()", got, w)
            })(),
            Op::Find(k) => (|| {
                let mut i = 0usize;
                let got = it.o.o_find(&mut || { i += 1; i - 1 == k });
                let n = d.m.len();
                d.m.skip(k.min(n));
                let w = d.m.pop_front();
                d.same("find", got, w)
            })(),
            Op::RFind(k) => (|| {
                let mut i = 0usize;
                let got = it.o.o_rfind(&mut || { i += 1; i - 1 == k });
                let n = d.m.len();
                d.m.truncate(n - k.min(n));
                let w = d.m.pop_back();
                d.same("rfind", got, w)
            })(),
            Op::Position(k) => (|| {
                let mut i = 0usize;
                let got = it.o.o_position(&mut |_x| { i += 1; i - 1 == k });
                let n = d.m.len();
                let w = if k < n { Some(k) } else { None };
                d.m.skip(k.saturating_add(1).min(n));
                d.same("position", got, w)
            })(),
            Op::Rposition(k) => (|| {
                let mut i = 0usize;
                let got = it.o.o_rposition(&mut |_x| { i += 1; i - 1 == k });
                let n = d.m.len();
                let w = if k < n { Some(n - 1 - k) } else { None };
                d.m.truncate(n - k.saturating_add(1).min(n));
                d.same("rposition", got, w)
            })(),
            Op::All(k) => (|| {
                let mut i = 0usize;
                let got = it.o.o_all(&mut |_x| { i += 1; i - 1 != k });
                let n = d.m.len();
                d.m.skip(k.saturating_add(1).min(n));
                d.same("all", got, k >= n)
            })(),
            Op::Any(k) => (|| {
                let mut i = 0usize;
                let got = it.o.o_any(&mut |_x| { i += 1; i - 1 == k });
                let n = d.m.len();
                d.m.skip(k.saturating_add(1).min(n));
                d.same("any", got, k < n)
            })(),
            Op::Move => {
                it = Dyn { o: it.o.o_move(), left: it.left };
            }
        }
        lens!();
        if !d.c.ok() {
            break; // later differences are consequences
        }
    }
    d.at += 1;
    if d.c.ok() {
        if term == Term::Drop { drop(it) } else { finish0(&mut d, it, term) }
        events += 1;
    }
    drop(d);
    c.iter_events += events;
}

/// Every history over the alphabet up to `depth` (each with one of the terminals, rotating), then random ones.
pub fn sweep<'a, I, K>(c: &mut Case, what: &str, n: usize, depth: usize, random: u64, mk: &mut dyn FnMut() -> (I, Vec<K>), key: impl Fn(I::Item) -> K + Copy + 'a)
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + 'a,
    K: PartialEq + Debug + Clone + 'a,
{
    sweep_obj(c, what, n, depth, random, &mut || {
        let (it, m) = mk();
        (Box::new(Keyed(it, key)) as Box<dyn Obj<K> + 'a>, m)
    })
}

pub fn sweep_obj<'a, K>(c: &mut Case, what: &str, n: usize, depth: usize, random: u64, mk: &mut dyn FnMut() -> (Box<dyn Obj<K> + 'a>, Vec<K>))
where
    K: PartialEq + Debug + Clone,
{
    let terms = all_terms();
    let al = alphabet(n);
    let salt = crate::rng::hash_str(what);
    // every terminal from the fresh iterator and after one step from either end
    for t in terms.iter().filter(|_| !cfg!(miri)) {
        for pre in [&[][..], &[Op::Next][..], &[Op::Back][..], &[Op::Next, Op::Back][..], &[Op::Nth(MAXU)][..], &[Op::NthBack(MAXU)][..]] {
            let (it, m) = mk();
            drive_obj(c, what, it, m, pre, *t);
            c.unit(hist_hash(pre, *t, salt), n > 0);
            if !c.ok() { return }
        }
    }
    let mut tcount = 0usize;
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(h) = stack.pop() {
        if !h.is_empty() {
            let ops: Vec<Op> = h.iter().map(|i| al[*i]).collect();
            let (it, m) = mk();
            let t = terms[tcount % terms.len()];
            tcount += 1;
            drive_obj(c, what, it, m, &ops, t);
            c.unit(hist_hash(&ops, t, salt), n > 0);
            if !c.ok() { return }
        }
        if h.len() < depth {
            for i in 0..al.len() {
                let mut g = h.clone();
                g.push(i);
                stack.push(g);
            }
        }
    }
    // skips whose size looks small once truncated or multiplied
    if !cfg!(miri) {
        let mut big = vec![];
        for b in [1usize << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63] {
            for k in 0..=n { big.push(b + k) }
        }
        for d in 2..=33 {
            big.push(MAXU / d);
            big.push(MAXU / d + 1);
            big.push(MAXU / d + 2);
        }
        for (i, &k) in big.iter().enumerate() {
            for op in [Op::Nth(k), Op::NthBack(k)] {
                for pre in [&[op][..], &[Op::Next, op][..], &[Op::Back, op][..]] {
                    let t = terms[i % terms.len()];
                    let (it, m) = mk();
                    drive_obj(c, what, it, m, pre, t);
                    c.unit(hist_hash(pre, t, salt), n > 0);
                    if !c.ok() { return }
                }
            }
        }
    }
    // every position of the two ends, then every skip that fits and some that do not
    if depth >= 2 && !cfg!(miri) {
        for i in 0..=n {
            for j in 0..=(n - i) {
                let left = n - i - j;
                for k in 0..=left + 1 {
                    for op in [Op::Nth(k), Op::NthBack(k), Op::TryFold(k), Op::TryRfold(k)] {
                        if !c.rng.chance(1, 1 + (n as u64 * n as u64) / 64) && k != 0 && k + 1 < left { continue }
                        let mut ops = vec![Op::Next; i];
                        ops.resize(i + j, Op::Back);
                        ops.push(op);
                        let t = terms[tcount % terms.len()];
                        tcount += 1;
                        let (it, m) = mk();
                        drive_obj(c, what, it, m, &ops, t);
                        c.unit(hist_hash(&ops, t, salt), n > 0);
                        if !c.ok() { return }
                    }
                }
            }
        }
    }
    for _ in 0..random {
        let ops = random_history(&mut c.rng, n);
        let t = *c.rng.pick(&terms);
        let (it, m) = mk();
        drive_obj(c, what, it, m, &ops, t);
        c.unit(hist_hash(&ops, t, salt), n > 0 && ops.len() > 1);
        c.sample(|| format!("{what} n={n} {ops:?} then {t:?}"));
        if !c.ok() { return }
    }
}
