//! C02: every element is handed over or dropped exactly once.
use rcmon::catalog::Env;
use rcmon::elems::*;
use rcmon::soup::Subject;
use rcmon::*;
use rowcol::prelude::*;
include!("../subjects/tok.rs");
include!("../subjects/big.rs");

/// What a subject's elements say about themselves.
#[derive(Clone, Copy, PartialEq)]
enum Books { Ledger, Zst }
impl Books {
    fn live(self) -> i64 {
        match self { Books::Ledger => fault::ledger_live() as i64, Books::Zst => ZST_LIVE.with(|c| c.get()) }
    }
    fn reset(self) {
        fault::ledger_reset();
        ZST_LIVE.with(|c| c.set(0));
    }
}
fn main() {
    let mut m = Mon::new("C02");
    let mut l: Vec<(Books, Box<dyn Subject>)> = vec![];
    let mut tok: Vec<Box<dyn Subject>> = vec![];
    ledger_subjects!(tok, "tok", Tok);
    ledger_subjects!(tok, "heap tok", HTok);
    for_lens!(length_subject tok, "long tok", Tok,);
    for_chunks!(chunks_subject tok, "tok", Tok,);
    tok_retypes!(tok);
    more_tok_retypes!(tok);
    sized_ledgers!(tok);
    big_subjects!(tok, "heap tok", HTok);
    huge_subjects!(tok, "tok", Tok);
    big_ordered!(tok, "tok", Tok);
    tok.push(subject!("big tok shown", Tok, U10, U12; show iters));
    l.extend(tok.into_iter().map(|s| (Books::Ledger, s)));
    let mut zst: Vec<Box<dyn Subject>> = vec![];
    zst.push(subject!("zst", Zst, U3, U3; vec mat sq iters));
    zst.push(subject!("zst", Zst, U0, U2; vec mat iters));
    zst.push(subject!("zst", Zst, U2, U0; vec mat iters));
    zst.push(subject!("zst", Zst, U2, U5; vec mat iters));
    zst.push(subject!("zst", Zst, U1, U32; vec mat iters));
    zst.push(chunk_subject!("zst", Zst, U6, U2));
    zst.push(chunk_subject!("zst", Zst, U32, U8));
    zst.push(flat_subject!("zst", Zst, U3, U4));
    l.extend(zst.into_iter().map(|s| (Books::Zst, s)));

    let (hist, steps) = if m.slow() { (1, 12) } else if m.thorough { (300, 120) } else { (14, 100) };
    for (books, s) in l.iter_mut() {
        let books = *books;
        let name = s.name().to_string();
        // every op alone, several times over, then histories
        let alone = m.scale(1, if s.big() { 2 } else { 6 }, if s.big() { 12 } else { 60 });
        let (hist, steps) = if s.big() { (hist / 7, steps / 3) } else { (hist, steps) };
        m.case(&format!("single/{name}"), |c| {
            for i in 0..s.ops() {
                for k in 0..alone {
                    let seed = c.rng.next();
                    one(c, s.as_mut(), books, seed, &[i], k);
                }
            }
        });
        for h in 0..hist {
            m.case(&format!("history/{name}#{h}"), |c| {
                let ops: Vec<usize> = (0..steps).map(|_| c.rng.usize(s.ops())).collect();
                let seed = c.rng.next();
                one(c, s.as_mut(), books, seed, &ops, h);
            });
        }
    }
    m.finish();
}

/// Runs `ops` one after another; after each, the elements in existence must be exactly those in the pool.
fn one(c: &mut Case, s: &mut dyn Subject, books: Books, seed: u64, ops: &[usize], _k: u64) {
    if !c.ok() { return }
    books.reset();
    let mut e = Env::new(seed);
    let mut trace = vec![];
    for (n, &i) in ops.iter().enumerate() {
        s.fill(&mut e);
        let (what, _) = s.op(i);
        trace.push(what);
        s.run(i, &mut e);
        let before = e.seen;
        s.inspect(&mut e);
        let pool = (e.seen - before) as i64;
        let errs = fault::ledger_errs();
        c.count("operations", 1);
        c.check(errs.is_empty(), || format!("step {n}, {what}: {errs:?}; steps: {:?}", &trace[trace.len().saturating_sub(6)..]));
        let live = books.live();
        c.check(live == pool, || format!("step {n}, {what}: {live} elements exist, {pool} are in the pool; steps: {:?}", &trace[trace.len().saturating_sub(6)..]));
        if !c.ok() { return }
    }
    c.count("elements observed", e.seen);
    if books == Books::Ledger { c.count("elements created", fault::ledger_births()); }
    s.clear();
    let errs = fault::ledger_errs();
    c.check(errs.is_empty(), || format!("dropping the pool after {:?}: {errs:?}", &trace[trace.len().saturating_sub(6)..]));
    let live = books.live();
    c.check(live == 0, || format!("{live} elements left after the pool was dropped, after {:?}", &trace[trace.len().saturating_sub(6)..]));
    c.unit(seed, e.seen > 0);
    c.sample(|| format!("{:?}", &trace[..trace.len().min(8)]));
}
