//! C19: a panicking callback neither leaks nor corrupts elements.
use rcmon::catalog::{Env, PANICS};
use rcmon::elems::*;
use rcmon::soup::Subject;
use rcmon::*;
use rowcol::prelude::*;
include!("../subjects/tok.rs");
include!("../subjects/big.rs");

fn main() {
    let mut m = Mon::new("C19");
    let mut l: Vec<Box<dyn Subject>> = vec![];
    #[cfg(miri)]
    {
        l.push(subject!("heap tok", HTok, U3, U3; vec mat sq def ar div sqar clamp ext lin cof cross show));
        l.push(subject!("heap tok", HTok, U2, U4; vec mat def diag_ops_24 show));
        l.push(chunk_subject!("heap tok", HTok, U6, U2));
        l.push(flat_subject!("heap tok", HTok, U2, U3));
        tok_retypes!(l);
    }
    #[cfg(not(miri))]
    {
        ledger_subjects!(l, "tok", Tok);
        tok_retypes!(l);
        more_tok_retypes!(l);
        #[cfg(not(any(feature = "narrow", miri)))]
        {
            ledger_subjects!(l, "heap tok", HTok);
            for_lens!(length_subject l, "long tok", Tok,);
            big_subjects!(l, "heap tok", HTok);
            big_ordered!(l, "heap tok", HTok);
            huge_subjects!(l, "tok", Tok);
            sized_ledger!(l, "352-byte tok", Tok352);
            sized_ledger!(l, "aligned tok", TokAl);
            l.push(subject!("big tok shown", Tok, U10, U12; show iters));
        }
        for_chunks!(chunks_subject l, "tok", Tok,);
    }
    let (seeds, points) = if m.slow() { (1, 2) } else if m.thorough { (6, 400) } else { (2, 24) };
    for s in l.iter_mut() {
        let name = s.name().to_string();
        let few = name.contains("chunks") || name.contains("long") || s.big();
        let points = if s.big() { points / 2 } else { points };
        for i in 0..s.ops() {
            let (op, flags) = s.op(i);
            m.case(&format!("{name}/{op}"), |c| {
                for _ in 0..if few { 1.max(seeds / 2) } else { seeds } {
                    faults(c, s.as_mut(), i, flags, if few { points / 2 } else { points });
                }
            });
        }
    }
    m.finish();
}

/// `n` of 1..=total, both ends included.
fn pick(c: &mut Case, total: u64, n: u64) -> Vec<u64> {
    if total <= n { return (1..=total).collect() }
    let mut v: Vec<u64> = (0..n).map(|j| if j == 0 { 1 } else if j == 1 { total } else if j < n / 2 { 1 + c.rng.below(total.min(20)) } else { 1 + c.rng.below(total) }).collect();
    v.sort();
    v.dedup();
    v
}

fn faults(c: &mut Case, s: &mut dyn Subject, i: usize, flags: u8, points: u64) {
    if !c.ok() { return }
    let seed = c.rng.next();
    let warm = c.rng.usize(s.ops());
    let start = |s: &mut dyn Subject, e: &mut Env| {
        s.clear();
        fault::ledger_errs();
        fault::ledger_reset();
        // some history first, so that the operands are not always fresh
        s.fill(e);
        if seed % 3 == 0 && s.op(warm).1 & PANICS == 0 { s.run(warm, e); s.fill(e); }
    };
    // without faults: how many callbacks and drops there are
    let mut e = Env::new(seed);
    start(s, &mut e);
    fault::arm(0, 0);
    s.run(i, &mut e);
    let (calls, drops) = fault::disarm();
    c.count("fault-free runs", 1);
    let what = s.op(i).0;
    for k in pick(c, calls, points) {
        let mut e = Env::new(seed);
        start(s, &mut e);
        fault::arm(k, 0);
        let r = catches(|| s.run(i, &mut e));
        fault::disarm();
        c.count(if r.is_err() { "callback panics that reached the caller" } else { "callback panics the workload caught" }, 1);
        if let Err(msg) = &r {
            c.check(msg.starts_with("injected"), || format!("{what}, callback {k} of {calls} panics: another panic came out: {msg}"));
        }
        let before = e.seen;
        s.inspect(&mut e);
        let pool = e.seen - before;
        let live = fault::ledger_live();
        let errs = fault::ledger_errs();
        c.check(errs.is_empty(), || format!("{what}, callback {k} of {calls} panics: {errs:?}"));
        c.check(live == pool, || format!("{what}, callback {k} of {calls} panics: {live} elements exist afterwards, {pool} of them in the containers"));
        c.count("elements of surviving containers inspected", pool);
        // the survivors are still usable
        if c.ok() && cfg!(not(miri)) {
            s.fill(&mut e);
            let j = c.rng.usize(s.ops());
            s.run(j, &mut e);
            let errs = fault::ledger_errs();
            c.check(errs.is_empty(), || format!("{what}, callback {k} of {calls} panics, then {}: {errs:?}", s.op(j).0));
        }
        s.clear();
        let errs = fault::ledger_errs();
        c.check(errs.is_empty(), || format!("{what}, callback {k} of {calls} panics, containers dropped: {errs:?}"));
        let live = fault::ledger_live();
        c.check(live == 0, || format!("{what}, callback {k} of {calls} panics: {live} elements leaked"));
        c.unit(mix(seed ^ k) ^ i as u64, true);
        if !c.ok() { return }
    }
    for d in pick(c, drops, points / 2) {
        let mut e = Env::new(seed);
        start(s, &mut e);
        fault::arm(0, d);
        let r = catches(|| s.run(i, &mut e));
        fault::disarm();
        c.count(if r.is_err() { "destructor panics that reached the caller" } else { "destructor panics the workload caught" }, 1);
        let errs = fault::ledger_errs();
        c.check(errs.is_empty(), || format!("{what}, destructor {d} of {drops} panics: {errs:?}"));
        s.clear();
        let errs = fault::ledger_errs();
        c.check(errs.is_empty(), || format!("{what}, destructor {d} of {drops} panics, containers dropped: {errs:?}"));
        c.unit(mix(seed ^ d ^ 0x5555) ^ i as u64, true);
        if !c.ok() { return }
    }
    if flags & PANICS == 0 && calls + drops == 0 { c.count("operations without fault points", 1); }
    c.sample(|| format!("{calls} callbacks and {drops} drops; each of a selection panicked"));
}
