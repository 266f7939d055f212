//! C01: safe calls never cause undefined behaviour. The oracles are the builds this runs under (Miri, AddressSanitizer,
//! std's UB checks, debug assertions, valgrind), the ledger of element identities, and alignment and validity checks in the elements.
use rcmon::catalog::Env;
use rcmon::elems::*;
use rcmon::field::Fp;
use rcmon::soup::Subject;
use rcmon::*;
use rowcol::prelude::*;
include!("../subjects/tok.rs");
include!("../subjects/kinds.rs");
include!("../subjects/big.rs");

type P61 = Fp<2305843009213693951>;
macro_rules! kind_small { ($l:ident, $name:expr, $t:ty) => {
    $l.push(subject!($name, $t, U2, U3; vec mat iters));
    $l.push(subject!($name, $t, U3, U3; vec mat sq iters));
    $l.push(subject!($name, $t, U0, U2; vec mat iters));
} }
macro_rules! kind_more { ($l:ident, $name:expr, $t:ty) => {
    $l.push(subject!($name, $t, U2, U0; vec mat iters));
    $l.push(subject!($name, $t, U4, U1; vec mat iters));
    $l.push(subject!($name, $t, U1, U17; vec mat));
    $l.push(chunk_subject!($name, $t, U6, U2));
    $l.push(chunk_subject!($name, $t, U5, U5));
    $l.push(chunk_subject!($name, $t, U0, U3));
    $l.push(flat_subject!($name, $t, U2, U3));
    $l.push(flat_subject!($name, $t, U4, U2));
} }
macro_rules! kind_chunks { ($l:ident, $name:expr, $t:ty) => {
    $l.push(chunk_subject!($name, $t, U6, U2));
    $l.push(flat_subject!($name, $t, U2, U3));
} }

fn main() {
    let mut m = Mon::new("C01");
    let mut l: Vec<Box<dyn Subject>> = vec![];
    for_kinds!(kind_small l);
    for_owning_kinds!(kind_small l);
    for_owning_kinds!(kind_chunks l);
    l.push(subject!("f64", f64, U3, U3; ar div sqar lin cof cross show float copy iters));
    l.push(subject!("f64", f64, U4, U4; ar div sqar lin cof diag_ops_44 show float copy def));
    l.push(subject!("P61", P61, U4, U4; ar div sqar lin cof def));
    l.push(subject!("complex", num::Complex<f64>, U2, U3; vec mat conj copy));
    l.push(subject!("heap tok", HTok, U3, U3; sq def ar div sqar clamp ext lin cof cross show iters));
    l.push(subject!("heap tok", HTok, U4, U4; sq def ar div sqar clamp ext lin cof diag_ops_44 show));
    l.push(subject!("heap tok", HTok, U3, U2; vec mat def ar div clamp diag_ops_32 show));
    l.push(subject!("heap tok", HTok, U0, U0; vec mat sq def ar div sqar clamp show));
    l.push(subject!("heap tok", HTok, U1, U1; sq def ar div sqar clamp ext lin show));
    l.push(subject!("heap tok", HTok, U2, U2; sq def ar div sqar clamp ext lin cof diag_ops_22 show));
    kind_retypes!(l U2 U3);
    tok_retypes!(l);
    l.push(subject!("u8", u8, U2, U6; static_26));
    l.push(subject!("u8", u8, U6, U2; static_62));
    l.push(subject!("Box", Box<u32>, U3, U3; static_33));
    l.push(subject!("Box", Box<u32>, U2, U6; static_26));
    l.push(subject!("heap tok", HTok, U6, U2; static_62));
    l.push(subject!("heap tok", HTok, U1, U5; static_15));
    l.push(subject!("over-aligned", Al64, U5, U1; static_51));
    l.push(subject!("box", Box<u32>, U1, U32; vec));
    l.push(subject!("String", String, U1, U31; vec def));
    #[cfg(not(any(feature = "narrow", miri)))]
    {
        for_kinds!(kind_more l);
        for_owning_kinds!(kind_more l);
        kind_retypes!(l U4 U1);
        kind_retypes!(l U1 U1);
        more_tok_retypes!(l);
        big_subjects!(l, "heap tok", HTok);
        huge_subjects!(l, "heap tok", HTok);
        sized_ledger!(l, "368-byte heap tok", TokG<true, [u64; 40]>);
        sized_ledger!(l, "aligned tok", TokAl);
        big_ordered!(l, "heap tok", HTok);
        l.push(subject!("big Box", Box<u32>, U32, U32; mat sq));
        l.push(subject!("big Box", Box<u32>, U18, U14; mat iters));
        l.push(subject!("big over-aligned", Al64, U20, U20; mat sq iters));
        l.push(subject!("big f64 shown", f64, U19, U10; show float));
        for_lens!(length_subject l, "long box", Box<u32>,);
        for_lens!(length_subject l, "long tok", HTok,);
        for_chunks!(chunks_subject l, "heap tok", HTok,);
        ledger_subjects!(l, "heap tok full", HTok);
    }

    let (hist, steps) = if m.slow() { (1, 16) } else if m.thorough { (120, 150) } else { (12, 80) };
    for s in l.iter_mut() {
        let name = s.name().to_string();
        if m.slow() {
            // every op once, in random order
            m.case(&format!("each/{name}"), |c| {
                let mut ops: Vec<usize> = (0..s.ops()).collect();
                for i in (1..ops.len()).rev() { ops.swap(i, c.rng.usize(i + 1)); }
                let seed = c.rng.next();
                one(c, s.as_mut(), seed, &ops);
            });
        }
        let (hist, steps) = if s.big() { ((hist / 6).max(1), steps / 4) } else { (hist, steps) };
        let h = if m.slow() && !m.thorough { 0 } else { hist * if m.slow() { 6 } else { 1 } };
        for h in 0..h {
            m.case(&format!("history/{name}#{h}"), |c| {
                let ops: Vec<usize> = (0..steps).map(|_| c.rng.usize(s.ops())).collect();
                let seed = c.rng.next();
                one(c, s.as_mut(), seed, &ops);
            });
        }
    }
    m.finish();
}

fn one(c: &mut Case, s: &mut dyn Subject, seed: u64, ops: &[usize]) {
    if !c.ok() { return }
    s.clear();
    fault::ledger_errs();
    fault::ledger_reset();
    let mut e = Env::new(seed);
    let mut trace = vec![];
    for (n, &i) in ops.iter().enumerate() {
        s.fill(&mut e);
        let what = s.op(i).0;
        trace.push(what);
        // now and then a callback panics
        let k = if c.rng.chance(1, 3) { 1 + c.rng.below(12) } else { 0 };
        fault::arm(k, 0);
        let r = catches(|| s.run(i, &mut e));
        fault::disarm();
        if let Err(msg) = r {
            c.count("operations that panicked in a callback", 1);
            c.check(msg.starts_with("injected"), || format!("{what}: unexpected panic {msg}; steps: {:?}", &trace[trace.len().saturating_sub(6)..]));
        }
        c.count("operations", 1);
        if cfg!(not(miri)) || n % 8 == 7 { s.inspect(&mut e); }
        let errs = fault::ledger_errs();
        c.check(errs.is_empty(), || format!("{what}: {errs:?}; steps: {:?}", &trace[trace.len().saturating_sub(6)..]));
        if !c.ok() { return }
    }
    s.clear();
    let errs = fault::ledger_errs();
    c.check(errs.is_empty(), || format!("dropping the pool: {errs:?}; steps: {:?}", &trace[trace.len().saturating_sub(6)..]));
    c.count("elements read", e.seen);
    c.unit(seed, e.seen > 0);
    c.sample(|| format!("{:?}", &trace[..trace.len().min(8)]));
}
