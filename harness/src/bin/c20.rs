//! C20: results do not depend on build profile or feature selection. Prints transcripts (DIGEST lines) that the driver
//! compares between builds.
#[macro_use]
extern crate rowcol;
use rcmon::catalog::{Env, PROFILE};
use rcmon::elems::*;
use rcmon::field::Fp;
use rcmon::soup::Subject;
use rcmon::*;
use rowcol::prelude::*;
include!("../subjects/tok.rs");
include!("../subjects/big.rs");
type P61 = Fp<2305843009213693951>;

macro_rules! length_kind { ($l:ident, $name:expr, $t:ty, $n:ident, $k:expr) => { $l.push(subject!($name, $t, U1, $n; ar div float)); } }
macro_rules! chunk_kind { ($l:ident, $name:expr, $t:ty, $n:ident, $i:ident, $a:expr, $b:expr) => { $l.push(chunk_subject!($name, $t, $n, $i)); } }
macro_rules! square_kind { ($l:ident, $name:expr, $t:ty, $n:ident, $k:expr) => { $l.push(subject!($name, $t, $n, $n; sqar lin)); } }

fn main() {
    let mut m = Mon::new("C20");
    let mut l: Vec<Box<dyn Subject>> = vec![];
    l.push(subject!("f64", f64, U3, U3; vec mat sq def ar div sqar lin cof cross float copy iters));
    l.push(subject!("f64", f64, U4, U4; def ar div sqar lin cof diag_ops_44 float));
    l.push(subject!("f32", f32, U2, U3; mat ar div float copy));
    l.push(subject!("P61", P61, U4, U4; def ar div sqar lin cof));
    l.push(subject!("P61", P61, U5, U5; lin cof));
    l.push(subject!("P61", P61, U2, U2; lin cof diag_ops_22));
    l.push(subject!("tok", Tok, U3, U2; vec mat def ar div clamp diag_ops_32 iters));
    l.push(subject!("tok", Tok, U3, U3; sq ext lin clamp sqar));
    l.push(subject!("String", String, U2, U3; vec mat def clamp));
    l.push(subject!("&str", &'static str, U4, U4; vec sq ext));
    l.push(subject!("complex", num::Complex<f64>, U2, U3; conj));
    l.push(subject!("char", char, U1, U17; vec clamp));
    l.push(subject!("box", Box<u32>, U0, U3; vec mat iters));
    l.push(subject!("box", Box<u32>, U3, U0; vec mat iters));
    l.push(subject!("bool", bool, U1, U32; vec clamp));
    l.push(chunk_subject!("u64", u64, U6, U2));
    l.push(chunk_subject!("heap tok", HTok, U32, U8));
    l.push(chunk_subject!("unit", (), U9, U3));
    l.push(flat_subject!("heap tok", HTok, U4, U8));
    l.push(flat_subject!("f64", f64, U3, U2));
    l.push(subject!("generation", Gen, U3, U3; vec mat sq iters));
    l.push(subject!("generation", Gen, U2, U9; vec mat iters));
    l.push(subject!("zst", Zst, U2, U3; vec mat));
    l.push(subject!("over-aligned", Al64, U3, U2; vec mat copy));
    l.push(chunk_subject!("generation", Gen, U12, U4));
    big_subjects!(l, "f64", f64);
    big_subjects!(l, "P61", P61);
    huge_subjects!(l, "f32", f32);
    huge_subjects!(l, "tok", Tok);
    big_ordered!(l, "i64", i64);
    for_lens!(length_kind l, "long f64", f64,);
    for_lens!(length_kind l, "long f32", f32,);
    for_chunks!(chunk_kind l, "u64", u64,);
    for_squares_pos!(square_kind l, "f64 square", f64,);
    l.push(retype_subject!("u128 to u8", u128, u8, U3, U4));
    l.push(retype_subject!("Box to u64", Box<u32>, u64, U2, U5));
    l.push(subject!("large", [u64; 40], U3, U3; vec mat sq copy iters));
    l.push(subject!("big large", [u64; 40], U2, U17; vec mat copy));
    // only where Display exists
    #[cfg(feature = "std")]
    {
        l.push(subject!("f64 shown", f64, U3, U3; show));
        l.push(subject!("String shown", String, U4, U2; show));
        l.push(subject!("tok shown", Tok, U1, U1; show));
        l.push(subject!("big f64 shown", f64, U17, U12; show));
    }
    let (reps, hist, steps) = if m.thorough { (200, 300, 100) } else { (120, 40, 60) };
    for s in l.iter_mut() {
        let name = s.name().to_string();
        let (reps, hist, steps) = if s.big() { (reps / 12, hist / 10, steps / 3) } else if ["long ", "u64 chunks", "f64 square"].iter().any(|p| name.starts_with(p)) { (reps / 10, hist / 20, steps / 2) } else { (reps, hist, steps) };
        for i in 0..s.ops() {
            let (op, flags) = s.op(i);
            if flags & PROFILE != 0 { continue }
            m.case(&format!("{name}/{op}"), |c| {
                let mut d = 0;
                for _ in 0..reps { let seed = c.rng.next(); d = mix(d ^ one(c, s.as_mut(), seed, &[i])); }
                println!("DIGEST\t{}\t{:016x}", c.label, d);
            });
        }
        for h in 0..hist {
            m.case(&format!("{name}/history#{h}"), |c| {
                let ops: Vec<usize> = (0..steps).map(|_| c.rng.usize(s.ops())).filter(|i| s.op(*i).1 & PROFILE == 0).collect();
                let seed = c.rng.next();
                let d = one(c, s.as_mut(), seed, &ops);
                println!("DIGEST\t{}\t{:016x}", c.label, d);
                c.sample(|| format!("{} steps of {:?}..., transcript {d:016x}", ops.len(), ops.iter().take(6).map(|i| s.op(*i).0).collect::<Vec<_>>()));
            });
        }
    }
    extra(&mut m);
    m.finish();
}

fn one(c: &mut Case, s: &mut dyn Subject, seed: u64, ops: &[usize]) -> u64 {
    s.clear();
    fault::ledger_reset();
    let mut e = Env::new(seed);
    for &i in ops {
        s.fill(&mut e);
        let r = catches(|| s.run(i, &mut e));
        e.note(r.is_err() as u64);
        c.count("operations recorded", 1);
        c.count("operations that panicked", r.is_err() as u64);
        s.inspect(&mut e);
        c.fold(e.dig);
    }
    s.clear();
    c.unit(seed, e.seen > 0);
    c.count("values recorded", e.seen);
    e.dig
}

/// Calls whose checks could depend on the profile, and the documented difference.
fn extra(m: &mut Mon) {
    m.case("refusals", |c| {
        let mut d = 0;
        let mut rec = |c: &mut Case, what: &str, r: bool| {
            d = mix(d ^ mix(r as u64 + 1) ^ hash_str(what));
            c.count("calls that may panic", 1);
            c.unit(hash_str(what), true);
        };
        for i in [0, 1, 2, 3, 4, usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32] {
            let v = vector![1.0, 2.0, 3.0];
            let a = matrix![[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]];
            let q = matrix![[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 10.0]];
            let b = Matrix::<f64, U2, U2>::generate(|(i, j)| (i * 2 + j) as f64);
            let e5 = Matrix::<f64, U5, U5>::identity();
            rec(c, &format!("v[{i}]"), catches(|| v[i]).is_ok());
            for j in [0, 1, 2, 3, 5, usize::MAX] {
                rec(c, &format!("a[{i},{j}]"), catches(|| a[(i, j)]).is_ok());
                rec(c, &format!("a[{j},{i}]="), catches(|| { let mut a = a.clone(); a[(j, i)] = 1.0; a[(j, i)] }).is_ok());
                rec(c, &format!("cof2({i},{j})"), catches(|| b.cofactor((i, j))).is_ok());
                rec(c, &format!("cof3({i},{j})"), catches(|| q.cofactor((i, j))).is_ok());
                rec(c, &format!("cof5({i},{j})"), catches(|| e5.cofactor((i, j))).is_ok());
            }
            rec(c, &format!("nth {i}"), catches(|| v.clone().into_iter().nth(i)).is_ok());
            rec(c, &format!("nth_back {i}"), catches(|| v.clone().into_iter().nth_back(i)).is_ok());
            rec(c, &format!("rows nth {i}"), catches(|| { let mut r = a.rows_iter_ref(); r.next(); r.nth(i).is_some() }).is_ok());
            rec(c, &format!("cols nth {i}"), catches(|| { let mut r = a.cols_iter_ref(); r.next(); r.nth(i).map(|_| r.len()) }).is_ok());
            rec(c, &format!("collect {i}"), i > 3 || catches(|| (0..i).collect::<Vector<usize, U4>>()).is_ok());
            rec(c, &format!("pow {i}"), { let x = b.pow(0); x == num::One::one() } && i < 100 && catches(|| e5.pow(i)).is_ok());
        }
        println!("DIGEST\t{}\t{:016x}", c.label, d);
    });
}
