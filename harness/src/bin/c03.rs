//! C03: owned vector iteration is an exact double-ended sequence.
use rcmon::elems::*;
use rcmon::iterdrive::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use rowcol::vector::Vector;

fn sweep_n<T: 'static, K: PartialEq + Clone + std::fmt::Debug, N: ArrayLen<T>>(m: &mut Mon, kind: &str, n: usize, depth: usize, random: u64, mk: fn(u64) -> T, key: fn(T) -> K) {
    m.case(&format!("{kind}/N{n}"), |c| {
        let base = c.rng.next();
        sweep(
            c,
            &format!("{kind} into_iter N={n}"),
            n,
            depth,
            random,
            &mut || {
                let v: Vector<T, N> = Vector::generate(|i| mk(base ^ i as u64));
                let model: Vec<K> = (0..n).map(|i| key(mk(base ^ i as u64))).collect();
                (v.into_iter(), model)
            },
            key,
        );
    });
}

macro_rules! lens { ($m:ident $kind:expr, $t:ty, $mk:expr, $key:expr, $d:expr, $r:expr => $u:ident, $n:expr) => {
    sweep_n::<$t, _, $u>($m, $kind, $n, $d($n), $r, $mk, $key);
} }

fn main() {
    let mut mon = Mon::new("C03");
    let m = &mut mon;
    if m.slow() {
        let r = m.scale(80, 0, 0);
        let d = |_n: usize| 0usize;
        for_lens_small! {lens m "u64", u64, (|k| k), (|x: u64| x), d, r =>}
        let d = |n: usize| if n == 2 { 1 } else { 0 };
        for_lens_small! {lens m "string", String, (|k| format!("{k}")), (|s: String| s), d, r =>}
    } else {
        let th = m.thorough;
        let dbg = m.mode == "dbg";
        let d = |n: usize| match (n, th) {
            (0..=6, true) => if dbg { 4 } else { 5 },
            (_, true) => 4,
            (0..=5, false) => if dbg { 3 } else { 4 },
            (_, false) => 3,
        };
        let r = m.scale(0, 1500, 40000);
        for_lens! {lens m "u64", u64, (|k| k), (|x: u64| x), d, r =>}
        let d = |_n: usize| 2usize;
        let r = m.scale(0, 300, 8000);
        for_lens! {lens m "string", String, (|k| format!("{k}")), (|s: String| s), d, r =>}
        for_lens_mid! {lens m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r =>}
        for_lens_mid! {lens m "352-byte tok", Tok352, Tok352::new, (|t: Tok352| t.val()), d, r / 4 =>}
        for_lens_small! {lens m "aligned tok", TokAl, TokAl::new, (|t: TokAl| t.val()), d, r / 4 =>}
        for_lens_mid! {lens m "unit", (), (|_| ()), (|x: ()| x), d, r =>}
        for_lens_mid! {lens m "nested", Vector<u32, U3>, (|k| Vector::new([k as u32, (k >> 8) as u32, 7])), (|v: Vector<u32, U3>| v.into_inner()), d, r =>}
    }
    mon.finish();
}
