//! C04: chunking splits a vector into equal consecutive pieces.
use rcmon::elems::*;
use rcmon::iterdrive::*;
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Chunks, Vector};

/// Chunk iterators are only required to report a length; the deque model is over whole chunks.
macro_rules! one {
    ($m:ident $kind:expr, $t:ty, $mk:expr, $key:expr, $d:expr, $r:expr => $n:ident, $i:ident, $nn:expr, $ii:expr) => {
        $m.case(&format!("{}/N{}I{}", $kind, $nn, $ii), |c| {
            let base = c.rng.next();
            let mk: fn(u64) -> $t = $mk;
            let key: fn($t) -> _ = $key;
            let chunks = $nn / $ii;
            sweep_obj(c, concat!($kind, " into_chunks"), chunks, $d(chunks), $r, &mut || {
                let v: Vector<$t, $n> = Vector::generate(|i| mk(base ^ i as u64));
                let model: Vec<Vec<_>> = (0..chunks).map(|q| (0..$ii).map(|i| key(mk(base ^ (q * $ii + i) as u64))).collect()).collect();
                let it: Chunks<$t, $n, $i> = v.into_chunks::<$i>();
                (boxed(it, move |ch: Vector<$t, $i>| items(ch, key)), model)
            });
            // concatenation
            let v: Vector<$t, $n> = Vector::generate(|i| mk(base ^ i as u64));
            let flat: Vec<_> = v.into_chunks::<$i>().flat_map(|ch| items(ch, key)).collect();
            let want: Vec<_> = (0..$nn).map(|i| key(mk(base ^ i as u64))).collect();
            c.eq("concatenation of the chunks", &flat, &want);
            let v: Vector<$t, $n> = Vector::generate(|i| mk(base ^ i as u64));
            let mut it = v.into_chunks::<$i>();
            let mut held = Vec::new();
            // alternate ends, keep every chunk alive until the end
            let mut turn = c.rng.next();
            let (mut lo, mut hi) = (0, chunks);
            for _ in 0..chunks + 2 {
                let x = if turn & 1 == 0 { it.next() } else { it.next_back() };
                let want = if lo == hi { None } else if turn & 1 == 0 { lo += 1; Some(lo - 1) } else { hi -= 1; Some(hi) };
                c.check(x.is_some() == want.is_some(), || format!("chunk presence: got {}, expected {:?}", x.is_some(), want));
                if let (Some(x), Some(w)) = (x, want) { held.push((w, x)) }
                turn = turn.rotate_right(1);
            }
            for (w, x) in held {
                let got = items(x, key);
                let want: Vec<_> = (0..$ii).map(|i| key(mk(base ^ (w * $ii + i) as u64))).collect();
                c.eq("held chunk", &got, &want);
            }
            c.count("chunked vectors checked", 2);
        });
    };
}
fn items<T, K, N: ArrayLen<T>>(v: Vector<T, N>, key: fn(T) -> K) -> Vec<K> {
    let mut out = Vec::new();
    for x in v { out.push(key(x)) }
    out
}
fn boxed<'a, K, I, F>(it: I, f: F) -> Box<dyn Obj<K> + 'a>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + 'a,
    F: Fn(I::Item) -> K + 'a,
{
    Box::new(Keyed(it, f))
}

fn main() {
    let mut mon = Mon::new("C04");
    let m = &mut mon;
    if m.slow() {
        let d = |_n: usize| 0usize;
        let r = m.scale(12, 0, 0);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U0, U3, 0, 3);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U6, U2, 6, 2);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U6, U3, 6, 3);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U4, U1, 4, 1);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U8, U4, 8, 4);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U5, U5, 5, 5);
    } else {
        let th = m.thorough;
        let d = |n: usize| match (n, th) { (_, true) => 4, (0..=4, false) => 3, (_, false) => 2 };
        let r = m.scale(0, 300, 10000);
        for_chunks! {one m "u64", u64, (|k| k), (|x: u64| x), d, r =>}
        let d = |_n: usize| 1usize;
        let r = m.scale(0, 60, 1500);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U0, U3, 0, 3);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U6, U2, 6, 2);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U6, U3, 6, 3);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U7, U7, 7, 7);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U12, U4, 12, 4);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U32, U8, 32, 8);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U30, U5, 30, 5);
        one!(m "tok", Tok, Tok::new, (|t: Tok| t.val()), d, r => U32, U1, 32, 1);
        one!(m "352-byte tok", Tok352, Tok352::new, (|t: Tok352| t.val()), d, r => U6, U2, 6, 2);
        one!(m "352-byte tok", Tok352, Tok352::new, (|t: Tok352| t.val()), d, r => U7, U7, 7, 7);
        one!(m "352-byte tok", Tok352, Tok352::new, (|t: Tok352| t.val()), d, r => U12, U4, 12, 4);
        one!(m "352-byte tok", Tok352, Tok352::new, (|t: Tok352| t.val()), d, r => U5, U1, 5, 1);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U24, U6, 24, 6);
        one!(m "string", String, (|k| format!("{k}")), (|s: String| s), d, r => U9, U3, 9, 3);
        one!(m "unit", (), (|_| ()), (|x: ()| x), d, r => U12, U3, 12, 3);
        one!(m "unit", (), (|_| ()), (|x: ()| x), d, r => U5, U1, 5, 1);
        one!(m "nested", Vector<u32, U3>, (|k| Vector::new([k as u32, (k >> 8) as u32, 7])), (|v: Vector<u32, U3>| v.into_inner()), d, r => U10, U5, 10, 5);
        one!(m "nested", Vector<u32, U3>, (|k| Vector::new([k as u32, (k >> 8) as u32, 7])), (|v: Vector<u32, U3>| v.into_inner()), d, r => U10, U2, 10, 2);
    }
    mon.finish();
}
