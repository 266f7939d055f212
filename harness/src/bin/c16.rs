//! C16: text output shows every element in place, aligned.
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Vector};
use std::fmt::{self, Debug, Display, Write};

/// An element that prints a given text, piecewise.
#[derive(Clone, PartialEq)]
struct Cell1(String);
impl Display for Cell1 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mid = (self.0.len() / 2..=self.0.len()).find(|&i| self.0.is_char_boundary(i)).unwrap();
        f.write_str(&self.0[..mid])?;
        f.write_str("")?;
        f.write_str(&self.0[mid..])
    }
}
impl Debug for Cell1 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_struct("Cell").field("t", &self.0).finish() }
}

fn width(s: &str) -> usize {
    s.chars().map(|ch| match ch {
        ' '..='~' => 1,
        '\u{301}' | '\u{308}' | '\u{200b}' => 0,
        'é' | 'Ω' | 'ж' | 'ß' | '⎡' | '⎢' | '⎣' | '⎤' | '⎥' | '⎦' => 1,
        '日' | '本' | 'Ａ' | '한' | '、' => 2,
        c => panic!("no width known for {c:?}"),
    }).sum()
}
/// The expected lines without brackets.
fn body(g: &[Vec<String>], cols: usize) -> Vec<String> {
    fn lines(s: &str) -> Vec<&str> {
        let mut l: Vec<&str> = s.split('\n').collect();
        if l.last() == Some(&"") { l.pop(); }
        l
    }
    let cellw = |s: &str| lines(s).into_iter().map(width).max().unwrap_or(0);
    let colw: Vec<usize> = (0..cols).map(|j| g.iter().map(|r| cellw(&r[j])).max().unwrap_or(0)).collect();
    let mut out = vec![];
    for row in g {
        let h = row.iter().map(|s| lines(s).len()).max().unwrap_or(0).max(1);
        for n in 0..h {
            let parts: Vec<String> = row.iter().zip(&colw).map(|(s, &w)| {
                let (line, cw) = (lines(s).get(n).cloned().unwrap_or("").to_string(), cellw(s));
                let off = (w - cw) / 2;
                let pad = w - off - width(&line);
                format!("{}{line}{}", " ".repeat(off), " ".repeat(pad))
            }).collect();
            out.push(parts.join(" "));
        }
    }
    out
}
fn judge_display(c: &mut Case, got: &str, g: &[Vec<String>], cols: usize) {
    let want = body(g, cols);
    if cols == 0 || want.is_empty() {
        // no cell to show: nothing, or brackets only
        c.check(got.chars().all(|ch| "⎡⎢⎣⎤⎥⎦[]()|\n".contains(ch)), || format!("a matrix without cells is displayed as {got:?}"));
        return;
    }
    if want.len() == 1 {
        // the shape of the brackets of a single line and a newline after it are not specified
        let s = got.strip_suffix('\n').unwrap_or(got);
        let ok = { let mut it = s.chars(); let a = it.next(); let b = it.next_back(); a.map_or(false, |a| "⎡⎢⎣[(|".contains(a)) && b.map_or(false, |b| "⎤⎥⎦])|".contains(b)) && it.as_str() == want[0] };
        c.check(ok, || format!("{g:?} is displayed as {got:?}, expected {:?} between brackets", want[0]));
        return;
    }
    let n = want.len();
    let full: Vec<String> = want.iter().enumerate().map(|(i, l)| {
        let (a, b) = if i == 0 { ('⎡', '⎤') } else if i == n - 1 { ('⎣', '⎦') } else { ('⎢', '⎥') };
        format!("{a}{l}{b}")
    }).collect();
    let full = full.join("\n");
    c.check(got == full, || format!("{g:?} is displayed as\n{got}\nexpected\n{full}"));
    let w: Vec<usize> = got.split('\n').map(width).collect();
    c.check(w.windows(2).all(|p| p[0] == p[1]), || format!("lines of widths {w:?}:\n{got}"));
}
/// A sink failing at the k-th write only, or from the k-th write on.
struct Sink { text: String, calls: u64, fail_at: u64, sticky: bool, failed: bool }
impl Sink {
    fn new(fail_at: u64, sticky: bool) -> Sink { Sink { text: String::new(), calls: 0, fail_at, sticky, failed: false } }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls == self.fail_at || (self.sticky && self.fail_at > 0 && self.calls > self.fail_at) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
/// Fails every write of the output in turn.
fn sinks(c: &mut Case, what: &str, want: &str, f: &dyn Fn(&mut Sink) -> fmt::Result) {
    let mut s = Sink::new(0, false);
    c.check(f(&mut s).is_ok() && s.text == want, || format!("{what}: written {:?}, formatted {want:?}", s.text));
    let total = s.calls;
    let step = if total > 120 { total / 60 } else { 1 };
    for sticky in [false, true] {
        let mut k = 1;
        while k <= total {
            let mut s = Sink::new(k, sticky);
            let r = f(&mut s);
            c.check(!s.failed || r.is_err(), || format!("{what}: the sink refused write {k} of {total} but Ok was returned"));
            c.count("failed writes injected", s.failed as u64);
            k += if k + step > total && k < total { total - k } else { step };
        }
    }
}
fn texts(c: &mut Case) -> String {
    const ASCII: [&str; 14] = ["", "", "a", "ab", "-1", "12345678", " ", "x y", "{}", "[0]", "long text here", "  lead", "trail  ", "#"];
    const WIDE: [&str; 12] = ["日本", "Ａ", "é", "e\u{301}", "Ω", "한", "\u{200b}", "a\u{308}b", "日", "ж、ß", "\u{301}", "日e"];
    fn piece(c: &mut Case) -> &'static str {
        if cfg!(feature = "unicode_width") && c.rng.chance(1, 3) { *c.rng.pick(&WIDE) } else { *c.rng.pick(&ASCII) }
    }
    let n = match c.rng.below(8) { 0..=4 => 1, 5 => 0, 6 => 2, _ => 3 + c.rng.usize(3) };
    let mut s: Vec<String> = (0..n).map(|_| piece(c).to_string()).collect();
    if c.rng.chance(1, 8) { s.push(String::new()); }
    s.join("\n")
}
fn display<R, C>(m: &mut Mon, r: usize, k: usize, reps: u64)
where R: ArrayLen<Vector<Cell1, C>>, C: ArrayLen<Cell1>, Matrix<Cell1, R, C>: Display + Debug {
    let build = |g: &Vec<Vec<String>>| Matrix::<Cell1, R, C>::generate(|(i, j)| Cell1(g[i][j].clone()));
    m.case(&format!("display/{r}x{k}"), |c| {
        for _ in 0..reps {
            let simple = c.rng.chance(1, 3);
            let g: Vec<Vec<String>> = (0..r).map(|_| (0..k).map(|_| if simple { format!("{}", c.rng.range(-999, 99)) } else { texts(c) }).collect()).collect();
            let s = format!("{}", build(&g));
            judge_display(c, &s, &g, k);
            c.unit(hash_str(&s), r * k > 0);
        }
        // one cell wider, taller, or odd among plain ones, at every position
        for p in 0..r * k {
            let (long, tall) = ("L".repeat(70 + c.rng.usize(300)), (0..10 + c.rng.usize(60)).map(|n| n.to_string()).collect::<Vec<_>>().join("\n"));
            for (q, t) in ["wide wide", "1\n2\n3", "", "\n", "\nx", "x\n", "odd", "\n\n\n", &long, &tall].iter().enumerate() {
                if r * k > 36 && (p + q) % (r * k / 8) != 0 { continue; }
                let g: Vec<Vec<String>> = (0..r).map(|i| (0..k).map(|j| if i * k + j == p { t.to_string() } else { format!("{}", (i + 3 * j) % 7) }).collect()).collect();
                let s = format!("{}", build(&g));
                judge_display(c, &s, &g, k);
                c.unit(hash_str(&s), true);
            }
        }
        c.sample(|| format!("{reps} random tables and odd cells at every position, {r}x{k}"));
    });
    m.case(&format!("display sink/{r}x{k}"), |c| {
        let g: Vec<Vec<String>> = (0..r).map(|i| (0..k).map(|j| if (i + j) % 4 == 3 { "p\nq".into() } else if (i + j) % 4 == 2 { texts(c) } else { "1".repeat(1 + (i * j) % 3) }).collect()).collect();
        let mat = build(&g);
        let s = format!("{mat}");
        judge_display(c, &s, &g, k);
        sinks(c, "Display", &s, &|w| write!(w, "{mat}"));
        c.unit(hash_str(&s) ^ 1, r * k > 0);
    });
}
macro_rules! opts { ($f:ident, $($o:literal),*) => { $( $f!($o); )* } }
fn debugs<T: Debug + Clone, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize, mk: fn(u64) -> T)
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T> {
    m.case(&format!("debug/{kind}/{r}x{k}"), |c| {
        let b = c.rng.next();
        let rows: Vec<Vec<T>> = (0..r).map(|i| (0..k).map(|j| mk(mix(b ^ (i * 64 + j) as u64))).collect()).collect();
        let mat = Matrix::<T, R, C>::generate(|(i, j)| rows[i][j].clone());
        macro_rules! one { ($o:literal) => {{
            let got = format!($o, mat);
            let nested = format!("Matrix{}", format!($o, rows));
            // rows one after another, or nested as a slice of rows would be
            let flat = format!("Matrix[{}]", rows.iter().map(|row| format!($o, row)).collect::<Vec<_>>().join(", "));
            c.check(got == nested || got == flat, || format!("{} gives {got:?}, expected {flat:?}", $o));
            c.unit(hash_str(&got), r * k > 0);
        }} }
        opts!(one, "{:?}", "{:5?}", "{:<4?}", "{:^+9.2?}", "{:x?}", "{:X?}", "{:08?}", "{:*>6?}", "{:#?}", "{:#6?}", "{:#x?}");
        let s = format!("{mat:?}");
        sinks(c, "Debug of a matrix", &s, &|w| write!(w, "{mat:?}"));
        let s = format!("{mat:#?}");
        sinks(c, "{:#?} of a matrix", &s, &|w| write!(w, "{mat:#?}"));
    });
}
fn vdebug<T: Debug + Clone, N: ArrayLen<T>>(m: &mut Mon, kind: &str, n: usize, mk: fn(u64) -> T) {
    m.case(&format!("vector debug/{kind}/N{n}"), |c| {
        let b = c.rng.next();
        let xs: Vec<T> = (0..n).map(|i| mk(mix(b ^ i as u64))).collect();
        let v: Vector<T, N> = Vector::generate(|i| xs[i].clone());
        macro_rules! one { ($o:literal) => {{
            let (got, want) = (format!($o, v), format!("Vector{}", format!($o, &xs[..])));
            c.check(got == want, || format!("{} gives {got:?}, expected {want:?}", $o));
            c.unit(hash_str(&got), n > 0);
        }} }
        opts!(one, "{:?}", "{:5?}", "{:<4?}", "{:^+9.2?}", "{:x?}", "{:X?}", "{:08?}", "{:*>6?}", "{:#?}", "{:#6?}", "{:#x?}", "{:e<3?}");
        let s = format!("{v:?}");
        sinks(c, "Debug of a vector", &s, &|w| write!(w, "{v:?}"));
        let s = format!("{v:#?}");
        sinks(c, "{:#?} of a vector", &s, &|w| write!(w, "{v:#?}"));
        c.sample(|| format!("12 option sets, every write refused in turn: {}", s.chars().take(60).collect::<String>()));
    });
}
fn plain<T: Display + Clone, R, C>(m: &mut Mon, kind: &str, r: usize, k: usize, mk: fn(u64) -> T)
where R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>, Matrix<T, R, C>: Display {
    m.case(&format!("display/{kind}/{r}x{k}"), |c| {
        for _ in 0..3 {
            let b = c.rng.next();
            let rows: Vec<Vec<T>> = (0..r).map(|i| (0..k).map(|j| mk(mix(b ^ (i * 64 + j) as u64))).collect()).collect();
            let mat = Matrix::<T, R, C>::generate(|(i, j)| rows[i][j].clone());
            let g: Vec<Vec<String>> = rows.iter().map(|r| r.iter().map(|x| x.to_string()).collect()).collect();
            judge_display(c, &mat.to_string(), &g, k);
            c.unit(b, r * k > 0);
        }
    });
}
fn nested_mat(k: u64) -> Matrix<i32, U2, U2> { Matrix::generate(|(i, j)| (mix(k ^ (i * 2 + j) as u64) % 200) as i32 - 100) }
fn nested_vec(k: u64) -> Vector<i32, U2> { Vector::generate(|i| (mix(k ^ i as u64) % 20) as i32) }
fn flt(k: u64) -> f64 { [1.0, -0.5, 1e300, f64::NAN, f64::NEG_INFINITY, -0.0, 1234.5678][(k % 7) as usize] }
fn txt(k: u64) -> String { ["", "a", "q\"uote", "new\nline", "é", "\u{1}"][(k % 6) as usize].to_string() }

macro_rules! d { ($m:ident $q:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    #[cfg(feature = "std")] display::<$r, $c>($m, $rr, $cc, $q);
    debugs::<i32, $r, $c>($m, "i32", $rr, $cc, |k| (k % 4000) as i32 - 2000);
} }
macro_rules! e { ($m:ident $q:expr => $r:ident, $c:ident, $rr:expr, $cc:expr) => {
    debugs::<f64, $r, $c>($m, "f64", $rr, $cc, flt);
    debugs::<String, $r, $c>($m, "String", $rr, $cc, txt);
    debugs::<Option<(u8, Vector<i32, U2>)>, $r, $c>($m, "Option<(u8,Vector)>", $rr, $cc, |k| if k % 3 == 0 { None } else { Some((k as u8, nested_vec(k))) });
    #[cfg(feature = "std")] {
        plain::<i64, $r, $c>($m, "i64", $rr, $cc, |k| k as i64 >> (k % 60));
        plain::<f64, $r, $c>($m, "f64", $rr, $cc, flt);
    }
    #[cfg(feature = "unicode_width")] plain::<Matrix<i32, U2, U2>, $r, $c>($m, "Matrix2", $rr, $cc, nested_mat);
} }
macro_rules! l { ($m:ident => $n:ident, $nn:expr) => {
    vdebug::<i32, $n>($m, "i32", $nn, |k| (k % 4000) as i32 - 2000);
    vdebug::<f64, $n>($m, "f64", $nn, flt);
    vdebug::<String, $n>($m, "String", $nn, txt);
    vdebug::<Option<(u8, Matrix<i32, U2, U2>)>, $n>($m, "Option<(u8,Matrix)>", $nn, |k| if k % 3 == 0 { None } else { Some((k as u8, nested_mat(k))) });
} }
macro_rules! v { ($m:ident => $n:ident, $nn:expr) => { vdebug::<u8, $n>($m, "u8", $nn, |k| k as u8); } }
fn main() {
    let mut mon = Mon::new("C16");
    let m = &mut mon;
    let q = m.scale(1, 40, 1500);
    for_shapes! {d m q =>}
    for_shapes_small! {e m q =>}
    for_lens_mid! {l m =>}
    for_lens! {v m =>}
    mon.finish();
}
