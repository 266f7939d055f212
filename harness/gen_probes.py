"""Writes src/pairs.rs (pairs of lengths/shapes for the trait probes of C22) and probes/c22r.rs (one expression per
line, marked REFUSE or ACCEPT, for `cargo check`)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
o = ["//! Generated by gen_probes.py.\n"]
def mac(name, rows):
    o.append("macro_rules! %s {\n    ($m:ident $($x:tt)*) => {\n" % name)
    o.extend("        $m!($($x)* %s);\n" % r for r in rows)
    o.append("    };\n}\n")
L = range(33)
near = [(n, m) for n in L for m in L if abs(n - m) <= 2 or m in (0, 1, 32) or n in (0, 1, 32) or m == 2 * n or n == 2 * m or (n % 8 == m % 8)]
mac("for_vpairs", ["U%d, U%d, %d, %d" % (n, m, n, m) for n, m in near])
S = [0, 1, 2, 3, 4]
P = [(a, b, c, d) for a in S for b in S for c in S for d in S]
P += [(r, c, r2, c2) for r, c in [(32, 32), (7, 9), (8, 5), (1, 32), (17, 17), (16, 2)] for r2, c2 in
      [(r, c), (c, r), (r - 1, c), (r, c - 1), (min(r + 1, 32), c), (r, min(c + 1, 32)), (r, r), (c, c)]]
P = list(dict.fromkeys(P))
mac("for_mpairs", ["U%d, U%d, U%d, U%d, %d, %d, %d, %d" % (q + q) for q in P])
mac("for_mshapes_all", ["U%d, U%d, %d, %d" % (r, c, r, c) for r in L for c in L if max(r, c) < 8 or r == c or (abs(r - c) == 1 and r % 4 in (0, 3)) or (r in (0, 1, 32) and c % 5 == 0) or (c in (0, 1, 32) and r % 5 == 0)])
F = []
for r in range(0, 12):
    for c in range(1, 12):
        for l in sorted({0, 1, r, c, r + c, r * c, r * c - 1, r * c + 1, 32}):
            if 0 <= l <= 32:
                F.append((r, c, l))
F += [(1, 32, 32), (32, 1, 32), (32, 1, 31), (31, 1, 31), (1, 31, 32), (2, 16, 32), (16, 2, 32), (16, 2, 31), (32, 2, 32), (2, 32, 32), (32, 32, 32), (0, 32, 0), (0, 32, 32)]
mac("for_flat_all", ["U%d, U%d, U%d, %d, %d, %d" % (q + q) for q in dict.fromkeys(F)])
open(os.path.join(HERE, "src/pairs.rs"), "w").write("".join(o))

p = ["""//! Generated by gen_probes.py: not run, only type-checked; each marked line must (not) be an error.
#![allow(unused)]
use rowcol::prelude::*;
use rowcol::vector::Vector;
use rowcol::matrix::ops::{Determinant, Cofactor, Inverse};
use num::{One, Zero};
use approx::ApproxEq;
fn v<N: rowcol::vector::ArrayLen<i64>>() -> Vector<i64, N> { loop {} }
fn m<R: rowcol::vector::ArrayLen<Vector<f64, C>>, C: rowcol::vector::ArrayLen<f64>>() -> Matrix<f64, R, C> { loop {} }
fn k<R: rowcol::vector::ArrayLen<Vector<i64, C>>, C: rowcol::vector::ArrayLen<i64>>() -> Matrix<i64, R, C> { loop {} }
fn main() {}
"""]
cnt = [0]
def probe(ok, group, what, expr):
    cnt[0] += 1
    p.append("fn p%d() { %s; } // %s\t%s\t%s\n" % (cnt[0], expr, "ACCEPT" if ok else "REFUSE", group, what))
for n in L:
    for i in range(1, 33):  # 0 is refused too, but with a recursion overflow that carries no line number
        probe(n % i == 0, "into_chunks", "length %d in chunks of %d" % (n, i), "let _ = v::<U%d>().into_chunks::<U%d>()" % (n, i))
for n, d in near:
    probe(n == d, "dot", "lengths %d and %d" % (n, d), "v::<U%d>().dot(&v::<U%d>())" % (n, d))
    probe(n == d, "==", "lengths %d and %d" % (n, d), "let _ = v::<U%d>() == v::<U%d>()" % (n, d))
    probe(n == d, "+", "lengths %d and %d" % (n, d), "let _ = v::<U%d>() + v::<U%d>()" % (n, d))
for n in L:
    for f in ["max()", "min()", "max_by(|a, b| a.cmp(b))", "min_by(|a, b| a.cmp(b))"]:
        probe(n > 0, "extrema", "length %d %s" % (n, f.split("(")[0]), "let _ = v::<U%d>().%s" % (n, f))
        if n in (0, 1, 2, 3, 4, 9, 32):
            probe(n > 0, "extrema", "%dx%d %s" % (n, n, f.split("(")[0]), "let _ = k::<U%d, U%d>().%s" % (n, n, f))
    probe(n == 3, "cross", "length %d" % n, "let _ = v::<U%d>().cross(&v::<U%d>())" % (n, n))
    if n != 3:
        probe(False, "cross", "lengths 3 and %d" % n, "let _ = v::<U3>().cross(&v::<U%d>())" % n)
    for a in sorted({0, n - 1, n, n + 1, 32} - {-1}):
        probe(a == n, "Vector::new", "length %d from an array of %d" % (n, a), "let _ = Vector::<i64, U%d>::new([0; %d])" % (n, a))
Q = [(r, c) for r in range(7) for c in range(7)] + [(32, 32), (32, 31), (31, 32), (1, 32), (16, 8), (8, 16), (17, 17), (8, 9)]
for r, c in Q:
    t = "%dx%d" % (r, c)
    M = "m::<U%d, U%d>()" % (r, c)
    T = "Matrix::<f64, U%d, U%d>" % (r, c)
    probe(r == c, "identity", t, "let _ = %s::identity()" % T)
    probe(r == c, "one", t, "let _ = <%s as One>::one()" % T)
    probe(r == c, "transpose", t, "%s.transpose()" % M)
    probe(r == c, "pow", t, "let _ = %s.pow(2)" % M)
    if (r, c) != (0, 0):
        probe(r == c, "determinant", t, "let _ = %s.determinant()" % M)
        probe(r == c, "inverse", t, "let _ = %s.inverse()" % M)
        if (r, c) != (1, 1):
            probe(r == c, "cofactor", t, "let _ = %s.cofactor((0, 0))" % M)
    probe(True, "transposed", t, "let _: Matrix<f64, U%d, U%d> = %s.transposed()" % (c, r, M))
    if r != c:
        probe(False, "transposed", t, "let _: Matrix<f64, U%d, U%d> = %s.transposed()" % (r, c, M))
    for d in sorted({0, min(r, c), max(r, c), min(r, c) + 1}):
        probe(d == min(r, c), "diag", "%s from %d" % (t, d), "let _ = %s::diag([0.0; %d])" % (T, d))
    for a, b in sorted({(r, c), (c, r), (r + 1, c), (r, c + 1), (max(r - 1, 0), c), (r, max(c - 1, 0))}):
        # `[[x; b]; 0]` fits any b only when the type says so
        probe((a, b) == (r, c), "Matrix::new", "%s from %dx%d" % (t, a, b), "let _ = %s::new([[0.0; %d]; %d])" % (T, b, a))
        if a <= 32 and b <= 32:
            N = "m::<U%d, U%d>()" % (a, b)
            ok = (a, b) == (r, c)
            what = "%s and %dx%d" % (t, a, b)
            probe(ok, "relative_eq", what, "let _ = %s.relative_eq(&%s, 0.0, 0.0)" % (M, N))
            probe(ok, "ulps_eq", what, "let _ = %s.ulps_eq(&%s, 0.0, 4)" % (M, N))
            probe(ok, "==", what, "let _ = %s == %s" % (M, N))
            probe(ok, "+", what, "let _ = %s + %s" % (M, N))
            probe(ok, "-=", what, "let mut x = %s; x -= %s" % (M, N))
            probe(c == a, "*", what, "let _ = %s * %s" % (M, N))
            probe(c == a, "&*&", what, "let _ = &%s * &%s" % (M, N))
            if b == 1 or r != a:
                probe(c == a, "matrix * vector", "%s and %d" % (t, a), "let _ = %s * Vector::<f64, U%d>::default()" % (M, a))
for r in range(7):
    for c in range(1, 6):
        for l in sorted({r * c, r * c + 1, max(r * c - 1, 0), r + c} & set(L)):
            probe(l == r * c, "from flat", "%dx%d from %d" % (r, c, l), "let _: Matrix<i64, U%d, U%d> = v::<U%d>().into()" % (r, c, l))
V = [(n, i) for n in (0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32) for i in sorted({0, 1, n - 1, n, n + 1, 2 * n} - {-1})]
for n, i in V:
    probe(i < n, "index", "%d of %d" % (i, n), "let _ = v::<U%d>()[U%d::new()]" % (n, i))
    probe(i < n, "index_mut", "%d of %d" % (i, n), "v::<U%d>()[U%d::new()] = 0" % (n, i))
for r, c, i, j in [(r, c, i, j) for r in (0, 1, 2, 5, 32) for c in (0, 1, 3, 32) for i in sorted({0, r - 1, r} - {-1}) for j in sorted({0, c - 1, c, c + 1} - {-1})]:
    probe(i < r and j < c, "index", "(%d,%d) of %dx%d" % (i, j, r, c), "let _ = k::<U%d, U%d>()[(U%d::new(), U%d::new())]" % (r, c, i, j))
    probe(i < r and j < c, "index_mut", "(%d,%d) of %dx%d" % (i, j, r, c), "k::<U%d, U%d>()[(U%d::new(), U%d::new())] = 0" % (r, c, i, j))
os.makedirs(os.path.join(HERE, "probes"), exist_ok=True)
open(os.path.join(HERE, "probes/c22r.rs"), "w").write("".join(p))

# borrow probes (C01): which safe programs the borrow checker lets through
q = ["""//! Generated by gen_probes.py: not run, only type- and borrow-checked; each marked line must (not) be an error.
#![allow(unused)]
#[macro_use]
extern crate rowcol;
use rowcol::prelude::*;
use rowcol::vector::{IntoIter, Chunks};
use rowcol::matrix::iter::*;
use num::{One, Zero};
type V = Vector<String, U4>;
type M = Matrix<String, U2, U2>;
type N = Matrix<i64, U2, U2>;
type W = Vector<i64, U4>;
fn v() -> V { Vector::default() }
fn m() -> M { Matrix::default() }
fn n() -> N { Matrix::default() }
fn w() -> W { Vector::default() }
fn rr() -> Vector<Vector<String, U2>, U2> { Vector::default() }
fn main() {}
"""]
cnt = 0
def pr(want, group, body, ret=""):
    global cnt
    cnt += 1
    q.append("fn p%d()%s { %s } // %s\t%s\t%s\n" % (cnt, ret, body, want, group, body.replace("\t", " ")))
vshared = ["v.iter()", "v.as_slice()", "&v[1]", "&v[U1::new()]", "v.as_slice().iter()", "(*v).iter()", "v.as_ref()"]
vmut = ["v.iter_mut().next().unwrap().push('a')", "v.as_slice_mut()[0].push('a')", "v[0].push('a')", "v[U1::new()].push('a')", "v.clamp(String::new(), String::new())",
        "(*v)[1].push('a')", "v = Vector::default()", "std::mem::swap(&mut v, &mut Vector::default())"]
def keep(e): return "let a: &[String] = %s;" % e if e == "v.as_ref()" else "let a = %s;" % e
use = "let _b = (&a, 0);"
for e in vshared:
    for f in vmut:
        pr("REFUSE", "change while borrowed", "let mut v = v(); %s %s; %s" % (keep(e), f, use))
        pr("ACCEPT", "change after the borrow", "let mut v = v(); %s %s %s;" % (keep(e), use, f))
vme = ["v.iter_mut()", "v.as_slice_mut()", "&mut v[1]", "&mut v[U1::new()]", "&mut *v"]
for e in vme:
    for f in vshared:
        pr("REFUSE", "read while mutably borrowed", "let mut v = v(); let a = %s; { %s %s } let _c = a;" % (e, keep(f), use))
    for f in vme:
        pr("REFUSE", "borrowed mutably twice", "let mut v = v(); let a = %s; let b = %s; let _c = (a, b);" % (e, f))
mshared = ["m.rows_iter()", "m.cols_iter()", "m.rows_iter_ref()", "m.cols_iter_ref()", "m.rows_iter_ref().next()", "m.cols_iter_ref().next()", "m.cols_iter_ref().next().unwrap().next()",
           "m.rows_iter_ref().next_back()", "m.cols_iter_ref().next_back()", "&m[(0, 1)]", "&m[(U0::new(), U0::new())]", "&m[(U0::new(), U1::new())]", "&m[(U1::new(), U0::new())]", "&m[(U1::new(), U1::new())]"]
mmut = ["m[(0, 0)].push('a')", "m[(U0::new(), U0::new())].push('a')", "m[(U0::new(), U1::new())].push('a')", "m[(U1::new(), U0::new())].push('a')", "m[(U1::new(), U1::new())].push('a')",
        "m.transpose()", "m.clamp(String::new(), String::new())", "m = Matrix::default()"]
for e in mshared:
    for f in mmut:
        pr("REFUSE", "change while borrowed", "let mut m = m(); let a = %s; %s; %s" % (e, f, use))
    pr("ACCEPT", "change after the borrow", "let mut m = m(); let a = %s; %s m.transpose();" % (e, use))
    pr("ACCEPT", "read while borrowed", "let m = m(); let a = %s; let b = m.rows_iter_ref().count(); let c = &m[(0, 0)]; %s" % (e, use))
for f in mmut[:5]:
    e = "&mut " + f.rsplit(".push", 1)[0]
    for g in mmut[:5]:
        pr("REFUSE", "borrowed mutably twice", "let mut m = m(); let a = %s; %s; %s" % (e, g, use))
for e in ["m *= n()", "m += n()", "m -= n()", "m *= 2", "m /= 2", "m = -m"]:
    pr("REFUSE", "change while borrowed", "let mut m = n(); let a = m.rows_iter_ref(); %s; %s" % (e, use))
for e in ["v *= 2", "v /= 2", "v += w()", "v -= w()"]:
    pr("REFUSE", "change while borrowed", "let mut v = w(); let a = v.iter(); %s; %s" % (e, use))
# consuming
vc = ["v.into_iter()", "v.into_inner()", "v.into_chunks::<U2>()", "Matrix::<String, U2, U2>::from(v)", "Some(v).into_iter().collect::<Vector<V, U1>>()"]
for e in vc:
    pr("REFUSE", "use after it was moved", "let v = v(); let a = %s; let b = v.len();" % e)
    pr("REFUSE", "use after it was moved", "let v = v(); let a = %s; let b = v.into_inner();" % e)
    pr("REFUSE", "moved while borrowed", "let v = v(); let r = v.iter(); let a = %s; let b = r.count();" % e)
for e in ["v.into_iter()", "v.into_inner()", "v.into_chunks::<U2>()", "-v", "v + w()", "v - w()", "v * 2", "v / 2"]:
    pr("ACCEPT", "a copy may be used after it was moved", "let v = w(); let a = %s; let b = v.len();" % e)
for e in ["m.map(|_, x| x)", "m.map(|_, x| x.len())", "Vector::<M, U1>::new([m])"]:
    pr("REFUSE", "use after it was moved", "let m = m(); let a = %s; let b = m.rows();" % e)
    pr("REFUSE", "moved while borrowed", "let m = m(); let r = m.rows_iter_ref(); let a = %s; let b = r.count();" % e)
    pr("REFUSE", "moved while borrowed", "let m = m(); let r = m.cols_iter_ref().next().unwrap(); let a = %s; let b = r.count();" % e)
for e in ["c.count()", "c.rev()", "c.last()", "c.map(|x| x)", "c.collect::<Vec<_>>()"]:
    pr("REFUSE", "use after it was moved", "let c = v().into_iter(); let a = %s; let b = c.len();" % e)
    pr("REFUSE", "use after it was moved", "let c = v().into_chunks::<U2>(); let a = %s; let b = c.len();" % e)
    pr("REFUSE", "use after it was moved", "let m = m(); let c = m.cols_iter_ref(); let a = %s; let b = c.len();" % e)
    pr("REFUSE", "use after it was moved", "let m = m(); let c = m.rows_iter(); let a = %s; let b = c.len();" % e)
for e in ["v().into_iter().clone()", "v().into_chunks::<U2>().clone()"]:
    pass
# results that outlive what they were taken from
for e in ["v.iter()", "v.as_slice()", "&v[0]", "&v[U0::new()]", "&*v"]:
    pr("REFUSE", "outlives the value", "let a; { let v = v(); a = %s; } %s" % (e, use))
    pr("ACCEPT", "lives as long as the value", "let v = v(); let a; { a = %s; } %s" % (e, use))
for e in ["v.iter_mut()", "v.as_slice_mut()", "&mut v[0]", "&mut v[U0::new()]"]:
    pr("REFUSE", "outlives the value", "let a; { let mut v = v(); a = %s; } let _b = a;" % e)
for e in mshared:
    pr("REFUSE", "outlives the value", "let a; { let m = m(); a = %s; } %s" % (e, use))
    pr("ACCEPT", "lives as long as the value", "let m = m(); let a; { a = %s; } %s" % (e, use))
for e in ["c.next()", "c.next_back()", "c.nth(1)", "c.last()"]:
    for it in ["m.rows_iter_ref()", "m.cols_iter_ref()", "m.cols_iter_ref().next().unwrap()"]:
        pr("ACCEPT", "items outlive the iterator", "let m = m(); let a; { let mut c = %s; a = %s; } %s" % (it, e, use))
        pr("REFUSE", "items outlive the value", "let a; { let m = m(); let mut c = %s; a = %s; } %s" % (it, e, use))
    for it in ["m.rows_iter()", "m.cols_iter()"]:
        pr("ACCEPT", "items by value outlive the matrix", "let a; { let m = m(); let mut c = %s; a = %s; } %s" % (it, e, use))
    for it in ["v().into_iter()", "v().into_chunks::<U2>()"]:
        pr("ACCEPT", "items by value outlive the iterator", "let a; { let mut c = %s; a = %s; } %s" % (it, e, use))
# iterators made by their constructors, from nested vectors
for e in ["RowsIter::new(&r)", "ColsIter::new(&r)", "RowsIterRef::new(&r)", "ColsIterRef::new(&r)", "ColsIterRefInner::new(&r, 1)", "RowsIterRef::new(&r).next()", "ColsIterRef::new(&r).next()",
          "ColsIterRefInner::new(&r, 1).next()", "ColsIterRefInner::new(&r, 1).next_back()", "ColsIterRef::new(&r).next_back().unwrap().next()", "RowsIterRef::new(&r).last()", "ColsIterRefInner::new(&r, 0).nth(1)"]:
    pr("REFUSE", "outlives the value", "let a; { let r = rr(); a = %s; } %s" % (e, use))
    pr("ACCEPT", "lives as long as the value", "let r = rr(); let a; { a = %s; } %s" % (e, use))
    pr("REFUSE", "moved while borrowed", "let r = rr(); let a = %s; drop(r); %s" % (e, use))
    pr("REFUSE", "change while borrowed", "let mut r = rr(); let a = %s; r[0][1].push('a'); %s" % (e, use))
    pr("ACCEPT", "change after the borrow", "let mut r = rr(); let a = %s; %s r[0][1].push('a');" % (e, use))
# results claimed to live for ever
for e, t in [("v.as_slice()", "[String]"), ("&v[0]", "String"), ("&v[U1::new()]", "String"), ("v.iter().next().unwrap()", "String"), ("&**v", "[String]"), ("v.as_ref()", "[String]")]:
    pr("REFUSE", "outlives the value", "fn f(v: &V) -> &'static %s { %s }" % (t, e))
    pr("ACCEPT", "lives as long as the value", "fn f(v: &V) -> &%s { %s }" % (t, e))
for e, t in [("m.rows_iter_ref().next().unwrap()", "[String]"), ("m.cols_iter_ref().next().unwrap().next().unwrap()", "String"), ("m.cols_iter_ref().next_back().unwrap().next_back().unwrap()", "String"), ("&m[(0, 1)]", "String"),
             ("&m[(U0::new(), U0::new())]", "String"), ("&m[(U0::new(), U1::new())]", "String"), ("&m[(U1::new(), U0::new())]", "String"), ("&m[(U1::new(), U1::new())]", "String"), ("unsafe { m.get_unchecked((0, 0)) }", "String")]:
    pr("REFUSE", "outlives the value", "fn f(m: &M) -> &'static %s { %s }" % (t, e))
    pr("ACCEPT", "lives as long as the value", "fn f(m: &M) -> &%s { %s }" % (t, e))
# elements that borrow
for e in ["vector![&x]", "Vector::<&String, U1>::generate(|_| &x)", "Some(&x).into_iter().collect::<Vector<&String, U1>>()", "vector![&x].clone()", "vector![&x].into_iter()", "vector![&x].into_iter().next()",
          "vector![&x].into_inner()", "vector![&x, &x].into_chunks::<U1>().next()", "matrix![[&x]].transposed()", "matrix![[0]].map(|_, _| &x)", "matrix![[&x]].map(|_, y| y)", "Matrix::<&String, U1, U1>::from(vector![&x])",
          "Matrix::<&String, U1, U1>::generate(|_| &x)", "matrix![[&x]].rows_iter().next()", "matrix![[&x]].cols_iter().next()", "*vector![&x].iter().next().unwrap()", "vector![&x].max()", "vector![&x].clamped(&x, &x)",
          "matrix![[&x]].max()", "matrix![[&x]].clamped(&x, &x)", "vector![1].into_iter().map(|_| &x).collect::<Vector<_, U1>>()", "vector![&x][0]", "matrix![[&x]][(0, 0)]"]:
    pr("REFUSE", "elements outlive what they borrow", "let a; { let x = String::new(); a = %s; } %s" % (e, use))
    pr("ACCEPT", "elements live as long as what they borrow", "let x = String::new(); let a; { a = %s; } %s" % (e, use))
# unsafe functions
for e in ["v().get_unchecked(0).len()", "v().get_unchecked_mut(0).len()", "m().get_unchecked((0, 0)).len()", "m().get_unchecked_mut((0, 0)).len()"]:
    pr("REFUSE", "unchecked access outside unsafe", "let a = %s;" % e)
    pr("ACCEPT", "unchecked access inside unsafe", "let a = unsafe { %s };" % e)
open(os.path.join(HERE, "probes/c01r.rs"), "w").write("".join(q))
