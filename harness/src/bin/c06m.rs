//! Generated by gen_shapes.py: the literal macros at every size. `$n()` supplies the next element.
#![allow(clippy::all)]
#[macro_use] extern crate rowcol;
use rcmon::*;
use rowcol::prelude::*;
use std::cell::Cell;

fn vcase<N: rowcol::vector::ArrayLen<u64>>(c: &mut Case, n: usize, calls: u64, v: Vector<u64, N>) {
    c.eq("macro length", &v.len(), &n);
    c.eq("evaluations of the element expressions", &calls, &(n as u64));
    c.eq("vector! elements", &v.as_slice().to_vec(), &(0..n as u64).collect::<Vec<u64>>());
    c.unit(n as u64, true);
    c.sample(|| format!("vector! with {n} expressions"));
}
fn mcase<R, C>(c: &mut Case, r: usize, cc: usize, calls: u64, m: Matrix<u64, R, C>) where R: rowcol::vector::ArrayLen<Vector<u64, C>>, C: rowcol::vector::ArrayLen<u64> {
    c.eq("macro shape", &m.dim(), &(r, cc));
    c.eq("evaluations of the element expressions", &calls, &((r * cc) as u64));
    let got: Vec<Vec<u64>> = m.rows_iter_ref().map(|s| s.to_vec()).collect();
    let want: Vec<Vec<u64>> = (0..r).map(|i| (0..cc).map(|j| (i * cc + j) as u64).collect()).collect();
    c.eq("matrix! elements", &got, &want);
    c.unit(1000 + (r * 100 + cc) as u64, true);
}

fn main() {
    let mut mon = Mon::new("C06");
    mon.case("vector!/0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U0> = vector![];
        vcase(c, 0, k.get(), v);
    });
    mon.case("vector!/1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U1> = vector![e()];
        vcase(c, 1, k.get(), v);
    });
    mon.case("vector!/2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U2> = vector![e(), e()];
        vcase(c, 2, k.get(), v);
    });
    mon.case("vector!/3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U3> = vector![e(), e(), e()];
        vcase(c, 3, k.get(), v);
    });
    mon.case("vector!/4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U4> = vector![e(), e(), e(), e()];
        vcase(c, 4, k.get(), v);
    });
    mon.case("vector!/5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U5> = vector![e(), e(), e(), e(), e()];
        vcase(c, 5, k.get(), v);
    });
    mon.case("vector!/6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U6> = vector![e(), e(), e(), e(), e(), e()];
        vcase(c, 6, k.get(), v);
    });
    mon.case("vector!/7", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U7> = vector![e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 7, k.get(), v);
    });
    mon.case("vector!/8", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U8> = vector![e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 8, k.get(), v);
    });
    mon.case("vector!/9", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U9> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 9, k.get(), v);
    });
    mon.case("vector!/10", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U10> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 10, k.get(), v);
    });
    mon.case("vector!/11", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U11> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 11, k.get(), v);
    });
    mon.case("vector!/12", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U12> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 12, k.get(), v);
    });
    mon.case("vector!/13", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U13> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 13, k.get(), v);
    });
    mon.case("vector!/14", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U14> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 14, k.get(), v);
    });
    mon.case("vector!/15", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U15> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 15, k.get(), v);
    });
    mon.case("vector!/16", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U16> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 16, k.get(), v);
    });
    mon.case("vector!/17", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U17> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 17, k.get(), v);
    });
    mon.case("vector!/18", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U18> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 18, k.get(), v);
    });
    mon.case("vector!/19", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U19> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 19, k.get(), v);
    });
    mon.case("vector!/20", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U20> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 20, k.get(), v);
    });
    mon.case("vector!/21", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U21> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 21, k.get(), v);
    });
    mon.case("vector!/22", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U22> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 22, k.get(), v);
    });
    mon.case("vector!/23", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U23> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 23, k.get(), v);
    });
    mon.case("vector!/24", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U24> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 24, k.get(), v);
    });
    mon.case("vector!/25", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U25> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 25, k.get(), v);
    });
    mon.case("vector!/26", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U26> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 26, k.get(), v);
    });
    mon.case("vector!/27", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U27> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 27, k.get(), v);
    });
    mon.case("vector!/28", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U28> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 28, k.get(), v);
    });
    mon.case("vector!/29", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U29> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 29, k.get(), v);
    });
    mon.case("vector!/30", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U30> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 30, k.get(), v);
    });
    mon.case("vector!/31", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U31> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 31, k.get(), v);
    });
    mon.case("vector!/32", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let v: Vector<u64, U32> = vector![e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()];
        vcase(c, 32, k.get(), v);
    });
    mon.case("matrix!/0x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U0, U0> = matrix![];
        mcase(c, 0, 0, k.get(), m);
    });
    mon.case("matrix!/1x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U0> = matrix![[]];
        mcase(c, 1, 0, k.get(), m);
    });
    mon.case("matrix!/1x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U1> = matrix![[e()]];
        mcase(c, 1, 1, k.get(), m);
    });
    mon.case("matrix!/1x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U2> = matrix![[e(), e()]];
        mcase(c, 1, 2, k.get(), m);
    });
    mon.case("matrix!/1x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U3> = matrix![[e(), e(), e()]];
        mcase(c, 1, 3, k.get(), m);
    });
    mon.case("matrix!/1x4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U4> = matrix![[e(), e(), e(), e()]];
        mcase(c, 1, 4, k.get(), m);
    });
    mon.case("matrix!/1x5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U5> = matrix![[e(), e(), e(), e(), e()]];
        mcase(c, 1, 5, k.get(), m);
    });
    mon.case("matrix!/1x6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U6> = matrix![[e(), e(), e(), e(), e(), e()]];
        mcase(c, 1, 6, k.get(), m);
    });
    mon.case("matrix!/2x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U0> = matrix![[], []];
        mcase(c, 2, 0, k.get(), m);
    });
    mon.case("matrix!/2x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U1> = matrix![[e()], [e()]];
        mcase(c, 2, 1, k.get(), m);
    });
    mon.case("matrix!/2x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U2> = matrix![[e(), e()], [e(), e()]];
        mcase(c, 2, 2, k.get(), m);
    });
    mon.case("matrix!/2x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U3> = matrix![[e(), e(), e()], [e(), e(), e()]];
        mcase(c, 2, 3, k.get(), m);
    });
    mon.case("matrix!/2x4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U4> = matrix![[e(), e(), e(), e()], [e(), e(), e(), e()]];
        mcase(c, 2, 4, k.get(), m);
    });
    mon.case("matrix!/2x5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U5> = matrix![[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]];
        mcase(c, 2, 5, k.get(), m);
    });
    mon.case("matrix!/2x6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U6> = matrix![[e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()]];
        mcase(c, 2, 6, k.get(), m);
    });
    mon.case("matrix!/3x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U0> = matrix![[], [], []];
        mcase(c, 3, 0, k.get(), m);
    });
    mon.case("matrix!/3x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U1> = matrix![[e()], [e()], [e()]];
        mcase(c, 3, 1, k.get(), m);
    });
    mon.case("matrix!/3x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U2> = matrix![[e(), e()], [e(), e()], [e(), e()]];
        mcase(c, 3, 2, k.get(), m);
    });
    mon.case("matrix!/3x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U3> = matrix![[e(), e(), e()], [e(), e(), e()], [e(), e(), e()]];
        mcase(c, 3, 3, k.get(), m);
    });
    mon.case("matrix!/3x4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U4> = matrix![[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]];
        mcase(c, 3, 4, k.get(), m);
    });
    mon.case("matrix!/3x5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U5> = matrix![[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]];
        mcase(c, 3, 5, k.get(), m);
    });
    mon.case("matrix!/3x6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U6> = matrix![[e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()]];
        mcase(c, 3, 6, k.get(), m);
    });
    mon.case("matrix!/4x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U0> = matrix![[], [], [], []];
        mcase(c, 4, 0, k.get(), m);
    });
    mon.case("matrix!/4x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U1> = matrix![[e()], [e()], [e()], [e()]];
        mcase(c, 4, 1, k.get(), m);
    });
    mon.case("matrix!/4x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U2> = matrix![[e(), e()], [e(), e()], [e(), e()], [e(), e()]];
        mcase(c, 4, 2, k.get(), m);
    });
    mon.case("matrix!/4x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U3> = matrix![[e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()]];
        mcase(c, 4, 3, k.get(), m);
    });
    mon.case("matrix!/4x4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U4> = matrix![[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]];
        mcase(c, 4, 4, k.get(), m);
    });
    mon.case("matrix!/4x5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U5> = matrix![[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]];
        mcase(c, 4, 5, k.get(), m);
    });
    mon.case("matrix!/4x6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U4, U6> = matrix![[e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()]];
        mcase(c, 4, 6, k.get(), m);
    });
    mon.case("matrix!/5x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U0> = matrix![[], [], [], [], []];
        mcase(c, 5, 0, k.get(), m);
    });
    mon.case("matrix!/5x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U1> = matrix![[e()], [e()], [e()], [e()], [e()]];
        mcase(c, 5, 1, k.get(), m);
    });
    mon.case("matrix!/5x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U2> = matrix![[e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()]];
        mcase(c, 5, 2, k.get(), m);
    });
    mon.case("matrix!/5x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U3> = matrix![[e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()]];
        mcase(c, 5, 3, k.get(), m);
    });
    mon.case("matrix!/5x4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U4> = matrix![[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]];
        mcase(c, 5, 4, k.get(), m);
    });
    mon.case("matrix!/5x5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U5> = matrix![[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]];
        mcase(c, 5, 5, k.get(), m);
    });
    mon.case("matrix!/5x6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U5, U6> = matrix![[e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()]];
        mcase(c, 5, 6, k.get(), m);
    });
    mon.case("matrix!/6x0", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U0> = matrix![[], [], [], [], [], []];
        mcase(c, 6, 0, k.get(), m);
    });
    mon.case("matrix!/6x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U1> = matrix![[e()], [e()], [e()], [e()], [e()], [e()]];
        mcase(c, 6, 1, k.get(), m);
    });
    mon.case("matrix!/6x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U2> = matrix![[e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()]];
        mcase(c, 6, 2, k.get(), m);
    });
    mon.case("matrix!/6x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U3> = matrix![[e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()]];
        mcase(c, 6, 3, k.get(), m);
    });
    mon.case("matrix!/6x4", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U4> = matrix![[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]];
        mcase(c, 6, 4, k.get(), m);
    });
    mon.case("matrix!/6x5", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U5> = matrix![[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]];
        mcase(c, 6, 5, k.get(), m);
    });
    mon.case("matrix!/6x6", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U6, U6> = matrix![[e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e()]];
        mcase(c, 6, 6, k.get(), m);
    });
    mon.case("matrix!/1x32", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U1, U32> = matrix![[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 1, 32, k.get(), m);
    });
    mon.case("matrix!/32x1", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U32, U1> = matrix![[e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()]];
        mcase(c, 32, 1, k.get(), m);
    });
    mon.case("matrix!/8x8", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U8, U8> = matrix![[e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 8, 8, k.get(), m);
    });
    mon.case("matrix!/7x9", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U7, U9> = matrix![[e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 7, 9, k.get(), m);
    });
    mon.case("matrix!/9x7", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U9, U7> = matrix![[e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 9, 7, k.get(), m);
    });
    mon.case("matrix!/16x2", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U16, U2> = matrix![[e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()]];
        mcase(c, 16, 2, k.get(), m);
    });
    mon.case("matrix!/2x16", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U2, U16> = matrix![[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 2, 16, k.get(), m);
    });
    mon.case("matrix!/32x3", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U32, U3> = matrix![[e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()]];
        mcase(c, 32, 3, k.get(), m);
    });
    mon.case("matrix!/3x32", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U3, U32> = matrix![[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 3, 32, k.get(), m);
    });
    mon.case("matrix!/12x12", |c| {
        let k = Cell::new(0u64);
        let e = || { k.set(k.get() + 1); k.get() - 1 };
        let _ = &e;
        let m: Matrix<u64, U12, U12> = matrix![[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]];
        mcase(c, 12, 12, k.get(), m);
    });
    // expressions of every kind, inferred lengths
    mon.case("kinds", |c| {
        let b = true;
        let v = vector![1 + 2 * 3, if b { 4 } else { 5 }, { let x = 8; x }, [1, 2][1], match 3 { 3 => 9, _ => 0 }, -(1), 7 as i32];
        c.eq("vector of expressions", &v.as_slice().to_vec(), &vec![7, 4, 8, 2, 9, -1, 7]);
        let m = matrix![[1 + 1, b as i32], ["abc".len() as i32, { 5 }]];
        c.eq("matrix of expressions", &(m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]), &(2, 1, 3, 5));
        let n = vector![vector![1, 2], vector![3, 4], vector![5, 6]];
        c.eq("nested vector!", &(n.len(), n[0].len(), n[2][1]), &(3, 2, 6));
        let s = vector![String::from("a"), String::from("b")];
        c.eq("owned elements", &s.as_slice().to_vec(), &vec!["a".to_string(), "b".to_string()]);
        c.unit(9999, true);
    });
    mon.finish();
}
