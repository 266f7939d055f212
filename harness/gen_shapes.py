o=["//! Generated lists of lengths and shapes (see gen_shapes.py).\n"]
def mac(name, rows, narrow=None):
    if narrow is not None:
        emit(name, rows, '#[cfg(not(feature = "narrow"))]\n')
        emit(name, narrow, '#[cfg(feature = "narrow")]\n')
    else:
        emit(name, rows, "")
def emit(name, rows, cfg):
    o.append(cfg+"#[macro_export]\nmacro_rules! %s {\n    ($m:ident $($x:tt)*) => {\n"%name)
    for r in rows: o.append("        $m!($($x)* %s);\n"%r)
    o.append("    };\n}\n")
L=range(33)
def ln(l): return ["U%d, %d"%(n,n) for n in l]
def sh(l): return ["U%d, U%d, %d, %d"%(r,c,r,c) for r,c in l]
NL=[0,1,2,3,4,7,8,17,32]
NS=[(0,0),(0,2),(2,0),(1,1),(1,3),(3,1),(2,3),(3,2),(3,3),(4,4),(8,5),(1,32),(32,32)]
mac("for_lens",ln(L),ln(NL))
mac("for_lens_small",["U%d, %d"%(n,n) for n in [0,1,2,3,4,5,8]])
mac("for_lens_mid",["U%d, %d"%(n,n) for n in [0,1,2,3,4,5,6,7,8,9,11,16,17,24,31,32]],ln([0,1,3,4,8,32]))
mac("for_lens_pos",["U%d, %d"%(n,n) for n in L if n],ln(NL[1:]))
mac("for_chunks",["U%d, U%d, %d, %d"%(n,i,n,i) for n in L for i in range(1,33) if n%i==0 and (n or i in(1,2,3,5,32))],["U%d, U%d, %d, %d"%(n,i,n,i) for n,i in [(0,1),(0,3),(1,1),(4,1),(4,2),(6,2),(6,3),(7,7),(8,4),(12,3),(32,8),(30,5),(32,32)]])
small=[(r,c) for r in range(0,6) for c in range(0,6)]
big=[(1,8),(8,1),(6,6),(7,7),(8,8),(9,9),(4,8),(8,5),(5,8),(6,7),(7,6),(10,10),(12,12),(16,16),(17,17),(16,9),(9,16),(5,17),(17,5),(1,32),(32,1),(2,32),(32,2),(0,32),(32,0),(31,32),(32,31),(32,32),(3,20),(20,3),(24,24),(15,15),(13,11),(11,13)]
# every row count and every column count occurs in for_shapes
mr=[n for n in range(33) if n not in {r for r,c in small+big}]
mc=[n for n in range(33) if n not in {c for r,c in small+big}]
big+=[(r,mc[(k*5+3)%len(mc)]) for k,r in enumerate(mr)]
assert {r for r,c in small+big}==set(range(33))=={c for r,c in small+big}
mac("for_shapes",["U%d, U%d, %d, %d"%(r,c,r,c) for r,c in small+big],sh(NS))
mac("for_shapes_small",["U%d, U%d, %d, %d"%(r,c,r,c) for r,c in [(0,0),(0,2),(2,0),(1,1),(1,3),(3,1),(2,2),(2,3),(3,2),(3,3),(4,4),(4,2),(5,5)]],sh([(0,2),(2,0),(2,2),(3,2)]))
mac("for_shapes_mid",["U%d, U%d, %d, %d"%(r,c,r,c) for r,c in [(0,0),(0,2),(2,0),(0,5),(5,0),(1,1),(1,2),(2,1),(1,3),(3,1),(2,2),(2,3),(3,2),(3,3),(3,4),(4,3),(4,4),(4,2),(5,5),(5,3),(3,5),(6,6),(7,7),(8,8),(8,5),(5,8),(1,32),(32,1),(16,16),(17,5),(5,17),(32,32),(9,9),(31,32),(12,7),(7,12)]],sh(NS))
sq=[0,1,2,3,4,5,6,7,8,9,10,12,15,16,17,24,31,32]
NQ=[0,1,2,3,4,5,8,32]
mac("for_squares",["U%d, %d"%(n,n) for n in sq],ln(NQ))
mac("for_squares_pos",["U%d, %d"%(n,n) for n in sq if n],ln(NQ[1:]))
mac("for_squares_all",["U%d, %d"%(n,n) for n in range(1,33)],ln(NQ[1:]))
mac("for_squares_big",["U%d, %d"%(n,n) for n in range(9,33)],ln([9,17,32]))
mac("for_squares_small",["U%d, %d"%(n,n) for n in [0,1,2,3,4,5]],ln([0,2,3,5]))
tr=[(a,b,c) for a in range(0,4) for b in range(0,4) for c in range(0,4)]+[(4,4,4),(5,5,5),(4,5,6),(6,5,4),(8,8,8),(1,32,1),(32,1,32),(16,17,5),(5,17,16),(7,3,9),(9,3,7),(2,16,2),(12,12,12),(16,16,16),(32,32,32),(1,8,8),(8,8,1),(8,1,8),(31,32,31),(4,1,4),(1,4,4),(4,4,1),(10,10,10),(17,17,17),(24,3,24),(3,24,3)]
# every row, inner and column count occurs
tr+=[(2,k,3) for k in range(33) if k not in {b for a,b,c in tr}]
tr+=[(k,3,2) for k in range(33) if k not in {a for a,b,c in tr}]
tr+=[(2,2,k) for k in range(33) if k not in {c for a,b,c in tr}]
mac("for_triples",["U%d, U%d, U%d, %d, %d, %d"%(a,b,c,a,b,c) for a,b,c in tr],["U%d, U%d, U%d, %d, %d, %d"%(a,b,c,a,b,c) for a,b,c in [(0,0,0),(1,1,1),(2,2,2),(3,3,3),(4,4,4),(2,3,4),(4,3,2),(3,0,2),(0,3,2),(1,4,1),(4,1,4),(5,5,5),(16,17,5),(8,8,8)]])
mac("for_triples_small",["U%d, U%d, U%d, %d, %d, %d"%(a,b,c,a,b,c) for a,b,c in [(0,0,0),(1,1,1),(2,2,2),(2,3,4),(4,3,2),(3,0,2),(0,3,2),(1,4,1),(4,1,4),(5,5,5)]])
fl=[(r,c) for c in range(1,33) for r in range(0,33) if r*c<=32 and (r or c in(1,2,5,32))]
mac("for_flat",["U%d, U%d, U%d, %d, %d"%(r,c,r*c,r,c) for r,c in fl],["U%d, U%d, U%d, %d, %d"%(r,c,r*c,r,c) for r,c in fl if (r,c) in [(0,1),(1,1),(2,3),(3,2),(4,8),(8,4),(1,32),(32,1),(5,6)]])

# type-level indices: all and only-inside lists
def idx(name, rows): 
    o.append("#[macro_export]\nmacro_rules! %s {\n    ($m:ident $($x:tt)*) => {\n"%name)
    for r in rows: o.append("        $m!($($x)* %s);\n"%r)
    o.append("    };\n}\n")
V=[(n,i) for n in range(33) for i in range(34)]
idx("for_index",["U%d, U%d, %d, %d"%(n,i,n,i) for n,i in V])
idx("for_index_in",["U%d, U%d, %d, %d"%(n,i,n,i) for n,i in V if i<n])
M2=[(r,c,i,j) for r in range(4) for c in range(4) for i in range(5) for j in range(5)]
for r,c in [(4,4),(5,3),(3,5),(8,7),(1,32),(32,1),(16,17),(32,32),(0,5),(5,0),(9,2)]:
    for i in sorted({0,1,2,r//2,max(r-1,0),r,r+1}):
        for j in sorted({0,1,3,c//2,max(c-1,0),c,c+1}):
            M2.append((r,c,i,j))
idx("for_index2",["U%d, U%d, U%d, U%d, %d, %d, %d, %d"%(q+q) for q in M2])
idx("for_index2_in",["U%d, U%d, U%d, U%d, %d, %d, %d, %d"%(q+q) for q in M2 if q[2]<q[0] and q[3]<q[1]])
o[0]+="#![allow(clippy::all)]\n"
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'src/shapes.rs'),'w').write("".join(o))

import os
out=["//! Generated by gen_shapes.py: the literal macros at every size. `$n()` supplies the next element.\n#![allow(clippy::all)]\n#[macro_use] extern crate rowcol;\nuse rcmon::*;\nuse rowcol::prelude::*;\nuse std::cell::Cell;\n\n"]
out.append("fn vcase<N: rowcol::vector::ArrayLen<u64>>(c: &mut Case, n: usize, calls: u64, v: Vector<u64, N>) {\n    c.eq(\"macro length\", &v.len(), &n);\n    c.eq(\"evaluations of the element expressions\", &calls, &(n as u64));\n    c.eq(\"vector! elements\", &v.as_slice().to_vec(), &(0..n as u64).collect::<Vec<u64>>());\n    c.unit(n as u64, true);\n    c.sample(|| format!(\"vector! with {n} expressions\"));\n}\n")
out.append("fn mcase<R, C>(c: &mut Case, r: usize, cc: usize, calls: u64, m: Matrix<u64, R, C>) where R: rowcol::vector::ArrayLen<Vector<u64, C>>, C: rowcol::vector::ArrayLen<u64> {\n    c.eq(\"macro shape\", &m.dim(), &(r, cc));\n    c.eq(\"evaluations of the element expressions\", &calls, &((r * cc) as u64));\n    let got: Vec<Vec<u64>> = m.rows_iter_ref().map(|s| s.to_vec()).collect();\n    let want: Vec<Vec<u64>> = (0..r).map(|i| (0..cc).map(|j| (i * cc + j) as u64).collect()).collect();\n    c.eq(\"matrix! elements\", &got, &want);\n    c.unit(1000 + (r * 100 + cc) as u64, true);\n}\n\n")
out.append("fn main() {\n    let mut mon = Mon::new(\"C06\");\n")
for n in range(33):
    out.append('    mon.case("vector!/%d", |c| {\n        let k = Cell::new(0u64);\n        let e = || { k.set(k.get() + 1); k.get() - 1 };\n        let _ = &e;\n        let v: Vector<u64, U%d> = vector![%s];\n        vcase(c, %d, k.get(), v);\n    });\n'%(n,n,", ".join(["e()"]*n),n))
ms=[(r,c) for r in range(0,7) for c in range(0,7) if r or not c]+[(1,32),(32,1),(8,8),(7,9),(9,7),(16,2),(2,16),(32,3),(3,32),(12,12)]
for r,c in ms:
    out.append('    mon.case("matrix!/%dx%d", |c| {\n        let k = Cell::new(0u64);\n        let e = || { k.set(k.get() + 1); k.get() - 1 };\n        let _ = &e;\n        let m: Matrix<u64, U%d, U%d> = matrix![%s];\n        mcase(c, %d, %d, k.get(), m);\n    });\n'%(r,c,r,c,", ".join("["+", ".join(["e()"]*c)+"]" for _ in range(r)),r,c))
out.append("    // expressions of every kind, inferred lengths\n    mon.case(\"kinds\", |c| {\n        let b = true;\n        let v = vector![1 + 2 * 3, if b { 4 } else { 5 }, { let x = 8; x }, [1, 2][1], match 3 { 3 => 9, _ => 0 }, -(1), 7 as i32];\n        c.eq(\"vector of expressions\", &v.as_slice().to_vec(), &vec![7, 4, 8, 2, 9, -1, 7]);\n        let m = matrix![[1 + 1, b as i32], [\"abc\".len() as i32, { 5 }]];\n        c.eq(\"matrix of expressions\", &(m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]), &(2, 1, 3, 5));\n        let n = vector![vector![1, 2], vector![3, 4], vector![5, 6]];\n        c.eq(\"nested vector!\", &(n.len(), n[0].len(), n[2][1]), &(3, 2, 6));\n        let s = vector![String::from(\"a\"), String::from(\"b\")];\n        c.eq(\"owned elements\", &s.as_slice().to_vec(), &vec![\"a\".to_string(), \"b\".to_string()]);\n        c.unit(9999, true);\n    });\n    mon.finish();\n}\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'src/bin/c06m.rs'),'w').write("".join(out))
