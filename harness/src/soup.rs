//! Type-erased pools: one `Subject` is an element type, a shape and the ops available for them.
use crate::catalog::{Env, Filled, Op};

pub trait Subject {
    fn name(&self) -> &str;
    /// Large shapes get fewer runs.
    fn big(&self) -> bool { self.name().starts_with("big ") }
    fn ops(&self) -> usize;
    fn op(&self, i: usize) -> (&'static str, u8);
    fn fill(&mut self, e: &mut Env);
    fn inspect(&self, e: &mut Env);
    fn run(&mut self, i: usize, e: &mut Env);
    /// Drops the pool's values.
    fn clear(&mut self);
}
pub struct Sub<P> {
    name: String,
    pub pool: P,
    ops: Vec<Op<P>>,
    mk: fn() -> P,
}
impl<P: Filled + 'static> Sub<P> {
    pub fn boxed(name: &str, mk: fn() -> P, ops: Vec<Vec<Op<P>>>) -> Box<dyn Subject> {
        Box::new(Sub { name: name.to_string(), pool: mk(), ops: ops.into_iter().flatten().collect(), mk })
    }
}
impl<P: Filled> Subject for Sub<P> {
    fn name(&self) -> &str {
        &self.name
    }
    fn ops(&self) -> usize {
        self.ops.len()
    }
    fn op(&self, i: usize) -> (&'static str, u8) {
        (self.ops[i].0, self.ops[i].1)
    }
    fn fill(&mut self, e: &mut Env) {
        self.pool.fill(e)
    }
    fn inspect(&self, e: &mut Env) {
        self.pool.inspect(e)
    }
    fn run(&mut self, i: usize, e: &mut Env) {
        (self.ops[i].2)(&mut self.pool, e)
    }
    fn clear(&mut self) {
        self.pool = (self.mk)();
    }
}

/// `subject!("name", f64, U2, U3; vec mat def)`: the pool of that type and shape with those op lists.
#[macro_export]
macro_rules! subject {
    ($name:expr, $t:ty, $r:ident, $c:ident; $($l:ident)*) => {
        $crate::soup::Sub::boxed(&format!("{}/{}x{}", $name, stringify!($r), stringify!($c)), $crate::catalog::Pool::<$t, $r, $c>::empty,
            vec![$( $crate::op_list!($l, $t, $r, $c) ),*])
    };
}
#[macro_export]
macro_rules! op_list {
    (vec, $t:ty, $r:ident, $c:ident) => { $crate::catalog::vector_ops::<$t, $r, $c>() };
    (mat, $t:ty, $r:ident, $c:ident) => { $crate::catalog::matrix_ops::<$t, $r, $c>() };
    (sq, $t:ty, $r:ident, $c:ident) => { $crate::catalog::square_ops::<$t, $r>() };
    (def, $t:ty, $r:ident, $c:ident) => { $crate::catalog::default_ops::<$t, $r, $c>() };
    (ar, $t:ty, $r:ident, $c:ident) => { $crate::catalog::arith_ops::<$t, $r, $c>() };
    (div, $t:ty, $r:ident, $c:ident) => { $crate::catalog::div_ops::<$t, $r, $c>() };
    (sqar, $t:ty, $r:ident, $c:ident) => { $crate::catalog::square_arith_ops::<$t, $r>() };
    (clamp, $t:ty, $r:ident, $c:ident) => { $crate::catalog::clamp_ops::<$t, $r, $c>() };
    (ext, $t:ty, $r:ident, $c:ident) => { $crate::catalog::extrema_ops::<$t, _, _>() };
    (lin, $t:ty, $r:ident, $c:ident) => { $crate::catalog::linear_ops::<$t, $r>() };
    (biglin, $t:ty, $r:ident, $c:ident) => { $crate::catalog::big_linear_ops::<$t, $r>() };
    (cof, $t:ty, $r:ident, $c:ident) => { $crate::catalog::cofactor_ops::<$t, $r>() };
    (cross, $t:ty, $r:ident, $c:ident) => { $crate::catalog::cross_ops::<$t>() };
    (show, $t:ty, $r:ident, $c:ident) => { $crate::catalog::display_ops::<$t, $r, $c>() };
    (float, $t:ty, $r:ident, $c:ident) => { $crate::catalog::float_ops::<$t, $r, $c>() };
    (copy, $t:ty, $r:ident, $c:ident) => { $crate::catalog::copy_ops::<$t, $r, $c>() };
    (iters, $t:ty, $r:ident, $c:ident) => { $crate::catalog::iter_new_ops::<$t, $r, $c>() };
    (conj, $t:ty, $r:ident, $c:ident) => { $crate::catalog::conjugate_ops::<$r, $c>() };
    ($other:ident, $t:ty, $r:ident, $c:ident) => { $crate::catalog::$other::<$t>() };
}
/// Operations from elements `$t` to elements `$v`.
#[macro_export]
macro_rules! retype_subject {
    ($name:expr, $t:ty, $v:ty, $r:ident, $c:ident) => {
        $crate::soup::Sub::boxed(&format!("{}/{}x{}", $name, stringify!($r), stringify!($c)), $crate::catalog::Pool::<$t, $r, $c>::empty, vec![$crate::catalog::retype_ops::<$t, $v, $r, $c>()])
    };
}
#[macro_export]
macro_rules! mixed_subject {
    ($r:ident, $c:ident) => {
        $crate::soup::Sub::boxed(&format!("mixed/{}x{}", stringify!($r), stringify!($c)), $crate::catalog::Pool::<$crate::elems::Tok, $r, $c>::empty, vec![$crate::catalog::mixed_ops::<$r, $c>()])
    };
}
#[macro_export]
macro_rules! chunk_subject {
    ($name:expr, $t:ty, $n:ident, $i:ident) => {
        $crate::soup::Sub::boxed(&format!("{} chunks/{}by{}", $name, stringify!($n), stringify!($i)), $crate::catalog::ChunkPool::<$t, $n, $i>::empty, vec![$crate::catalog::chunk_ops::<$t, $n, $i>()])
    };
}
#[macro_export]
macro_rules! flat_subject {
    ($name:expr, $t:ty, $r:ident, $c:ident) => {
        $crate::soup::Sub::boxed(&format!("{} flat/{}x{}", $name, stringify!($r), stringify!($c)), $crate::catalog::FlatPool::<$t, $r, $c>::empty, vec![$crate::catalog::flat_ops::<$t, $r, $c>()])
    };
}
