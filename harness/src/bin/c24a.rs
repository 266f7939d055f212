//! C24: the named aliases of the prelude. A build of its own: an alias that is gone is an observation too.
use rcmon::*;
use rowcol::prelude::*;
use rowcol::vector::{Vector};
use std::any::TypeId;

macro_rules! va { ($m:ident: $($n:expr, $u:ident, $f:ident, $d:ident;)*) => { $(
    $m.case(concat!("alias/Vector", $n), |c| {
        c.check(TypeId::of::<$f>() == TypeId::of::<Vector<f32, $u>>(), || format!("{} is {}", stringify!($f), std::any::type_name::<$f>()));
        c.check(TypeId::of::<$d>() == TypeId::of::<Vector<f64, $u>>(), || format!("{} is {}", stringify!($d), std::any::type_name::<$d>()));
        let (f, d) = (<$f>::generate(|_| Default::default()), <$d>::generate(|_| Default::default()));
        c.eq(stringify!($f), &(f.len(), f.iter().count()), &($n, $n));
        c.eq(stringify!($d), &(d.len(), d.iter().count()), &($n, $n));
        c.eq("size of the f32 alias", &std::mem::size_of::<$f>(), &($n * 4));
        c.eq("size of the f64 alias", &std::mem::size_of::<$d>(), &($n * 8));
        c.unit($n, true);
        c.sample(|| format!("{} = {}", stringify!($d), std::any::type_name::<$d>()));
    });
)* } }
macro_rules! ma { ($m:ident: $($n:expr, $u:ident, $f:ident, $d:ident;)*) => { $(
    $m.case(concat!("alias/Matrix", $n), |c| {
        c.check(TypeId::of::<$f>() == TypeId::of::<Matrix<f32, $u, $u>>(), || format!("{} is {}", stringify!($f), std::any::type_name::<$f>()));
        c.check(TypeId::of::<$d>() == TypeId::of::<Matrix<f64, $u, $u>>(), || format!("{} is {}", stringify!($d), std::any::type_name::<$d>()));
        c.eq("size of the f32 alias", &std::mem::size_of::<$f>(), &($n * $n * 4));
        c.eq("size of the f64 alias", &std::mem::size_of::<$d>(), &($n * $n * 8));
        c.unit($n, true);
        c.sample(|| format!("{} = {}", stringify!($d), std::any::type_name::<$d>()));
    });
)* } }
fn main() {
    let mut mon = Mon::new("C24");
    let m = &mut mon;
    va!(m: 1, U1, Vector1f32, Vector1f64; 2, U2, Vector2f32, Vector2f64; 3, U3, Vector3f32, Vector3f64; 4, U4, Vector4f32, Vector4f64; 5, U5, Vector5f32, Vector5f64;
        6, U6, Vector6f32, Vector6f64; 7, U7, Vector7f32, Vector7f64; 8, U8, Vector8f32, Vector8f64; 9, U9, Vector9f32, Vector9f64; 10, U10, Vector10f32, Vector10f64;);
    ma!(m: 2, U2, Matrix2f32, Matrix2f64; 3, U3, Matrix3f32, Matrix3f64; 4, U4, Matrix4f32, Matrix4f64;);
    mon.finish();
}
