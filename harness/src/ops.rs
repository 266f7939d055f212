//! Operator plumbing: a type implements `Ring0` and `impl_ring_ops!` gives it every std/num operator trait.
pub trait Ring0: Sized {
    fn radd(&self, o: &Self) -> Self;
    fn rsub(&self, o: &Self) -> Self;
    fn rmul(&self, o: &Self) -> Self;
    fn rneg(&self) -> Self;
}
pub trait Field0: Ring0 {
    fn rdiv(&self, o: &Self) -> Self;
}

#[macro_export]
macro_rules! impl_bin {
    ([$($g:tt)*] $t:ty, $tr:ident, $f:ident, $r:ident, $tra:ident, $fa:ident) => {
        impl<$($g)*> std::ops::$tr for $t { type Output = $t; fn $f(self, o: $t) -> $t { (&self).$r(&o) } }
        impl<'a, $($g)*> std::ops::$tr<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { (&self).$r(o) } }
        impl<'a, $($g)*> std::ops::$tr<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { self.$r(&o) } }
        impl<'a, 'b, $($g)*> std::ops::$tr<&'a $t> for &'b $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { self.$r(o) } }
        impl<$($g)*> std::ops::$tra for $t { fn $fa(&mut self, o: $t) { let r = (&*self).$r(&o); *self = r; } }
    };
}
#[macro_export]
macro_rules! impl_ring_ops {
    ([$($g:tt)*] $t:ty) => {
        $crate::impl_bin!([$($g)*] $t, Add, add, radd, AddAssign, add_assign);
        $crate::impl_bin!([$($g)*] $t, Sub, sub, rsub, SubAssign, sub_assign);
        $crate::impl_bin!([$($g)*] $t, Mul, mul, rmul, MulAssign, mul_assign);
        impl<$($g)*> std::ops::Neg for $t { type Output = $t; fn neg(self) -> $t { (&self).rneg() } }
        impl<'a, $($g)*> std::ops::Neg for &'a $t { type Output = $t; fn neg(self) -> $t { self.rneg() } }
    };
}
#[macro_export]
macro_rules! impl_field_ops {
    ([$($g:tt)*] $t:ty) => {
        $crate::impl_ring_ops!([$($g)*] $t);
        $crate::impl_bin!([$($g)*] $t, Div, div, rdiv, DivAssign, div_assign);
        $crate::impl_bin!([$($g)*] $t, Rem, rem, rrem, RemAssign, rem_assign);
        impl<$($g)*> $t { fn rrem(&self, _o: &Self) -> Self { self.rsub(self) } }
        impl<$($g)*> num::Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> { Err(()) }
        }
        impl<$($g)*> num::Signed for $t {
            fn abs(&self) -> Self { self.clone() }
            fn abs_sub(&self, _: &Self) -> Self { self.clone() }
            fn signum(&self) -> Self { self.clone() }
            fn is_positive(&self) -> bool { true }
            fn is_negative(&self) -> bool { false }
        }
    };
}
