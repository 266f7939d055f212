//! Exact element types: prime fields and a non-commutative matrix ring.
use crate::ops::*;
use crate::{impl_field_ops, impl_ring_ops};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fp<const P: u64>(pub u64);

pub const P61: u64 = (1 << 61) - 1;
pub const P31: u64 = (1 << 31) - 1;

impl<const P: u64> std::fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> std::fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Fp<P> {
    pub fn new(x: i64) -> Self {
        Fp(x.rem_euclid(P as i64) as u64)
    }
    pub fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero in GF({P})");
        // Fermat
        let (mut b, mut e, mut r) = (self, P - 2, Fp::<P>(1 % P));
        while e > 0 {
            if e & 1 == 1 {
                r = r.rmul(&b)
            }
            b = b.rmul(&b);
            e >>= 1;
        }
        r
    }
}
impl<const P: u64> Ring0 for Fp<P> {
    fn radd(&self, o: &Self) -> Self {
        Fp((self.0 + o.0) % P)
    }
    fn rsub(&self, o: &Self) -> Self {
        Fp((self.0 + P - o.0) % P)
    }
    fn rmul(&self, o: &Self) -> Self {
        if P < (1 << 32) {
            Fp(self.0 * o.0 % P)
        } else {
            Fp((self.0 as u128 * o.0 as u128 % P as u128) as u64)
        }
    }
    fn rneg(&self) -> Self {
        Fp((P - self.0) % P)
    }
}
impl<const P: u64> Field0 for Fp<P> {
    fn rdiv(&self, o: &Self) -> Self {
        self.rmul(&o.inv())
    }
}
impl_field_ops!([const P: u64] Fp<P>);
impl<const P: u64> num::Zero for Fp<P> {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> num::One for Fp<P> {
    fn one() -> Self {
        Fp(1 % P)
    }
}
impl<const P: u64> num::Bounded for Fp<P> {
    fn min_value() -> Self {
        Fp(0)
    }
    fn max_value() -> Self {
        Fp(P - 1)
    }
}

/// 2x2 matrices over GF(2^31-1): an associative, non-commutative ring with one and zero divisors.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct M2(pub [u64; 4]);
impl std::fmt::Debug for M2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Ring0 for M2 {
    fn radd(&self, o: &Self) -> Self {
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = (self.0[i] + o.0[i]) % P31
        }
        M2(r)
    }
    fn rsub(&self, o: &Self) -> Self {
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = (self.0[i] + P31 - o.0[i]) % P31
        }
        M2(r)
    }
    fn rmul(&self, o: &Self) -> Self {
        let (a, b) = (&self.0, &o.0);
        M2([
            (a[0] * b[0] % P31 + a[1] * b[2] % P31) % P31,
            (a[0] * b[1] % P31 + a[1] * b[3] % P31) % P31,
            (a[2] * b[0] % P31 + a[3] * b[2] % P31) % P31,
            (a[2] * b[1] % P31 + a[3] * b[3] % P31) % P31,
        ])
    }
    fn rneg(&self) -> Self {
        M2([0; 4]).rsub(self)
    }
}
impl_ring_ops!([] M2);
impl num::Zero for M2 {
    fn zero() -> Self {
        M2([0; 4])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
}
impl num::One for M2 {
    fn one() -> Self {
        M2([1, 0, 0, 1])
    }
}
impl M2 {
    pub fn rand(r: &mut crate::rng::Rng) -> M2 {
        match r.below(12) {
            0 => M2([0; 4]),
            1 => M2([1, 0, 0, 1]),
            2 => M2([0, 1, 0, 0]),
            _ => M2([r.below(P31), r.below(P31), r.below(P31), r.below(P31)]),
        }
    }
}
