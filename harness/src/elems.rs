//! Monitored element types.
use crate::fault::{self, SEAL};
use crate::ops::*;
use crate::rng::mix;
use crate::impl_field_ops;
use std::cmp::Ordering;
use std::mem::ManuallyDrop;

/// Ledger element: has an identity, a seal, a value and (HEAP) a heap block. Every use is checked against the
/// ledger and every trait call is a fault point.
pub struct TokG<const HEAP: bool, A: Pad = ()> {
    id: u64,
    seal: u64,
    val: u64,
    heap: ManuallyDrop<Option<Box<u64>>>,
    pad: A,
}
/// What else a ledger element carries: gives it another size or alignment.
pub trait Pad: 'static {
    fn of(id: u64) -> Self;
    fn holds(&self, id: u64) -> bool;
}
impl Pad for () {
    fn of(_: u64) {}
    fn holds(&self, _: u64) -> bool { true }
}
impl<const N: usize> Pad for [u64; N] {
    fn of(id: u64) -> Self {
        let mut a = [0; N];
        for (i, x) in a.iter_mut().enumerate() { *x = mix(id ^ (i as u64) << 40) }
        a
    }
    fn holds(&self, id: u64) -> bool { self.iter().enumerate().all(|(i, x)| *x == mix(id ^ (i as u64) << 40)) }
}
#[repr(align(128))]
pub struct Aligned(u64);
impl Pad for Aligned {
    fn of(id: u64) -> Self { Aligned(!id) }
    fn holds(&self, id: u64) -> bool { self as *const Self as usize % 128 == 0 && self.0 == !id }
}
pub type Tok = TokG<false>;
pub type HTok = TokG<true>;
/// 56, 128, 352 and 2080 bytes; the last one aligned to 128 bytes.
pub type Tok56 = TokG<false, [u64; 3]>;
pub type Tok128 = TokG<false, [u64; 12]>;
pub type Tok352 = TokG<false, [u64; 40]>;
pub type Tok2080 = TokG<false, [u64; 256]>;
pub type TokAl = TokG<false, Aligned>;

impl<const H: bool, A: Pad> TokG<H, A> {
    pub fn new(val: u64) -> Self {
        let id = fault::birth();
        TokG { id, seal: id ^ SEAL, val, heap: ManuallyDrop::new(if H { Some(Box::new(val)) } else { None }), pad: A::of(id) }
    }
    pub fn id(&self) -> u64 {
        self.id
    }
    /// Reads the value, checking that this is a live element.
    pub fn val(&self) -> u64 {
        let live = fault::alive(self.id, self.seal, "use");
        if live && !self.pad.holds(self.id) {
            fault::err(format!("element #{} is torn or misaligned", self.id));
        }
        if live && H {
            if **(*self.heap).as_ref().unwrap() != self.val {
                fault::err(format!("element #{} lost its heap content", self.id));
            }
        }
        self.val
    }
    pub fn set(&mut self, v: u64) {
        fault::alive(self.id, self.seal, "write");
        self.val = v;
        if H {
            if let Some(b) = (*self.heap).as_mut() {
                **b = v
            }
        }
    }
}
impl<const H: bool, A: Pad> Drop for TokG<H, A> {
    fn drop(&mut self) {
        if fault::death(self.id, self.seal) {
            if H {
                unsafe { ManuallyDrop::drop(&mut self.heap) }
            }
            fault::drop_fault();
        }
    }
}
impl<const H: bool, A: Pad> Clone for TokG<H, A> {
    fn clone(&self) -> Self {
        fault::callback();
        Self::new(self.val())
    }
}
impl<const H: bool, A: Pad> PartialEq for TokG<H, A> {
    fn eq(&self, o: &Self) -> bool {
        fault::callback();
        self.val() == o.val()
    }
}
impl<const H: bool, A: Pad> Eq for TokG<H, A> {}
impl<const H: bool, A: Pad> PartialOrd for TokG<H, A> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const H: bool, A: Pad> Ord for TokG<H, A> {
    fn cmp(&self, o: &Self) -> Ordering {
        fault::callback();
        self.val().cmp(&o.val())
    }
}
impl<const H: bool, A: Pad> std::fmt::Debug for TokG<H, A> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fault::callback();
        write!(f, "t{}", self.val())
    }
}
impl<const H: bool, A: Pad> std::fmt::Display for TokG<H, A> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fault::callback();
        write!(f, "t{}", self.val())
    }
}
impl<const H: bool, A: Pad> Default for TokG<H, A> {
    fn default() -> Self {
        fault::callback();
        Self::new(0)
    }
}
pub const TP: u64 = 1_000_003;
impl<const H: bool, A: Pad> Ring0 for TokG<H, A> {
    fn radd(&self, o: &Self) -> Self {
        fault::callback();
        Self::new((self.val() + o.val()) % TP)
    }
    fn rsub(&self, o: &Self) -> Self {
        fault::callback();
        Self::new((self.val() + TP - o.val() % TP) % TP)
    }
    fn rmul(&self, o: &Self) -> Self {
        fault::callback();
        Self::new(self.val() * o.val() % TP)
    }
    fn rneg(&self) -> Self {
        fault::callback();
        Self::new((TP - self.val() % TP) % TP)
    }
}
impl<const H: bool, A: Pad> Field0 for TokG<H, A> {
    fn rdiv(&self, o: &Self) -> Self {
        fault::callback();
        let b = o.val() % TP;
        if b == 0 {
            return Self::new(0);
        }
        let inv = crate::field::Fp::<TP>(b).inv();
        Self::new(self.val() * inv.0 % TP)
    }
}
impl_field_ops!([const H: bool, A: Pad] TokG<H, A>);
// one kind of token with the other: the result has the other's type
macro_rules! mixed { ($($tr:ident $f:ident $r:ident $tra:ident $fa:ident;)*) => { $(
    impl std::ops::$tr<HTok> for Tok { type Output = HTok; fn $f(self, o: HTok) -> HTok { HTok::new(self.$r(&Tok::new(o.val())).val()) } }
    impl<'a> std::ops::$tr<&'a HTok> for Tok { type Output = HTok; fn $f(self, o: &'a HTok) -> HTok { HTok::new(self.$r(&Tok::new(o.val())).val()) } }
    impl<'a> std::ops::$tr<HTok> for &'a Tok { type Output = HTok; fn $f(self, o: HTok) -> HTok { HTok::new(self.$r(&Tok::new(o.val())).val()) } }
    impl<'a, 'b> std::ops::$tr<&'a HTok> for &'b Tok { type Output = HTok; fn $f(self, o: &'a HTok) -> HTok { HTok::new(self.$r(&Tok::new(o.val())).val()) } }
    impl std::ops::$tra<HTok> for Tok { fn $fa(&mut self, o: HTok) { let r = self.$r(&Tok::new(o.val())); *self = r; } }
)* } }
mixed! { Add add radd AddAssign add_assign; Sub sub rsub SubAssign sub_assign; Mul mul rmul MulAssign mul_assign; Div div rdiv DivAssign div_assign; }
impl<const H: bool, A: Pad> num::Zero for TokG<H, A> {
    fn zero() -> Self {
        fault::callback();
        Self::new(0)
    }
    fn is_zero(&self) -> bool {
        fault::callback();
        self.val() == 0
    }
}
impl<const H: bool, A: Pad> num::One for TokG<H, A> {
    fn one() -> Self {
        fault::callback();
        Self::new(1)
    }
}
impl<const H: bool, A: Pad> num::Bounded for TokG<H, A> {
    fn min_value() -> Self {
        fault::callback();
        Self::new(0)
    }
    fn max_value() -> Self {
        fault::callback();
        Self::new(TP - 1)
    }
}

/// Zero-sized element with a destructor; only the balance of births and deaths can be checked.
pub struct Zst(());
thread_local! { pub static ZST_LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
impl Zst {
    pub fn new() -> Zst {
        ZST_LIVE.with(|c| c.set(c.get() + 1));
        Zst(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_LIVE.with(|c| c.set(c.get() - 1));
        fault::drop_fault();
    }
}
impl Clone for Zst {
    fn clone(&self) -> Zst {
        fault::callback();
        Zst::new()
    }
}
impl PartialEq for Zst {
    fn eq(&self, _: &Zst) -> bool {
        true
    }
}
impl std::fmt::Debug for Zst {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("z")
    }
}

/// No destructor, but a clone can be told from its source.
#[derive(PartialEq, Debug)]
pub struct Gen(pub u32, pub u32);
impl Clone for Gen {
    fn clone(&self) -> Gen {
        fault::callback();
        Gen(self.0, self.1 + 1)
    }
}

/// Over-aligned element.
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Al64(pub u8);

/// An enum with few valid bit patterns.
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Few {
    A = 7,
    B = 9,
    C = 200,
}

/// Element behaviour the generic catalogues need.
pub trait Elem: Clone + PartialEq + std::fmt::Debug + 'static {
    fn mk(k: u64) -> Self;
    /// Reads the whole value (sanitizers see the read) and returns a digest of it.
    fn peek(&self) -> u64;
}
impl<const H: bool, A: Pad> Elem for TokG<H, A> {
    fn mk(k: u64) -> Self {
        Self::new(k % TP)
    }
    fn peek(&self) -> u64 {
        mix(self.val())
    }
}
impl Elem for Zst {
    fn mk(_: u64) -> Self {
        Zst::new()
    }
    fn peek(&self) -> u64 {
        1
    }
}
macro_rules! elem {
    ($($t:ty, |$k:ident| $mk:expr, |$s:ident| $pk:expr;)*) => { $(
        impl Elem for $t {
            fn mk($k: u64) -> Self { $mk }
            fn peek(&self) -> u64 { let $s = self; $pk }
        }
    )* };
}
pub static STRS: [&str; 5] = ["", "a", "zeta", "längst", "日本"];
fn fa(x: u64) -> u64 { x ^ 1 }
fn fb(x: u64) -> u64 { x.rotate_left(9) }
elem! {
    u8, |k| k as u8, |s| mix(*s as u64);
    i64, |k| k as i64, |s| mix(*s as u64);
    u64, |k| k, |s| mix(*s);
    i32, |k| k as i32, |s| mix(*s as u64);
    u128, |k| (k as u128) << 70 | k as u128, |s| mix((*s >> 64) as u64 ^ *s as u64);
    f64, |k| if k < 6 { [0.0, 1.0, -1.0, -0.0, 2.0, 0.1][k as usize] } else { (k % 4096) as f64 / 16.0 - 100.0 }, |s| mix(if s.is_nan() { 1 } else { s.to_bits() });
    f32, |k| if k < 6 { [0.0, 1.0, -1.0, -0.0, 2.0, 0.1][k as usize] } else { (k % 4096) as f32 / 16.0 - 100.0 }, |s| mix(if s.is_nan() { 1 } else { s.to_bits() as u64 });
    bool, |k| k & 1 == 1, |s| mix(*s as u64);
    char, |k| char::from_u32((0x20 + k % 0x230) as u32).unwrap(), |s| mix(*s as u64);
    Gen, |k| Gen(k as u32, 0), |s| mix((s.0 as u64) << 32 | s.1 as u64);
    Few, |k| [Few::A, Few::B, Few::C][(k % 3) as usize], |s| mix(match s { Few::A => 7, Few::B => 9, Few::C => 200 });
    Al64, |k| Al64(k as u8), |s| { assert!(s as *const _ as usize % 64 == 0, "misaligned element"); mix(s.0 as u64) };
    (), |_k| (), |_s| 3;
    std::num::NonZeroU32, |k| std::num::NonZeroU32::new(1 + (k % 0xffff_fffe) as u32).unwrap(), |s| mix(s.get() as u64);
    Box<u32>, |k| Box::new(k as u32), |s| mix(**s as u64);
    Option<Box<u16>>, |k| if k & 1 == 0 { None } else { Some(Box::new(k as u16)) }, |s| mix(s.as_ref().map_or(0, |b| **b as u64 + 1));
    String, |k| format!("s{}", k % 10007), |s| crate::rng::hash_str(s);
    Vec<u8>, |k| vec![k as u8; (k % 5) as usize], |s| s.iter().fold(7, |h, b| mix(h ^ *b as u64));
    &'static str, |k| STRS[(k % 5) as usize], |s| crate::rng::hash_str(s);
    &'static u64, |k| { static T: [u64; 4] = [5, 6, 7, 8]; &T[(k % 4) as usize] }, |s| mix(**s);
    fn(u64) -> u64, |k| if k & 1 == 0 { fa } else { fb }, |s| mix(s(77));
    (u8, u64), |k| (k as u8, mix(k)), |s| mix(s.0 as u64 ^ s.1);
    num::Complex<f64>, |k| num::Complex::new(f64::mk(k), f64::mk(mix(k))), |s| mix(s.re.peek() ^ s.im.peek().rotate_left(7));
    [u8; 8], |k| mix(k).to_le_bytes(), |s| mix(u64::from_le_bytes(*s));
    [u8; 64], |k| [k as u8; 64], |s| s.iter().fold(0, |h, x| mix(h ^ *x as u64));
    [u64; 40], |k| { let mut a = [0; 40]; for i in 0..40 { a[i] = mix(k ^ i as u64) } a }, |s| s.iter().fold(0, |h, x| mix(h ^ x));
    std::rc::Rc<u64>, |k| std::rc::Rc::new(k), |s| mix(**s);
    std::sync::Arc<u64>, |k| std::sync::Arc::new(k), |s| mix(**s);
}
impl<const P: u64> Elem for crate::field::Fp<P> {
    fn mk(k: u64) -> Self {
        crate::field::Fp(k % P)
    }
    fn peek(&self) -> u64 {
        mix(self.0)
    }
}

/// Elements with the whole operator set, owned and borrowed.
pub trait Arith:
    Elem
    + num::Signed
    + num::Bounded
    + Default
    + std::ops::AddAssign
    + std::ops::SubAssign
    + std::ops::MulAssign
    + std::ops::DivAssign
    + for<'a> std::ops::Add<&'a Self, Output = Self>
    + for<'a> std::ops::Sub<&'a Self, Output = Self>
    + for<'a> std::ops::Mul<&'a Self, Output = Self>
    + for<'a> std::ops::Div<&'a Self, Output = Self>
{
}
impl<T> Arith for T where
    T: Elem
        + num::Signed
        + num::Bounded
        + Default
        + std::ops::AddAssign
        + std::ops::SubAssign
        + std::ops::MulAssign
        + std::ops::DivAssign
        + for<'a> std::ops::Add<&'a Self, Output = Self>
        + for<'a> std::ops::Sub<&'a Self, Output = Self>
        + for<'a> std::ops::Mul<&'a Self, Output = Self>
        + for<'a> std::ops::Div<&'a Self, Output = Self>
{
}
