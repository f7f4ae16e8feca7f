//! Exact rationals for generators and oracles: `Q` on checked 128-bit integers.
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};
use std::str::FromStr;

use num_traits::{One, Zero};
use relp_num::{Rational128, Rational32, Rational64, RationalBig};

thread_local! { static OVERFLOW: Cell<bool> = const { Cell::new(false) }; }
/// Whether a computation since the last call left the 128-bit range (its results are meaningless).
pub fn take_overflow() -> bool { OVERFLOW.with(|o| o.replace(false)) }
fn over() -> Q { OVERFLOW.with(|o| o.set(true)); Q { n: 0, d: 1 } }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q { pub n: i128, pub d: i128 }

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 { let t = a % b; a = b; b = t; }
    a as i128
}

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn int(n: i64) -> Q { Q { n: n as i128, d: 1 } }
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn is_zero(&self) -> bool { self.n == 0 }
    pub fn is_neg(&self) -> bool { self.n < 0 }
    pub fn is_pos(&self) -> bool { self.n > 0 }
    pub fn abs(self) -> Q { Q { n: self.n.abs(), d: self.d } }
    pub fn is_int(&self) -> bool { self.d == 1 }
    pub fn big(&self) -> RationalBig {
        if let (Ok(n), Ok(d)) = (i64::try_from(self.n), u64::try_from(self.d)) {
            RationalBig::new(n, d).unwrap()
        } else {
            RationalBig::from_str(&format!("{}/{}", self.n, self.d)).unwrap()
        }
    }
    pub fn r64(&self) -> Rational64 { Rational64::new(self.n as i64, self.d as u64).unwrap() }
    pub fn fits64(&self) -> bool { i64::try_from(self.n).is_ok() && u64::try_from(self.d).is_ok() }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Debug for Q { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q { n: -self.n, d: self.d } } }
impl Add for Q { type Output = Q; fn add(self, o: Q) -> Q {
    if self.d == 1 && o.d == 1 {
        return match self.n.checked_add(o.n) { Some(n) => Q { n, d: 1 }, None => over() };
    }
    let g = gcd(self.d, o.d);
    let (a, b) = (o.d / g, self.d / g);
    (|| {
        let n = self.n.checked_mul(a)?.checked_add(o.n.checked_mul(b)?)?;
        let d = self.d.checked_mul(a)?;
        let g = gcd(n, d).max(1);
        Some(Q { n: n / g, d: d / g })
    })().unwrap_or_else(over)
} }
impl Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { self + (-o) } }
impl Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q {
    let (g1, g2) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
    (|| Some(Q { n: (self.n / g1).checked_mul(o.n / g2)?, d: (self.d / g2).checked_mul(o.d / g1)? }))().unwrap_or_else(over)
} }
impl Div for Q { type Output = Q; fn div(self, o: Q) -> Q {
    if o.n == 0 { return over(); }
    let inv = if o.n < 0 { Q { n: -o.d, d: -o.n } } else { Q { n: o.d, d: o.n } };
    self * inv
} }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Q { fn cmp(&self, o: &Q) -> Ordering {
    if self.d == o.d { return self.n.cmp(&o.n); }
    match (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) {
        (Some(a), Some(b)) => a.cmp(&b),
        _ => { over(); Ordering::Equal }
    }
} }

/// Arithmetic the reference algorithms need.
pub trait Num: Clone + PartialEq + fmt::Display + fmt::Debug {
    fn zero() -> Self;
    fn one() -> Self;
    fn from_q(q: Q) -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn div(&self, o: &Self) -> Self;
    fn neg(&self) -> Self;
    fn sgn(&self) -> i32;
    fn is0(&self) -> bool { self.sgn() == 0 }
    fn less(&self, o: &Self) -> bool { self.sub(o).sgn() < 0 }
    fn to_big(&self) -> RationalBig;
    /// Whether results so far are meaningless.
    fn bad() -> bool { false }
}
impl Num for Q {
    fn zero() -> Self { Q::ZERO }
    fn one() -> Self { Q::ONE }
    fn from_q(q: Q) -> Self { q }
    fn add(&self, o: &Self) -> Self { *self + *o }
    fn sub(&self, o: &Self) -> Self { *self - *o }
    fn mul(&self, o: &Self) -> Self { *self * *o }
    fn div(&self, o: &Self) -> Self { *self / *o }
    fn neg(&self) -> Self { -*self }
    fn sgn(&self) -> i32 { self.n.signum() as i32 }
    fn to_big(&self) -> RationalBig { self.big() }
    fn bad() -> bool { OVERFLOW.with(|o| o.get()) }
}
pub type RB = RationalBig;
impl Num for RB {
    fn zero() -> Self { <RB as Zero>::zero() }
    fn one() -> Self { <RB as One>::one() }
    fn from_q(q: Q) -> Self { q.big() }
    fn add(&self, o: &Self) -> Self { self + o }
    fn sub(&self, o: &Self) -> Self { self - o }
    fn mul(&self, o: &Self) -> Self { self * o }
    fn div(&self, o: &Self) -> Self { self / o }
    fn neg(&self) -> Self { -self.clone() }
    fn sgn(&self) -> i32 {
        let z = <RB as Zero>::zero();
        match self.cmp(&z) { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
    }
    fn to_big(&self) -> RationalBig { self.clone() }
}

/// Target number types of the system under test.
pub trait FromQ { fn from_q(q: Q) -> Self; }
impl FromQ for RationalBig { fn from_q(q: Q) -> Self { q.big() } }
impl FromQ for Rational64 { fn from_q(q: Q) -> Self { q.r64() } }
impl FromQ for Rational32 { fn from_q(q: Q) -> Self { Rational32::new(q.n as i32, q.d as u32).unwrap() } }
impl FromQ for Rational128 { fn from_q(q: Q) -> Self { Rational128::new(q.n, q.d as u128).unwrap() } }
