use core::fmt::{self, Debug, Display, Formatter};
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::{Rng, RngCore};
use serde::{Deserialize, Serialize};

use super::types::{Field, Field64, PrimeField, PrimeField64, Sample};

/// The field of order p = 2^64 - 2^32 + 1. Always stored canonically.
#[derive(Copy, Clone, Default, Serialize, Deserialize)]
#[repr(transparent)]
pub struct GoldilocksField(pub u64);

const P: u64 = 0xFFFF_FFFF_0000_0001;
const EPS: u64 = 0xFFFF_FFFF;

#[inline(always)]
fn canon(x: u64) -> u64 { if x >= P { x - P } else { x } }

#[inline(always)]
fn reduce128(x: u128) -> u64 {
    let lo = x as u64;
    let hi = (x >> 64) as u64;
    let hi_hi = hi >> 32;
    let hi_lo = hi & EPS;
    let (mut t0, borrow) = lo.overflowing_sub(hi_hi);
    if borrow { t0 = t0.wrapping_sub(EPS); }
    let t1 = hi_lo * EPS;
    let (r, carry) = t0.overflowing_add(t1);
    canon(r.wrapping_add(EPS * u64::from(carry)))
}

impl PartialEq for GoldilocksField {
    fn eq(&self, o: &Self) -> bool { canon(self.0) == canon(o.0) }
}
impl Eq for GoldilocksField {}
impl Hash for GoldilocksField {
    fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(canon(self.0)) }
}
impl Display for GoldilocksField {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(&canon(self.0), f) }
}
impl Debug for GoldilocksField {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Debug::fmt(&canon(self.0), f) }
}
impl Sample for GoldilocksField {
    fn sample<R: RngCore + ?Sized>(rng: &mut R) -> Self { Self(rng.gen_range(0..P)) }
}
impl Field for GoldilocksField {
    const ZERO: Self = Self(0);
    const ONE: Self = Self(1);
    const TWO: Self = Self(2);
    const NEG_ONE: Self = Self(P - 1);
    const CHARACTERISTIC_TWO_ADICITY: usize = 32;
    const TWO_ADICITY: usize = 32;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(7);
    // 7^((p-1)/2^32)
    const POWER_OF_TWO_GENERATOR: Self = Self(1753635133440165772);
    const BITS: usize = 64;
    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() { None } else { Some(self.exp_u64(P - 2)) }
    }
    #[inline(always)]
    fn from_canonical_u64(n: u64) -> Self { debug_assert!(n < P); Self(canon(n)) }
    fn from_noncanonical_u128(n: u128) -> Self { Self(reduce128(n)) }
    fn from_noncanonical_u64(n: u64) -> Self { Self(canon(n)) }
    fn from_noncanonical_i64(n: i64) -> Self {
        if n >= 0 { Self(n as u64) } else { Self(P - n.unsigned_abs()) }
    }
}
impl PrimeField for GoldilocksField {}
impl Field64 for GoldilocksField { const ORDER: u64 = P; }
impl PrimeField64 for GoldilocksField {
    fn to_canonical_u64(&self) -> u64 { canon(self.0) }
    fn to_noncanonical_u64(&self) -> u64 { self.0 }
}
impl Neg for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self { let c = canon(self.0); if c == 0 { Self(0) } else { Self(P - c) } }
}
impl Add for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        let (s, c) = canon(self.0).overflowing_add(canon(o.0));
        Self(if c { s.wrapping_add(EPS) } else { canon(s) })
    }
}
impl Sub for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        let (d, b) = canon(self.0).overflowing_sub(canon(o.0));
        Self(if b { d.wrapping_sub(EPS) } else { d })
    }
}
impl Mul for GoldilocksField {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Self) -> Self { Self(reduce128(u128::from(self.0) * u128::from(o.0))) }
}
impl Div for GoldilocksField { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse() } }
impl AddAssign for GoldilocksField { #[inline(always)] fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for GoldilocksField { #[inline(always)] fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl MulAssign for GoldilocksField { #[inline(always)] fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl DivAssign for GoldilocksField { fn div_assign(&mut self, o: Self) { *self = *self / o } }
impl Sum for GoldilocksField { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl Product for GoldilocksField { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
