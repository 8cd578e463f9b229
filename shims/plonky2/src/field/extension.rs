use core::fmt::{self, Debug, Display, Formatter};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::RngCore;
use serde::{Deserialize, Serialize};

use super::goldilocks_field::GoldilocksField;
use super::types::{Field, Sample};

pub trait OEF<const D: usize>: FieldExtension<D> {
    const W: Self::BaseField;
}
pub trait Frobenius<const D: usize>: OEF<D> {}

pub trait Extendable<const D: usize>: Field + Sized {
    type Extension: Field + OEF<D, BaseField = Self> + Frobenius<D> + From<Self>;
    const W: Self;
}

pub trait FieldExtension<const D: usize>: Field {
    type BaseField: Field;
    fn to_basefield_array(&self) -> [Self::BaseField; D];
    fn from_basefield_array(arr: [Self::BaseField; D]) -> Self;
    fn from_basefield(x: Self::BaseField) -> Self;
    fn is_in_basefield(&self) -> bool {
        self.to_basefield_array()[1..].iter().all(|x| x.is_zero())
    }
    fn scalar_mul(&self, scalar: Self::BaseField) -> Self {
        *self * Self::from_basefield(scalar)
    }
}

impl<F: Field> FieldExtension<1> for F {
    type BaseField = F;
    fn to_basefield_array(&self) -> [F; 1] { [*self] }
    fn from_basefield_array(arr: [F; 1]) -> Self { arr[0] }
    fn from_basefield(x: F) -> Self { x }
}
impl<F: Field> OEF<1> for F { const W: F = F::ONE; }
impl<F: Field> Frobenius<1> for F {}
impl<F: Field> Extendable<1> for F {
    type Extension = F;
    const W: F = F::ONE;
}

pub fn flatten<F: Field, const D: usize>(l: &[F::Extension]) -> Vec<F>
where F: Extendable<D> {
    l.iter().flat_map(|x| x.to_basefield_array().to_vec()).collect()
}

pub mod quadratic {
    pub use super::QuadraticExtension;
}

/// GF(p)[x] / (x^2 - 7)
#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct QuadraticExtension<F: Field>(pub [F; 2]);

const W7: u64 = 7;

impl<F: Field> Default for QuadraticExtension<F> { fn default() -> Self { Self::ZERO } }
impl<F: Field> Debug for QuadraticExtension<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
}
impl<F: Field> Display for QuadraticExtension<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{} + {}*a", self.0[0], self.0[1]) }
}
impl<F: Field> From<F> for QuadraticExtension<F> { fn from(x: F) -> Self { Self([x, F::ZERO]) } }
impl<F: Field> Sample for QuadraticExtension<F> {
    fn sample<R: RngCore + ?Sized>(rng: &mut R) -> Self { Self([F::sample(rng), F::sample(rng)]) }
}
impl Extendable<2> for GoldilocksField {
    type Extension = QuadraticExtension<Self>;
    const W: Self = GoldilocksField(W7);
}
impl OEF<2> for QuadraticExtension<GoldilocksField> { const W: GoldilocksField = GoldilocksField(W7); }
impl Frobenius<2> for QuadraticExtension<GoldilocksField> {}
impl FieldExtension<2> for QuadraticExtension<GoldilocksField> {
    type BaseField = GoldilocksField;
    fn to_basefield_array(&self) -> [GoldilocksField; 2] { self.0 }
    fn from_basefield_array(arr: [GoldilocksField; 2]) -> Self { Self(arr) }
    fn from_basefield(x: GoldilocksField) -> Self { Self([x, GoldilocksField(0)]) }
}

impl<F: Field> Field for QuadraticExtension<F> {
    const ZERO: Self = Self([F::ZERO, F::ZERO]);
    const ONE: Self = Self([F::ONE, F::ZERO]);
    const TWO: Self = Self([F::TWO, F::ZERO]);
    const NEG_ONE: Self = Self([F::NEG_ONE, F::ZERO]);
    const CHARACTERISTIC_TWO_ADICITY: usize = F::CHARACTERISTIC_TWO_ADICITY;
    // Only the base field's two-adic subgroup is used.
    const TWO_ADICITY: usize = F::TWO_ADICITY;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self([F::MULTIPLICATIVE_GROUP_GENERATOR, F::ONE]);
    const POWER_OF_TWO_GENERATOR: Self = Self([F::POWER_OF_TWO_GENERATOR, F::ZERO]);
    const BITS: usize = F::BITS * 2;
    fn try_inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let [a, b] = self.0;
        let n = a * a - F::from_canonical_u64(W7) * b * b;
        let i = n.inverse();
        Some(Self([a * i, -b * i]))
    }
    fn from_canonical_u64(n: u64) -> Self { F::from_canonical_u64(n).into() }
    fn from_noncanonical_u128(n: u128) -> Self { F::from_noncanonical_u128(n).into() }
    fn from_noncanonical_u64(n: u64) -> Self { F::from_noncanonical_u64(n).into() }
    fn from_noncanonical_i64(n: i64) -> Self { F::from_noncanonical_i64(n).into() }
}
impl<F: Field> Neg for QuadraticExtension<F> { type Output = Self; fn neg(self) -> Self { Self([-self.0[0], -self.0[1]]) } }
impl<F: Field> Add for QuadraticExtension<F> {
    type Output = Self;
    #[inline(always)]
    fn add(self, o: Self) -> Self { Self([self.0[0] + o.0[0], self.0[1] + o.0[1]]) }
}
impl<F: Field> Sub for QuadraticExtension<F> {
    type Output = Self;
    #[inline(always)]
    fn sub(self, o: Self) -> Self { Self([self.0[0] - o.0[0], self.0[1] - o.0[1]]) }
}
impl<F: Field> Mul for QuadraticExtension<F> {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Self) -> Self {
        let [a, b] = self.0;
        let [c, d] = o.0;
        Self([a * c + F::from_canonical_u64(W7) * b * d, a * d + b * c])
    }
}
impl<F: Field> Div for QuadraticExtension<F> { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse() } }
impl<F: Field> AddAssign for QuadraticExtension<F> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<F: Field> SubAssign for QuadraticExtension<F> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<F: Field> MulAssign for QuadraticExtension<F> { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl<F: Field> DivAssign for QuadraticExtension<F> { fn div_assign(&mut self, o: Self) { *self = *self / o } }
impl<F: Field> Sum for QuadraticExtension<F> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl<F: Field> Product for QuadraticExtension<F> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
