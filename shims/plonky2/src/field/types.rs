use core::fmt::{Debug, Display};
use core::hash::Hash;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand::RngCore;
use serde::de::DeserializeOwned;
use serde::Serialize;

/// Deterministic "random" source, so that runs are reproducible.
pub fn det_rng() -> rand_chacha::ChaCha8Rng {
    use rand::SeedableRng;
    thread_local!(static CTR: core::cell::Cell<u64> = const { core::cell::Cell::new(0) });
    let c = CTR.with(|c| { let v = c.get(); c.set(v + 1); v });
    rand_chacha::ChaCha8Rng::seed_from_u64(c)
}

pub trait Sample: Sized {
    fn sample<R>(rng: &mut R) -> Self
    where R: RngCore + ?Sized;
    fn rand() -> Self { Self::sample(&mut det_rng()) }
    fn rand_vec(n: usize) -> Vec<Self> { (0..n).map(|_| Self::rand()).collect() }
    fn rand_array<const N: usize>() -> [Self; N] { core::array::from_fn(|_| Self::rand()) }
}

pub trait Field:
    'static + Copy + Eq + Hash + Neg<Output = Self> + Add<Self, Output = Self>
    + AddAssign<Self> + Sum + Sub<Self, Output = Self> + SubAssign<Self>
    + Mul<Self, Output = Self> + MulAssign<Self> + Product
    + Div<Self, Output = Self> + DivAssign<Self>
    + Debug + Default + Display + Sample + Send + Sync + Serialize + DeserializeOwned {
    const ZERO: Self;
    const ONE: Self;
    const TWO: Self;
    const NEG_ONE: Self;
    const CHARACTERISTIC_TWO_ADICITY: usize;
    const TWO_ADICITY: usize;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self;
    const POWER_OF_TWO_GENERATOR: Self;
    const BITS: usize;

    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn is_nonzero(&self) -> bool { *self != Self::ZERO }
    fn sub_one(&self) -> Self { *self - Self::ONE }
    fn add_one(&self) -> Self { *self + Self::ONE }
    fn is_one(&self) -> bool { *self == Self::ONE }
    fn square(&self) -> Self { *self * *self }
    fn cube(&self) -> Self { self.square() * *self }
    fn double(&self) -> Self { *self + *self }
    fn triple(&self) -> Self { *self * (Self::ONE + Self::TWO) }
    fn try_inverse(&self) -> Option<Self>;
    fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
    fn batch_multiplicative_inverse(x: &[Self]) -> Vec<Self> {
        let n = x.len();
        if n == 0 { return vec![]; }
        let mut pre = Vec::with_capacity(n);
        let mut acc = Self::ONE;
        for v in x { pre.push(acc); acc *= *v; }
        let mut inv = acc.inverse();
        let mut out = vec![Self::ZERO; n];
        for i in (0..n).rev() { out[i] = pre[i] * inv; inv *= x[i]; }
        out
    }
    fn primitive_root_of_unity(n_log: usize) -> Self {
        assert!(n_log <= Self::TWO_ADICITY);
        Self::POWER_OF_TWO_GENERATOR.exp_power_of_2(Self::TWO_ADICITY - n_log)
    }
    fn two_adic_subgroup(n_log: usize) -> Vec<Self> {
        Self::primitive_root_of_unity(n_log).powers().take(1 << n_log).collect()
    }
    fn cyclic_subgroup_known_order(generator: Self, order: usize) -> Vec<Self> {
        generator.powers().take(order).collect()
    }
    fn cyclic_subgroup_coset_known_order(generator: Self, shift: Self, order: usize) -> Vec<Self> {
        Self::cyclic_subgroup_known_order(generator, order).into_iter().map(|x| x * shift).collect()
    }
    fn coset_shift() -> Self { Self::MULTIPLICATIVE_GROUP_GENERATOR }
    fn from_bool(b: bool) -> Self { if b { Self::ONE } else { Self::ZERO } }
    fn from_canonical_u64(n: u64) -> Self;
    fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_noncanonical_u128(n: u128) -> Self;
    fn from_noncanonical_u64(n: u64) -> Self;
    fn from_noncanonical_i64(n: i64) -> Self;
    fn exp_power_of_2(&self, power_log: usize) -> Self {
        let mut r = *self;
        for _ in 0..power_log { r = r.square(); }
        r
    }
    fn exp_u64(&self, power: u64) -> Self {
        let mut cur = *self;
        let mut prod = Self::ONE;
        for j in 0..(64 - power.leading_zeros()) {
            if (power >> j) & 1 != 0 { prod *= cur; }
            cur = cur.square();
        }
        prod
    }
    fn powers(&self) -> Powers<Self> { Powers { base: *self, current: Self::ONE } }
    fn multiply_accumulate(&self, x: Self, y: Self) -> Self { *self + x * y }
}

#[derive(Clone, Debug)]
pub struct Powers<F: Field> { base: F, current: F }
impl<F: Field> Iterator for Powers<F> {
    type Item = F;
    fn next(&mut self) -> Option<F> {
        let r = self.current;
        self.current *= self.base;
        Some(r)
    }
}

pub trait Field64: Field { const ORDER: u64; }
pub trait PrimeField: Field {}
pub trait PrimeField64: PrimeField + Field64 {
    fn to_canonical_u64(&self) -> u64;
    fn to_noncanonical_u64(&self) -> u64;
    fn to_canonical(&self) -> Self { Self::from_canonical_u64(self.to_canonical_u64()) }
    /// Representative in (-p/2, p/2].
    fn to_canonical_i64(&self) -> i64 {
        let c = self.to_canonical_u64();
        if c > Self::ORDER / 2 { -((Self::ORDER - c) as i64) } else { c as i64 }
    }
}
