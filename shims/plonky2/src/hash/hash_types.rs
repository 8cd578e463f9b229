use anyhow::ensure;
use serde::{Deserialize, Serialize};

use crate::field::types::{Field, PrimeField64, Sample};
use crate::hash::poseidon2::Poseidon2;
use crate::iop::target::Target;
use crate::plonk::config::GenericHashOut;

pub trait RichField: PrimeField64 + Poseidon2 {}
impl RichField for crate::field::goldilocks_field::GoldilocksField {}

pub const NUM_HASH_OUT_ELTS: usize = 4;

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct HashOut<F: Field> { pub elements: [F; NUM_HASH_OUT_ELTS] }

impl<F: Field> HashOut<F> {
    pub const ZERO: Self = Self { elements: [F::ZERO; NUM_HASH_OUT_ELTS] };
    pub fn from_vec(elements: Vec<F>) -> Self { Self { elements: elements.try_into().unwrap() } }
    pub fn from_partial(e: &[F]) -> Self {
        let mut r = Self::ZERO;
        r.elements[..e.len()].copy_from_slice(e);
        r
    }
}
impl<F: Field> From<[F; NUM_HASH_OUT_ELTS]> for HashOut<F> { fn from(elements: [F; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } } }
impl<F: Field> TryFrom<&[F]> for HashOut<F> {
    type Error = anyhow::Error;
    fn try_from(e: &[F]) -> Result<Self, Self::Error> {
        ensure!(e.len() == NUM_HASH_OUT_ELTS);
        Ok(Self { elements: e.try_into().unwrap() })
    }
}
impl<F: Field> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
impl<F: Field> Sample for HashOut<F> {
    fn sample<R: rand::RngCore + ?Sized>(rng: &mut R) -> Self { Self { elements: core::array::from_fn(|_| F::sample(rng)) } }
}
impl<F: RichField> GenericHashOut<F> for HashOut<F> {
    fn to_bytes(&self) -> Vec<u8> {
        self.elements.into_iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect()
    }
    fn from_bytes(bytes: &[u8]) -> Self {
        Self { elements: core::array::from_fn(|i| F::from_canonical_u64(u64::from_le_bytes(bytes[i * 8..i * 8 + 8].try_into().unwrap()))) }
    }
    fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct HashOutTarget { pub elements: [Target; NUM_HASH_OUT_ELTS] }
impl HashOutTarget {
    pub fn from_vec(elements: Vec<Target>) -> Self { Self { elements: elements.try_into().unwrap() } }
}
impl From<[Target; NUM_HASH_OUT_ELTS]> for HashOutTarget { fn from(elements: [Target; NUM_HASH_OUT_ELTS]) -> Self { Self { elements } } }
impl TryFrom<&[Target]> for HashOutTarget {
    type Error = anyhow::Error;
    fn try_from(e: &[Target]) -> Result<Self, Self::Error> {
        ensure!(e.len() == NUM_HASH_OUT_ELTS);
        Ok(Self { elements: e.try_into().unwrap() })
    }
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
