use core::fmt::Debug;

use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::field::extension::quadratic::QuadraticExtension;
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::goldilocks_field::GoldilocksField;
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::poseidon::PoseidonHash;
use crate::hash::poseidon2::Poseidon2Hash;
use crate::iop::target::Target;

pub trait GenericHashOut<F: RichField>: Copy + Clone + Debug + Eq + PartialEq + Send + Sync + Serialize + DeserializeOwned {
    fn to_bytes(&self) -> Vec<u8>;
    fn from_bytes(bytes: &[u8]) -> Self;
    fn to_vec(&self) -> Vec<F>;
}

pub trait Hasher<F: RichField>: Sized + Copy + Debug + Eq + PartialEq + Send + Sync + 'static {
    const HASH_SIZE: usize;
    type Hash: GenericHashOut<F>;
    type Permutation: PlonkyPermutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash;
    fn hash_pad(input: &[F]) -> Self::Hash {
        let mut v = input.to_vec();
        v.push(F::ONE);
        while (v.len() + 1) % <Self::Permutation as PlonkyPermutation<F>>::RATE != 0 { v.push(F::ZERO); }
        v.push(F::ONE);
        Self::hash_no_pad(&v)
    }
    fn hash_or_noop(inputs: &[F]) -> Self::Hash {
        if inputs.len() * 8 <= Self::HASH_SIZE {
            let mut b = vec![0u8; Self::HASH_SIZE];
            for (i, x) in inputs.iter().enumerate() { b[i * 8..i * 8 + 8].copy_from_slice(&x.to_canonical_u64().to_le_bytes()); }
            Self::Hash::from_bytes(&b)
        } else { Self::hash_no_pad(inputs) }
    }
    fn two_to_one(left: Self::Hash, right: Self::Hash) -> Self::Hash;
}

pub trait AlgebraicHasher<F: RichField>: Hasher<F, Hash = HashOut<F>> {
    type AlgebraicPermutation: PlonkyPermutation<Target>;
    const KIND: u8;
}

pub trait GenericConfig<const D: usize>: Debug + Clone + Sync + Sized + Send + Eq + PartialEq + 'static {
    type F: RichField + Extendable<D, Extension = Self::FE>;
    type FE: FieldExtension<D, BaseField = Self::F>;
    type Hasher: Hasher<Self::F>;
    type InnerHasher: AlgebraicHasher<Self::F>;
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Serialize)]
pub struct PoseidonGoldilocksConfig;
impl GenericConfig<2> for PoseidonGoldilocksConfig {
    type F = GoldilocksField;
    type FE = QuadraticExtension<Self::F>;
    type Hasher = PoseidonHash;
    type InnerHasher = PoseidonHash;
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Serialize)]
pub struct Poseidon2GoldilocksConfig;
impl GenericConfig<2> for Poseidon2GoldilocksConfig {
    type F = GoldilocksField;
    type FE = QuadraticExtension<Self::F>;
    type Hasher = Poseidon2Hash;
    type InnerHasher = Poseidon2Hash;
}
