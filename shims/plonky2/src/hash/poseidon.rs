//! "Poseidon" in the stand-in is Poseidon2 with a different initial state, so
//! that the two hashers differ.
use super::hash_types::{HashOut, RichField};
use super::hashing::PlonkyPermutation;
use super::poseidon2::Poseidon2Permutation;
use crate::plonk::config::{AlgebraicHasher, Hasher};

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct PoseidonHash;
pub type PoseidonPermutation<T> = Poseidon2Permutation<T>;
impl<F: RichField> Hasher<F> for PoseidonHash {
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    const HASH_SIZE: usize = 32;
    fn hash_no_pad(input: &[F]) -> Self::Hash {
        let mut perm = Poseidon2Permutation::<F>::new([F::ZERO; 11].into_iter().chain([F::from_canonical_u64(0x506f)]));
        for c in input.chunks(8) {
            perm.set_from_slice(c, 0);
            perm.permute();
        }
        HashOut { elements: perm.squeeze()[..4].try_into().unwrap() }
    }
    fn two_to_one(l: Self::Hash, r: Self::Hash) -> Self::Hash {
        let v: Vec<F> = l.elements.into_iter().chain(r.elements).collect();
        <Self as Hasher<F>>::hash_no_pad(&v)
    }
}
impl<F: RichField> AlgebraicHasher<F> for PoseidonHash {
    type AlgebraicPermutation = Poseidon2Permutation<crate::iop::target::Target>;
    const KIND: u8 = 1;
}
