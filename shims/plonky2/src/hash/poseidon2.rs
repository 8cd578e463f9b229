//! Poseidon2 over Goldilocks, width 12. Same structure as in the fork (as the
//! repository's own circuit and trace generator fix it); the round constants are
//! generated, not the fork's.
use core::fmt::Debug;

use super::hash_types::{HashOut, RichField};
use super::hashing::{compress, hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::PrimeField64;
use crate::plonk::config::{AlgebraicHasher, Hasher};

pub const WIDTH: usize = 12;
pub const SPONGE_RATE: usize = 8;
pub const SPONGE_CAPACITY: usize = 4;
pub const ROUND_F_BEGIN: usize = 4;
pub const ROUND_F_END: usize = 2 * ROUND_F_BEGIN;
pub const ROUND_P: usize = 22;

pub trait Poseidon2: PrimeField64 {
    const MAT_DIAG12_M_1: [u64; WIDTH];
    const RC12: [u64; WIDTH * ROUND_F_END];
    const RC12_MID: [u64; ROUND_P];

    fn sbox_monomial(x: Self) -> Self {
        let x2 = x * x;
        let x4 = x2 * x2;
        x4 * x2 * x
    }
    fn sbox_layer(s: &mut [Self; WIDTH]) { for x in s.iter_mut() { *x = Self::sbox_monomial(*x); } }
    fn constant_layer(s: &mut [Self; WIDTH], round: usize) {
        for (i, x) in s.iter_mut().enumerate() { *x += Self::from_noncanonical_u64(Self::RC12[round + i]); }
    }
    fn matmul_external(s: &mut [Self; WIDTH]) {
        for c in s.chunks_mut(4) {
            let t0 = c[0] + c[1];
            let t1 = c[2] + c[3];
            let t2 = c[1].double() + t1;
            let t3 = c[3].double() + t0;
            let t4 = t1.double().double() + t3;
            let t5 = t0.double().double() + t2;
            c[0] = t3 + t5;
            c[1] = t5;
            c[2] = t2 + t4;
            c[3] = t4;
        }
        let mut st = [Self::ZERO; 4];
        for l in 0..4 { st[l] = s[l] + s[4 + l] + s[8 + l]; }
        for i in 0..WIDTH { s[i] += st[i % 4]; }
    }
    fn matmul_internal(s: &mut [Self; WIDTH], diag: &[u64; WIDTH]) {
        let mut sum = Self::ZERO;
        for x in s.iter() { sum += *x; }
        for i in 0..WIDTH { s[i] = s[i] * (Self::from_noncanonical_u64(diag[i]) - Self::ONE) + sum; }
    }
    fn poseidon2(input: [Self; WIDTH]) -> [Self; WIDTH] {
        let mut s = input;
        Self::matmul_external(&mut s);
        for r in 0..ROUND_F_BEGIN {
            Self::constant_layer(&mut s, r);
            Self::sbox_layer(&mut s);
            Self::matmul_external(&mut s);
        }
        for r in 0..ROUND_P {
            s[0] += Self::from_noncanonical_u64(Self::RC12_MID[r]);
            s[0] = Self::sbox_monomial(s[0]);
            Self::matmul_internal(&mut s, &Self::MAT_DIAG12_M_1);
        }
        for r in ROUND_F_BEGIN..ROUND_F_END {
            Self::constant_layer(&mut s, r);
            Self::sbox_layer(&mut s);
            Self::matmul_external(&mut s);
        }
        s
    }
}

const fn splitmix(seed: u64) -> u64 {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z = z ^ (z >> 31);
    z % 0xFFFF_FFFF_0000_0001
}
const fn consts<const N: usize>(off: u64) -> [u64; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N { r[i] = splitmix(off + i as u64); i += 1; }
    r
}
impl Poseidon2 for GoldilocksField {
    const MAT_DIAG12_M_1: [u64; WIDTH] = consts(1000);
    const RC12: [u64; WIDTH * ROUND_F_END] = consts(2000);
    const RC12_MID: [u64; ROUND_P] = consts(3000);
}

#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Poseidon2Permutation<T> { state: [T; WIDTH] }
impl<T> AsRef<[T]> for Poseidon2Permutation<T> { fn as_ref(&self) -> &[T] { &self.state } }

pub trait Permuter: Sized { fn permute(input: [Self; WIDTH]) -> [Self; WIDTH]; }
impl<F: Poseidon2> Permuter for F { fn permute(input: [Self; WIDTH]) -> [Self; WIDTH] { F::poseidon2(input) } }
impl Permuter for crate::iop::target::Target {
    fn permute(_: [Self; WIDTH]) -> [Self; WIDTH] { panic!("Call `permute_swapped()` instead of `permute()`"); }
}

impl<T: Copy + Debug + Default + Eq + Permuter + Send + Sync> PlonkyPermutation<T> for Poseidon2Permutation<T> {
    const RATE: usize = SPONGE_RATE;
    const WIDTH: usize = WIDTH;
    fn new<I: IntoIterator<Item = T>>(elts: I) -> Self {
        let mut p = Self { state: [T::default(); WIDTH] };
        p.set_from_iter(elts, 0);
        p
    }
    fn set_elt(&mut self, elt: T, idx: usize) { self.state[idx] = elt; }
    fn set_from_slice(&mut self, elts: &[T], start: usize) { self.state[start..start + elts.len()].copy_from_slice(elts); }
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start: usize) {
        for (s, e) in self.state[start..].iter_mut().zip(elts) { *s = e; }
    }
    fn permute(&mut self) { self.state = T::permute(self.state); }
    fn squeeze(&self) -> &[T] { &self.state[..SPONGE_RATE] }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Poseidon2Hash;
impl<F: RichField> Hasher<F> for Poseidon2Hash {
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    const HASH_SIZE: usize = 32;
    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }
    fn two_to_one(l: Self::Hash, r: Self::Hash) -> Self::Hash { compress::<F, Self::Permutation>(l, r) }
}
impl<F: RichField> AlgebraicHasher<F> for Poseidon2Hash {
    type AlgebraicPermutation = Poseidon2Permutation<crate::iop::target::Target>;
    const KIND: u8 = 2;
}
