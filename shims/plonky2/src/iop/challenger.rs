//! plonky2's duplex challenger (same sponge discipline as upstream).
use core::marker::PhantomData;

use super::ext_target::ExtensionTarget;
use super::target::Target;
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::polynomial::PolynomialCoeffs;
use crate::fri::proof::{FriChallenges, FriChallengesTarget};
use crate::fri::structure::{FriOpenings, FriOpeningsTarget};
use crate::fri::FriConfig;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::circuit_builder::CircuitBuilder;
use crate::plonk::config::{AlgebraicHasher, GenericConfig, GenericHashOut, Hasher};

#[derive(Clone)]
pub struct Challenger<F: RichField, H: Hasher<F>> {
    pub sponge_state: H::Permutation,
    pub input_buffer: Vec<F>,
    output_buffer: Vec<F>,
}
impl<F: RichField, H: Hasher<F>> Default for Challenger<F, H> { fn default() -> Self { Self::new() } }
impl<F: RichField, H: Hasher<F>> Challenger<F, H> {
    pub fn new() -> Self {
        Self { sponge_state: H::Permutation::new(core::iter::repeat(F::ZERO)), input_buffer: vec![], output_buffer: vec![] }
    }
    pub fn observe_element(&mut self, e: F) {
        self.output_buffer.clear();
        self.input_buffer.push(e);
        if self.input_buffer.len() == H::Permutation::RATE { self.duplexing(); }
    }
    pub fn observe_extension_element<const D: usize>(&mut self, e: &F::Extension) where F: RichField + Extendable<D> {
        self.observe_elements(&e.to_basefield_array());
    }
    pub fn observe_elements(&mut self, e: &[F]) { for &x in e { self.observe_element(x); } }
    pub fn observe_extension_elements<const D: usize>(&mut self, e: &[F::Extension]) where F: RichField + Extendable<D> {
        for x in e { self.observe_extension_element::<D>(x); }
    }
    pub fn observe_openings<const D: usize>(&mut self, o: &FriOpenings<F, D>) where F: RichField + Extendable<D> {
        for b in &o.batches { self.observe_extension_elements::<D>(&b.values); }
    }
    pub fn observe_hash<OH: Hasher<F>>(&mut self, hash: OH::Hash) { self.observe_elements(&hash.to_vec()) }
    pub fn observe_cap<OH: Hasher<F>>(&mut self, cap: &MerkleCap<F, OH>) {
        for h in &cap.0 { self.observe_hash::<OH>(*h); }
    }
    pub fn get_challenge(&mut self) -> F {
        if !self.input_buffer.is_empty() || self.output_buffer.is_empty() { self.duplexing(); }
        self.output_buffer.pop().expect("Output buffer should be non-empty")
    }
    pub fn get_n_challenges(&mut self, n: usize) -> Vec<F> { (0..n).map(|_| self.get_challenge()).collect() }
    pub fn get_hash(&mut self) -> HashOut<F> { HashOut { elements: core::array::from_fn(|_| self.get_challenge()) } }
    pub fn get_extension_challenge<const D: usize>(&mut self) -> F::Extension where F: RichField + Extendable<D> {
        let mut a = [F::ZERO; D];
        a.copy_from_slice(&self.get_n_challenges(D));
        F::Extension::from_basefield_array(a)
    }
    pub fn get_n_extension_challenges<const D: usize>(&mut self, n: usize) -> Vec<F::Extension> where F: RichField + Extendable<D> {
        (0..n).map(|_| self.get_extension_challenge::<D>()).collect()
    }
    pub fn duplexing(&mut self) {
        assert!(self.input_buffer.len() <= H::Permutation::RATE);
        self.sponge_state.set_from_iter(self.input_buffer.drain(..), 0);
        self.sponge_state.permute();
        self.output_buffer.clear();
        self.output_buffer.extend_from_slice(self.sponge_state.squeeze());
    }
    pub fn compact(&mut self) -> H::Permutation {
        if !self.input_buffer.is_empty() { self.duplexing(); }
        self.output_buffer.clear();
        self.sponge_state
    }
    pub fn fri_challenges<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self,
        caps: &[MerkleCap<F, C::Hasher>],
        final_poly: &PolynomialCoeffs<F::Extension>,
        pow_witness: F,
        degree_bits: usize,
        config: &FriConfig,
    ) -> FriChallenges<F, D>
    where F: RichField + Extendable<D> {
        let fri_alpha = self.get_extension_challenge::<D>();
        let fri_betas = caps.iter().map(|c| { self.observe_cap::<C::Hasher>(c); self.get_extension_challenge::<D>() }).collect();
        self.observe_extension_elements::<D>(&final_poly.coeffs);
        self.observe_element(pow_witness);
        let fri_pow_response = self.get_challenge();
        let lde = 1usize << (degree_bits + config.rate_bits);
        let fri_query_indices = (0..config.num_query_rounds).map(|_| self.get_challenge().to_canonical_u64() as usize % lde).collect();
        FriChallenges { fri_alpha, fri_betas, fri_pow_response, fri_query_indices }
    }
}

#[derive(Clone)]
pub struct RecursiveChallenger<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> {
    sponge_state: [Target; 12],
    input_buffer: Vec<Target>,
    output_buffer: Vec<Target>,
    _p: PhantomData<(F, H)>,
}
impl<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> RecursiveChallenger<F, H, D> {
    pub fn new(b: &mut CircuitBuilder<F, D>) -> Self {
        let z = b.zero();
        Self { sponge_state: [z; 12], input_buffer: vec![], output_buffer: vec![], _p: PhantomData }
    }
    pub fn from_state(s: H::AlgebraicPermutation) -> Self {
        Self { sponge_state: s.as_ref().try_into().unwrap(), input_buffer: vec![], output_buffer: vec![], _p: PhantomData }
    }
    pub fn observe_element(&mut self, t: Target) {
        self.output_buffer.clear();
        self.input_buffer.push(t);
    }
    pub fn observe_elements(&mut self, t: &[Target]) { for &x in t { self.observe_element(x); } }
    pub fn observe_hash(&mut self, h: &HashOutTarget) { self.observe_elements(&h.elements) }
    pub fn observe_cap(&mut self, c: &MerkleCapTarget) { for h in &c.0 { self.observe_hash(h); } }
    pub fn observe_extension_element(&mut self, e: ExtensionTarget<D>) { self.observe_elements(&e.0) }
    pub fn observe_extension_elements(&mut self, e: &[ExtensionTarget<D>]) { for x in e { self.observe_extension_element(*x); } }
    pub fn observe_openings(&mut self, o: &FriOpeningsTarget<D>) {
        for b in &o.batches { self.observe_extension_elements(&b.values); }
    }
    fn absorb(&mut self, b: &mut CircuitBuilder<F, D>) {
        if self.input_buffer.is_empty() { return; }
        for chunk in self.input_buffer.chunks(8) {
            self.sponge_state[..chunk.len()].copy_from_slice(chunk);
            self.sponge_state = b.permute(self.sponge_state);
        }
        self.output_buffer = self.sponge_state[..8].to_vec();
        self.input_buffer.clear();
    }
    pub fn get_challenge(&mut self, b: &mut CircuitBuilder<F, D>) -> Target {
        self.absorb(b);
        if self.output_buffer.is_empty() {
            self.sponge_state = b.permute(self.sponge_state);
            self.output_buffer = self.sponge_state[..8].to_vec();
        }
        self.output_buffer.pop().unwrap()
    }
    pub fn get_n_challenges(&mut self, b: &mut CircuitBuilder<F, D>, n: usize) -> Vec<Target> { (0..n).map(|_| self.get_challenge(b)).collect() }
    pub fn get_extension_challenge(&mut self, b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        ExtensionTarget(self.get_n_challenges(b, D).try_into().unwrap())
    }
    pub fn compact(&mut self, b: &mut CircuitBuilder<F, D>) -> H::AlgebraicPermutation {
        self.absorb(b);
        self.output_buffer.clear();
        H::AlgebraicPermutation::new(self.sponge_state)
    }
    pub fn fri_challenges(
        &mut self,
        b: &mut CircuitBuilder<F, D>,
        caps: &[MerkleCapTarget],
        final_poly: &crate::gadgets::polynomial::PolynomialCoeffsExtTarget<D>,
        pow_witness: Target,
        config: &FriConfig,
    ) -> FriChallengesTarget<D> {
        let fri_alpha = self.get_extension_challenge(b);
        let fri_betas = caps.iter().map(|c| { self.observe_cap(c); self.get_extension_challenge(b) }).collect();
        self.observe_extension_elements(&final_poly.0);
        self.observe_element(pow_witness);
        let fri_pow_response = self.get_challenge(b);
        let fri_query_indices = (0..config.num_query_rounds).map(|_| self.get_challenge(b)).collect();
        FriChallengesTarget { fri_alpha, fri_betas, fri_pow_response, fri_query_indices }
    }
}
