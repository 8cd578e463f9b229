use std::collections::HashMap;

use super::ext_target::ExtensionTarget;
use super::target::{BoolTarget, Target};
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::types::Field;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::circuit_data::{VerifierCircuitTarget, VerifierOnlyCircuitData};
use crate::plonk::config::{AlgebraicHasher, GenericConfig, Hasher};
use crate::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};

pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, target: Target, value: F);
    fn set_target_arr(&mut self, t: &[Target], v: &[F]) { assert_eq!(t.len(), v.len()); for (t, v) in t.iter().zip(v) { self.set_target(*t, *v); } }
    fn set_hash_target(&mut self, ht: HashOutTarget, value: HashOut<F>) {
        for (t, v) in ht.elements.into_iter().zip(value.elements) { self.set_target(t, v); }
    }
    fn set_cap_target<H: Hasher<F, Hash = HashOut<F>>>(&mut self, ct: &MerkleCapTarget, value: &MerkleCap<F, H>) where F: RichField {
        for (t, v) in ct.0.iter().zip(&value.0) { self.set_hash_target(*t, *v); }
    }
    fn set_bool_target(&mut self, t: BoolTarget, v: bool) { self.set_target(t.target, F::from_bool(v)) }
    fn set_extension_target<const D: usize>(&mut self, et: ExtensionTarget<D>, v: F::Extension) where F: RichField + Extendable<D> {
        self.set_target_arr(&et.0, &v.to_basefield_array());
    }
    fn set_extension_targets<const D: usize>(&mut self, et: &[ExtensionTarget<D>], v: &[F::Extension]) where F: RichField + Extendable<D> {
        assert_eq!(et.len(), v.len());
        for (t, v) in et.iter().zip(v) { self.set_extension_target(*t, *v); }
    }
    fn set_fri_openings<const D: usize>(&mut self, t: &crate::fri::structure::FriOpeningsTarget<D>, v: &crate::fri::structure::FriOpenings<F, D>) where F: RichField + Extendable<D> {
        assert_eq!(t.batches.len(), v.batches.len());
        for (a, b) in t.batches.iter().zip(&v.batches) { self.set_extension_targets(&a.values, &b.values); }
    }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &ProofWithPublicInputsTarget<D>, p: &ProofWithPublicInputs<F, C, D>)
    where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        assert_eq!(t.public_inputs.len(), p.public_inputs.len());
        for (t, v) in t.public_inputs.iter().zip(&p.public_inputs) { self.set_target(*t, *v); }
        self.set_hash_target(t.proof.token, p.proof.token);
    }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &VerifierCircuitTarget, v: &VerifierOnlyCircuitData<C, D>)
    where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        self.set_cap_target::<C::Hasher>(&t.constants_sigmas_cap, &v.constants_sigmas_cap);
        self.set_hash_target(t.circuit_digest, v.circuit_digest);
    }
}
pub trait Witness<F: Field>: WitnessWrite<F> {
    fn try_get_target(&self, t: Target) -> Option<F>;
    fn get_target(&self, t: Target) -> F { self.try_get_target(t).unwrap() }
}

#[derive(Clone, Debug, Default)]
pub struct PartialWitness<F: Field> { pub target_values: HashMap<Target, F> }
impl<F: Field> PartialWitness<F> {
    pub fn new() -> Self { Self { target_values: HashMap::new() } }
}
impl<F: Field> WitnessWrite<F> for PartialWitness<F> {
    fn set_target(&mut self, t: Target, v: F) {
        if let Some(o) = self.target_values.insert(t, v) {
            assert_eq!(v, o, "Target {t:?} was set twice with different values: {o} {v}");
        }
    }
}
impl<F: Field> Witness<F> for PartialWitness<F> {
    fn try_get_target(&self, t: Target) -> Option<F> { self.target_values.get(&t).copied() }
}
