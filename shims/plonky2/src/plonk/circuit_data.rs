use std::collections::BTreeSet;

use anyhow::{ensure, Result};
use serde::{Deserialize, Serialize};

use super::circuit_builder::Circuit;
use crate::field::extension::Extendable;
use crate::fri::{FriConfig, FriReductionStrategy};
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::target::Target;
use crate::iop::witness::PartialWitness;
use crate::plonk::config::{GenericConfig, GenericHashOut, Hasher};
use crate::plonk::proof::{Proof, ProofWithPublicInputs};

#[derive(Clone, Debug, Eq, PartialEq, Serialize)]
pub struct CircuitConfig {
    pub num_wires: usize,
    pub num_routed_wires: usize,
    pub num_constants: usize,
    pub security_bits: usize,
    pub num_challenges: usize,
    pub zero_knowledge: bool,
    pub max_quotient_degree_factor: usize,
    pub fri_config: FriConfig,
}
impl CircuitConfig {
    pub const fn standard_recursion_config() -> Self {
        Self {
            num_wires: 135,
            num_routed_wires: 80,
            num_constants: 2,
            security_bits: 100,
            num_challenges: 2,
            zero_knowledge: false,
            max_quotient_degree_factor: 8,
            fri_config: FriConfig {
                rate_bits: 3,
                cap_height: 4,
                proof_of_work_bits: 16,
                reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5),
                num_query_rounds: 28,
            },
        }
    }
}
impl Default for CircuitConfig { fn default() -> Self { Self::standard_recursion_config() } }

/// The name of a kind of gate.
#[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Serialize, Deserialize)]
pub struct GateRef(pub String);

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct CommonCircuitData<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    pub degree_bits: usize,
    pub gates: Vec<GateRef>,
    pub num_public_inputs: usize,
    pub _f: core::marker::PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> CommonCircuitData<F, D> {
    pub const fn degree_bits(&self) -> usize { self.degree_bits }
    pub const fn degree(&self) -> usize { 1 << self.degree_bits }
    pub fn description(&self) -> String { format!("{:?} {} {:?} {}", self.config, self.degree_bits, self.gates, self.num_public_inputs) }
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> {
    pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>,
    pub circuit_digest: <<C as GenericConfig<D>>::Hasher as Hasher<C::F>>::Hash,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct VerifierCircuitTarget {
    pub constants_sigmas_cap: MerkleCapTarget,
    pub circuit_digest: HashOutTarget,
}
#[derive(Debug, PartialEq, Eq)]
pub struct ProverOnlyCircuitData<F: RichField + Extendable<D>, const D: usize> {
    pub public_inputs: Vec<Target>,
    /// The idealised circuit itself (not part of upstream's API).
    pub circuit: Circuit<F, D>,
}
#[derive(Debug, PartialEq, Eq)]
pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub prover_only: ProverOnlyCircuitData<F, D>,
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}

/// The ideal functionality: `prove` hands out a token bound to the circuit and
/// the public inputs; nobody else can make one.
pub(crate) fn token<F: RichField>(common: &str, cap: &[F], digest: &[F], pis: &[F]) -> HashOut<F> {
    let mut v: Vec<F> = vec![F::from_canonical_u64(0x504c_4f4e)];
    v.extend(super::circuit_builder::digest_of::<F>(&common).elements);
    v.push(F::from_canonical_usize(cap.len()));
    v.extend_from_slice(cap);
    v.extend_from_slice(digest);
    v.push(F::from_canonical_usize(pis.len()));
    v.extend_from_slice(pis);
    crate::hash::hashing::hash_n_to_hash_no_pad::<F, crate::hash::poseidon2::Poseidon2Permutation<F>>(&v)
}

thread_local!(static LAST: std::cell::RefCell<Option<std::collections::HashMap<Target, u64>>> = const { std::cell::RefCell::new(None) });
/// Not part of upstream's API: what `f` returns and the witness its last call
/// of `prove` was given.
pub fn recording<T>(f: impl FnOnce() -> T) -> (T, std::collections::HashMap<Target, u64>) {
    LAST.with(|l| *l.borrow_mut() = Some(Default::default()));
    let r = f();
    (r, LAST.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    fn token(&self, pis: &[F]) -> HashOut<F> {
        token(&self.common.description(), &self.verifier_only.constants_sigmas_cap.flatten(), &self.verifier_only.circuit_digest.to_vec(), pis)
    }
    /// Not part of upstream's API: a proof with these public inputs, whether or
    /// not there is a witness for them (a hypothetical child).
    pub fn forge(&self, public_inputs: Vec<F>) -> ProofWithPublicInputs<F, C, D> {
        ProofWithPublicInputs { proof: Proof { token: self.token(&public_inputs) }, public_inputs, _c: Default::default() }
    }
    pub fn prove(&self, inputs: PartialWitness<F>) -> Result<ProofWithPublicInputs<F, C, D>> {
        LAST.with(|l| if let Some(m) = l.borrow_mut().as_mut() {
            *m = inputs.target_values.iter().map(|(t, v)| (*t, v.to_canonical_u64())).collect();
        });
        match self.prover_only.circuit.evaluate(&inputs.target_values, &Default::default()) {
            Ok(values) => {
                let public_inputs: Vec<F> = self.prover_only.public_inputs.iter().map(|t| values.get(*t)).collect();
                Ok(ProofWithPublicInputs { proof: Proof { token: self.token(&public_inputs) }, public_inputs, _c: Default::default() })
            }
            Err(e) => {
                // Upstream's witness generation panics on conflicts.
                if crate::plonk::circuit_builder::panics() { panic!("{e}"); }
                Err(anyhow::anyhow!("{e}"))
            }
        }
    }
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> {
        ensure!(p.public_inputs.len() == self.common.num_public_inputs, "Number of public inputs doesn't match circuit data.");
        ensure!(self.token(&p.public_inputs) == p.proof.token, "invalid proof");
        Ok(())
    }
    pub fn verifier_data(&self) -> VerifierCircuitData<F, C, D> {
        VerifierCircuitData { verifier_only: self.verifier_only.clone(), common: self.common.clone() }
    }
}
#[derive(Clone, Debug)]
pub struct VerifierCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub verifier_only: VerifierOnlyCircuitData<C, D>,
    pub common: CommonCircuitData<F, D>,
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> VerifierCircuitData<F, C, D> {
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> Result<()> {
        ensure!(p.public_inputs.len() == self.common.num_public_inputs);
        let t = token(&self.common.description(), &self.verifier_only.constants_sigmas_cap.flatten(), &self.verifier_only.circuit_digest.to_vec(), &p.public_inputs);
        ensure!(t == p.proof.token, "invalid proof");
        Ok(())
    }
}
#[allow(unused)]
fn _g(_: BTreeSet<GateRef>) {}
