use serde::{Deserialize, Serialize};

use crate::field::extension::Extendable;
use crate::hash::hash_types::{HashOut, HashOutTarget, RichField};
use crate::iop::target::Target;
use crate::plonk::config::GenericConfig;

/// Idealised SNARK proof: a token only `CircuitData::prove` makes.
#[derive(Copy, Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct Proof<F: RichField> { pub token: HashOut<F> }
#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub proof: Proof<F>,
    pub public_inputs: Vec<F>,
    #[serde(skip)]
    pub _c: core::marker::PhantomData<C>,
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ProofTarget<const D: usize> { pub token: HashOutTarget }
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct ProofWithPublicInputsTarget<const D: usize> {
    pub proof: ProofTarget<D>,
    pub public_inputs: Vec<Target>,
}
