use anyhow::{ensure, Result};

use crate::field::extension::Extendable;
use crate::fri::oracle::token;
use crate::fri::proof::{FriChallenges, FriProof};
use crate::fri::structure::{FriInstanceInfo, FriOpenings};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::GenericConfig;

pub fn verify_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    instance: &FriInstanceInfo<F, D>,
    openings: &FriOpenings<F, D>,
    _challenges: &FriChallenges<F, D>,
    caps: &[MerkleCap<F, C::Hasher>],
    proof: &FriProof<F, C::Hasher, D>,
    params: &FriParams,
) -> Result<()> {
    let siblings = params.degree_bits + params.config.rate_bits - params.config.cap_height;
    ensure!(!proof.query_round_proofs.is_empty(), "no queries");
    ensure!(instance.oracles.len() == caps.len());
    for q in &proof.query_round_proofs {
        ensure!(q.initial_trees_proof.evals_proofs.len() == caps.len());
        for e in &q.initial_trees_proof.evals_proofs { ensure!(e.1.siblings.len() == siblings, "shape"); }
    }
    ensure!(instance.batches.len() == openings.batches.len(), "batches");
    for (b, o) in instance.batches.iter().zip(&openings.batches) {
        ensure!(b.polynomials.len() == o.values.len(), "opening count");
    }
    let inst: Vec<(F::Extension, Vec<(usize, usize)>)> = instance.batches.iter()
        .map(|b| (b.point, b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect())).collect();
    let values: Vec<Vec<F::Extension>> = openings.batches.iter().map(|b| b.values.clone()).collect();
    let t = token::<F, C::Hasher, D>(&caps.iter().collect::<Vec<_>>(), &inst, &values, params.degree_bits);
    ensure!(proof.final_poly.coeffs == t, "FRI opening proof is invalid");
    Ok(())
}
