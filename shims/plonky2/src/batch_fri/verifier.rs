use anyhow::{ensure, Result};

use crate::field::extension::Extendable;
use crate::fri::oracle::token_of;
use crate::fri::proof::{FriChallenges, FriProof};
use crate::fri::structure::{FriInstanceInfo, FriOpenings};
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::GenericConfig;

#[allow(clippy::too_many_arguments)]
pub fn verify_batch_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
    degree_bits: &[usize],
    instances: &[FriInstanceInfo<F, D>],
    openings: &[FriOpenings<F, D>],
    _challenges: &FriChallenges<F, D>,
    caps: &[MerkleCap<F, C::Hasher>],
    proof: &FriProof<F, C::Hasher, D>,
    params: &FriParams,
) -> Result<()> {
    let siblings = params.degree_bits + params.config.rate_bits - params.config.cap_height;
    ensure!(!proof.query_round_proofs.is_empty(), "no queries");
    ensure!(params.degree_bits == degree_bits[0] && degree_bits.len() == instances.len() && instances.len() == openings.len(), "shape");
    for q in &proof.query_round_proofs {
        ensure!(q.initial_trees_proof.evals_proofs.len() == caps.len());
        for e in &q.initial_trees_proof.evals_proofs { ensure!(e.1.siblings.len() == siblings, "shape"); }
    }
    let mut shapes = vec![];
    let mut points = vec![];
    let mut values = vec![];
    for (inst, open) in instances.iter().zip(openings) {
        ensure!(inst.oracles.len() == caps.len());
        ensure!(inst.batches.len() == open.batches.len(), "batches");
        for (b, o) in inst.batches.iter().zip(&open.batches) {
            ensure!(b.polynomials.len() == o.values.len(), "opening count");
            points.push(b.point);
            values.push(o.values.clone());
        }
        shapes.push(inst.batches.iter().map(|b| b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect()).collect());
    }
    let t = token_of::<F, C::Hasher, D>(super::batch_shape(&shapes, degree_bits), &caps.iter().collect::<Vec<_>>(), &points, &values);
    ensure!(proof.final_poly.coeffs == t, "FRI opening proof is invalid");
    Ok(())
}
