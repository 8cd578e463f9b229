use crate::field::extension::Extendable;
use crate::fri::proof::{FriProof, FriProofTarget};
use crate::hash::hash_types::{HashOut, RichField};
use crate::iop::witness::WitnessWrite;
use crate::plonk::config::AlgebraicHasher;

pub fn set_fri_proof_target<F, W, H, const D: usize>(w: &mut W, t: &FriProofTarget<D>, p: &FriProof<F, H, D>)
where
    F: RichField + Extendable<D>,
    W: WitnessWrite<F> + ?Sized,
    H: AlgebraicHasher<F>, {
    w.set_target(t.pow_witness, p.pow_witness);
    for (a, b) in t.final_poly.0.iter().zip(&p.final_poly.coeffs) { w.set_extension_target(*a, *b); }
    for (a, b) in t.query_round_proofs.iter().zip(&p.query_round_proofs) {
        for (x, y) in a.initial_trees_proof.evals_proofs.iter().zip(&b.initial_trees_proof.evals_proofs) {
            for (h, v) in x.1.siblings.iter().zip(&y.1.siblings) {
                let v: HashOut<F> = *v;
                w.set_hash_target(*h, v);
            }
        }
    }
}
