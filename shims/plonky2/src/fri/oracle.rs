use crate::field::extension::{Extendable, FieldExtension};
use crate::field::packed::PackedField;
use crate::field::polynomial::{PolynomialCoeffs, PolynomialValues};
use crate::field::types::Field;
use crate::fri::proof::{FriInitialTreeProof, FriProof, FriQueryRound, MerkleProof};
use crate::fri::structure::FriInstanceInfo;
use crate::fri::FriParams;
use crate::hash::hash_types::RichField;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::challenger::Challenger;
use crate::plonk::config::{GenericConfig, GenericHashOut, Hasher};
use crate::util::log2_strict;
use crate::util::timing::TimingTree;

#[derive(Clone, Debug)]
pub struct MerkleTree<F: RichField, H: Hasher<F>> { pub cap: MerkleCap<F, H> }

#[derive(Clone, Debug)]
pub struct PolynomialBatch<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> {
    pub polynomials: Vec<PolynomialCoeffs<F>>,
    pub merkle_tree: MerkleTree<F, C::Hasher>,
    pub degree_log: usize,
    pub rate_bits: usize,
    pub blinding: bool,
    lde: Vec<Vec<F>>,
}

impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> PolynomialBatch<F, C, D> {
    pub fn from_values(values: Vec<PolynomialValues<F>>, rate_bits: usize, blinding: bool, cap_height: usize, t: &mut TimingTree, x: Option<&()>) -> Self
    {
        Self::from_coeffs(crate::field::polynomial::doctored(values).into_iter().map(|v| v.ifft()).collect(), rate_bits, blinding, cap_height, t, x)
    }
    pub fn from_coeffs(polynomials: Vec<PolynomialCoeffs<F>>, rate_bits: usize, blinding: bool, cap_height: usize, _t: &mut TimingTree, _x: Option<&()>) -> Self
    {
        let degree = polynomials[0].len();
        let degree_log = log2_strict(degree);
        assert!(polynomials.iter().all(|p| p.len() == degree));
        let mut flat: Vec<F> = Vec::with_capacity(polynomials.len() * degree + 2);
        flat.push(F::from_canonical_usize(polynomials.len()));
        flat.push(F::from_canonical_usize(degree));
        for p in &polynomials { flat.extend_from_slice(&p.coeffs); }
        let root = C::Hasher::hash_no_pad(&flat);
        let cap = MerkleCap((0..1 << cap_height).map(|i| {
            let mut v = root.to_vec();
            v.push(F::from_canonical_usize(i));
            C::Hasher::hash_no_pad(&v)
        }).collect());
        let lde = polynomials.iter().map(|p| p.lde(rate_bits).coset_fft(F::coset_shift()).values).collect();
        Self { polynomials, merkle_tree: MerkleTree { cap }, degree_log, rate_bits, blinding, lde }
    }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, i_start: usize, step: usize) -> Vec<P> {
        assert_eq!(P::WIDTH, 1);
        self.lde.iter().map(|v| P::from(v[i_start * step])).collect()
    }
    pub fn prove_openings(
        instance: &FriInstanceInfo<F, D>,
        oracles: &[&Self],
        challenger: &mut Challenger<F, C::Hasher>,
        params: &FriParams,
        _t: &mut TimingTree,
    ) -> FriProof<F, C::Hasher, D> {
        let _alpha = challenger.get_extension_challenge::<D>();
        assert_eq!(instance.oracles.len(), oracles.len());
        for (i, o) in instance.oracles.iter().zip(oracles) {
            assert_eq!(i.num_polys, o.polynomials.len(), "oracle size");
            assert_eq!(o.degree_log, params.degree_bits, "oracle degree");
        }
        let caps: Vec<&MerkleCap<F, C::Hasher>> = oracles.iter().map(|o| &o.merkle_tree.cap).collect();
        let values: Vec<Vec<F::Extension>> = instance.batches.iter().map(|b| {
            b.polynomials.iter().map(|p| {
                oracles[p.oracle_index].polynomials[p.polynomial_index].coeffs.iter().rev()
                    .fold(F::Extension::ZERO, |a, &c| a * b.point + F::Extension::from_basefield(c))
            }).collect()
        }).collect();
        let inst: Vec<(F::Extension, Vec<(usize, usize)>)> = instance.batches.iter()
            .map(|b| (b.point, b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect())).collect();
        let token = token::<F, C::Hasher, D>(&caps, &inst, &values, params.degree_bits);
        let siblings = params.degree_bits + params.config.rate_bits - params.config.cap_height;
        let zero = C::Hasher::hash_no_pad(&[F::ZERO]);
        let final_poly = PolynomialCoeffs::new(token);
        challenger.observe_extension_elements::<D>(&final_poly.coeffs);
        challenger.observe_element(F::ZERO);
        // the response to the proof of work, and the queries
        challenger.get_n_challenges(1 + params.config.num_query_rounds);
        FriProof {
            commit_phase_merkle_caps: vec![],
            query_round_proofs: vec![FriQueryRound {
                initial_trees_proof: FriInitialTreeProof {
                    evals_proofs: oracles.iter().map(|_| (vec![], MerkleProof { siblings: vec![zero; siblings] })).collect(),
                },
            }],
            final_poly,
            pow_witness: F::ZERO,
        }
    }
}

/// The input of the token hash, laid out so that a circuit can recompute it.
pub fn token_preimage_shape(inst: &[Vec<(usize, usize)>], degree_bits: usize) -> Vec<u64> {
    let mut v = vec![0x4652_4921, degree_bits as u64, inst.len() as u64];
    for b in inst {
        v.push(b.len() as u64);
        v.extend(b.iter().map(|(o, p)| (*o as u64) << 32 | *p as u64));
    }
    v
}
pub(crate) fn token<F: RichField + Extendable<D>, H: Hasher<F>, const D: usize>(
    caps: &[&MerkleCap<F, H>],
    inst: &[(F::Extension, Vec<(usize, usize)>)],
    values: &[Vec<F::Extension>],
    degree_bits: usize,
) -> Vec<F::Extension> {
    let shape: Vec<Vec<(usize, usize)>> = inst.iter().map(|b| b.1.clone()).collect();
    let points: Vec<F::Extension> = inst.iter().map(|b| b.0).collect();
    token_of::<F, H, D>(token_preimage_shape(&shape, degree_bits), caps, &points, values)
}
pub(crate) fn token_of<F: RichField + Extendable<D>, H: Hasher<F>, const D: usize>(
    shape: Vec<u64>,
    caps: &[&MerkleCap<F, H>],
    points: &[F::Extension],
    values: &[Vec<F::Extension>],
) -> Vec<F::Extension> {
    let mut v: Vec<F> = shape.into_iter().map(F::from_noncanonical_u64).collect();
    for c in caps { v.extend(c.flatten()); }
    for p in points { v.extend(p.to_basefield_array()); }
    for b in values { for x in b { v.extend(x.to_basefield_array()); } }
    let h = crate::hash::hashing::hash_n_to_hash_no_pad::<F, crate::hash::poseidon2::Poseidon2Permutation<F>>(&v);
    h.elements.chunks(D).map(|c| {
        let mut a = [F::ZERO; D];
        a.copy_from_slice(c);
        F::Extension::from_basefield_array(a)
    }).collect()
}
