//! Idealised FRI. A Merkle cap is a hash of the committed polynomials'
//! coefficients. An opening proof is a token `H(caps, degree, points, values)`
//! that only `PolynomialBatch::prove_openings` makes, for the true values: the
//! ideal functionality of a sound and complete polynomial commitment scheme.
//! The token travels in `final_poly`.
pub mod oracle;
pub mod proof;
pub mod reduction_strategies;
pub mod structure;
pub mod verifier;
pub mod witness_util;

use serde::{Deserialize, Serialize};

pub use self::reduction_strategies::FriReductionStrategy;

#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize, Hash)]
pub struct FriConfig {
    pub rate_bits: usize,
    pub cap_height: usize,
    pub proof_of_work_bits: u32,
    pub reduction_strategy: FriReductionStrategy,
    pub num_query_rounds: usize,
}
impl FriConfig {
    pub fn rate(&self) -> f64 { 1.0 / ((1 << self.rate_bits) as f64) }
    pub fn fri_params(&self, degree_bits: usize, hiding: bool) -> FriParams {
        let reduction_arity_bits = self.reduction_strategy.reduction_arity_bits(degree_bits, self.rate_bits, self.cap_height, self.num_query_rounds);
        FriParams { config: self.clone(), hiding, degree_bits, reduction_arity_bits }
    }
    pub const fn num_cap_elements(&self) -> usize { 1 << self.cap_height }
}

#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize, Hash)]
pub struct FriParams {
    pub config: FriConfig,
    pub hiding: bool,
    pub degree_bits: usize,
    pub reduction_arity_bits: Vec<usize>,
}
impl FriParams {
    pub fn total_arities(&self) -> usize { self.reduction_arity_bits.iter().sum() }
    pub fn lde_bits(&self) -> usize { self.degree_bits + self.config.rate_bits }
    pub fn lde_size(&self) -> usize { 1 << self.lde_bits() }
    pub fn final_poly_bits(&self) -> usize { self.degree_bits - self.total_arities() }
    pub fn final_poly_len(&self) -> usize { 1 << self.final_poly_bits() }
}
