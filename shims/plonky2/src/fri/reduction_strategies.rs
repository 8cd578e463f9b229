use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize, Hash)]
pub enum FriReductionStrategy {
    Fixed(Vec<usize>),
    ConstantArityBits(usize, usize),
    MinSize(Option<usize>),
}
impl FriReductionStrategy {
    pub fn reduction_arity_bits(&self, mut degree_bits: usize, rate_bits: usize, cap_height: usize, _q: usize) -> Vec<usize> {
        match self {
            Self::Fixed(v) => v.clone(),
            Self::ConstantArityBits(arity_bits, final_poly_bits) => {
                let mut r = vec![];
                while degree_bits > *final_poly_bits && degree_bits + rate_bits - *arity_bits >= cap_height {
                    r.push(*arity_bits);
                    assert!(degree_bits >= *arity_bits);
                    degree_bits -= *arity_bits;
                }
                r
            }
            Self::MinSize(_) => vec![],
        }
    }
}
