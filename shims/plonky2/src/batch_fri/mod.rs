//! Idealised batched FRI: as `crate::fri`, for polynomials of several degrees
//! behind one commitment.
pub mod oracle;
pub mod verifier;

use crate::fri::oracle::token_preimage_shape;

pub fn batch_shape(insts: &[Vec<Vec<(usize, usize)>>], degree_bits: &[usize]) -> Vec<u64> {
    assert_eq!(insts.len(), degree_bits.len());
    let mut v = vec![0x4241_5443, insts.len() as u64];
    for (i, d) in insts.iter().zip(degree_bits) { v.extend(token_preimage_shape(i, *d)); }
    v
}
