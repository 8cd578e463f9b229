pub mod reducing;
pub mod serialization;
pub mod timing;
use crate::field::types::Field;

pub fn bits_u64(n: u64) -> usize { (64 - n.leading_zeros()) as usize }
pub const fn ceil_div_usize(a: usize, b: usize) -> usize { (a + b - 1) / b }
pub fn log2_ceil(n: usize) -> usize { (usize::BITS - n.saturating_sub(1).leading_zeros()) as usize }
pub fn log2_strict(n: usize) -> usize {
    assert!(n.is_power_of_two(), "Not a power of two: {n}");
    n.trailing_zeros() as usize
}
pub fn reverse_bits(n: usize, num_bits: usize) -> usize {
    if num_bits == 0 { 0 } else { n.reverse_bits() >> (usize::BITS as usize - num_bits) }
}
pub fn reverse_index_bits_in_place<T>(a: &mut [T]) {
    let lg = log2_strict(a.len());
    for i in 0..a.len() { let j = reverse_bits(i, lg); if j > i { a.swap(i, j); } }
}
pub fn transpose<F: Clone>(matrix: &[Vec<F>]) -> Vec<Vec<F>> {
    if matrix.is_empty() { return vec![]; }
    (0..matrix[0].len()).map(|i| matrix.iter().map(|r| r[i].clone()).collect()).collect()
}
#[allow(dead_code)]
fn _f<F: Field>() {}
