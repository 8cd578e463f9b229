use core::fmt::Debug;

use super::hash_types::{HashOut, RichField};
use crate::plonk::config::AlgebraicHasher;

pub trait PlonkyPermutation<T: Copy + Default>: AsRef<[T]> + Copy + Debug + Default + Eq + Sync + Send {
    const RATE: usize;
    const WIDTH: usize;
    fn new<I: IntoIterator<Item = T>>(iter: I) -> Self;
    fn set_elt(&mut self, elt: T, idx: usize);
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize);
    fn set_from_slice(&mut self, elts: &[T], start_idx: usize);
    fn permute(&mut self);
    fn squeeze(&self) -> &[T];
}

pub fn hash_n_to_m_no_pad<F: RichField, P: PlonkyPermutation<F>>(inputs: &[F], num_outputs: usize) -> Vec<F> {
    let mut perm = P::new(core::iter::repeat(F::ZERO));
    for chunk in inputs.chunks(P::RATE) {
        perm.set_from_slice(chunk, 0);
        perm.permute();
    }
    let mut outputs = Vec::new();
    loop {
        for &item in perm.squeeze() {
            outputs.push(item);
            if outputs.len() == num_outputs { return outputs; }
        }
        perm.permute();
    }
}
pub fn hash_n_to_hash_no_pad<F: RichField, P: PlonkyPermutation<F>>(inputs: &[F]) -> HashOut<F> {
    HashOut::from_vec(hash_n_to_m_no_pad::<F, P>(inputs, 4))
}
pub fn compress<F: RichField, P: PlonkyPermutation<F>>(x: HashOut<F>, y: HashOut<F>) -> HashOut<F> {
    let mut perm = P::new(core::iter::repeat(F::ZERO));
    perm.set_from_slice(&x.elements, 0);
    perm.set_from_slice(&y.elements, 4);
    perm.permute();
    HashOut { elements: perm.squeeze()[..4].try_into().unwrap() }
}
#[allow(dead_code)]
fn _t<F: RichField, A: AlgebraicHasher<F>>() {}
