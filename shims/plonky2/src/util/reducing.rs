use crate::field::extension::Extendable;
use crate::hash::hash_types::RichField;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;

#[derive(Debug, Clone)]
pub struct ReducingFactorTarget<const D: usize> { base: ExtensionTarget<D>, count: u64 }
impl<const D: usize> ReducingFactorTarget<D> {
    pub const fn new(base: ExtensionTarget<D>) -> Self { Self { base, count: 0 } }
    pub fn reduce<F: RichField + Extendable<D>>(&mut self, terms: &[ExtensionTarget<D>], b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let mut acc = b.zero_extension();
        for t in terms.iter().rev() { self.count += 1; acc = b.mul_add_extension(acc, self.base, *t); }
        acc
    }
    pub fn reduce_base<F: RichField + Extendable<D>>(&mut self, terms: &[Target], b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let t: Vec<_> = terms.iter().map(|t| b.convert_to_ext(*t)).collect();
        self.reduce(&t, b)
    }
    pub fn reset(&mut self) { self.count = 0; }
}
