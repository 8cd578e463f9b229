use core::borrow::Borrow;
use core::marker::PhantomData;

use plonky2::field::extension::Extendable;
use plonky2::field::packed::PackedField;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::plonk::circuit_builder::CircuitBuilder;

#[derive(Clone)]
pub struct ConstraintConsumer<P: PackedField> {
    alphas: Vec<P::Scalar>,
    constraint_accs: Vec<P>,
    z_last: P,
    lagrange_basis_first: P,
    lagrange_basis_last: P,
    debug_api_has_constraint_failed: bool,
    debug: bool,
    record: bool,
    /// Every value handed to `constraint` (not part of upstream's API).
    pub seen: Vec<P>,
}
impl<P: PackedField> ConstraintConsumer<P> {
    pub fn new(alphas: Vec<P::Scalar>, z_last: P, lagrange_basis_first: P, lagrange_basis_last: P) -> Self {
        Self {
            constraint_accs: vec![P::ZEROS; alphas.len()],
            alphas, z_last, lagrange_basis_first, lagrange_basis_last,
            debug_api_has_constraint_failed: false,
            debug: false,
            record: false,
            seen: vec![],
        }
    }
    /// Evaluate on actual rows: `z_last` vanishes exactly on the last row.
    pub fn new_debug_api(is_first: bool, is_last: bool) -> Self {
        let f = |b| if b { P::ONES } else { P::ZEROS };
        let mut s = Self::new(vec![], f(!is_last), f(is_first), f(is_last));
        s.debug = true;
        s
    }
    /// Records every constraint, with the given factors for the kinds of rows.
    pub fn new_recording(z_last: P, first: P, last: P) -> Self {
        let mut s = Self::new(vec![], z_last, first, last);
        s.record = true;
        s
    }
    pub fn debug_api_has_constraint_failed(&self) -> bool { self.debug_api_has_constraint_failed }
    pub fn accumulators(self) -> Vec<P> { self.constraint_accs }
    pub fn constraint_transition(&mut self, c: P) { self.constraint(c * self.z_last); }
    pub fn constraint(&mut self, c: P) {
        for (&alpha, acc) in self.alphas.iter().zip(&mut self.constraint_accs) {
            *acc *= alpha;
            *acc += c;
        }
        if self.debug {
            self.debug_api_has_constraint_failed |= c.as_slice().iter().any(|x| *x != <P::Scalar as plonky2::field::types::Field>::ZERO);
            self.seen.push(c);
        }
        if self.record { self.seen.push(c); }
    }
    pub fn constraint_first_row(&mut self, c: P) { self.constraint(c * self.lagrange_basis_first); }
    pub fn constraint_last_row(&mut self, c: P) { self.constraint(c * self.lagrange_basis_last); }
}

#[derive(Clone)]
pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
    alphas: Vec<Target>,
    constraint_accs: Vec<ExtensionTarget<D>>,
    z_last: ExtensionTarget<D>,
    lagrange_basis_first: ExtensionTarget<D>,
    lagrange_basis_last: ExtensionTarget<D>,
    _p: PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
    pub fn new(zero: ExtensionTarget<D>, alphas: Vec<Target>, z_last: ExtensionTarget<D>, lagrange_basis_first: ExtensionTarget<D>, lagrange_basis_last: ExtensionTarget<D>) -> Self {
        Self { constraint_accs: vec![zero; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, _p: PhantomData }
    }
    pub fn accumulators(self) -> Vec<ExtensionTarget<D>> { self.constraint_accs }
    pub fn constraint(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        for (a, acc) in self.alphas.iter().zip(&mut self.constraint_accs) {
            let x = b.scalar_mul_ext(*a, *acc);
            *acc = b.add_extension(x, *c.borrow());
        }
    }
    pub fn constraint_transition(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { let f = b.mul_extension(c, self.z_last); self.constraint(b, f); }
    pub fn constraint_first_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { let f = b.mul_extension(c, self.lagrange_basis_first); self.constraint(b, f); }
    pub fn constraint_last_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { let f = b.mul_extension(c, self.lagrange_basis_last); self.constraint(b, f); }
}
