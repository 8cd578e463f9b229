use plonky2::field::extension::{Extendable, FieldExtension};
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::fri::structure::{FriBatchInfo, FriBatchInfoTarget, FriInstanceInfo, FriInstanceInfoTarget, FriOracleInfo, FriPolynomialInfo};
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::plonk::circuit_builder::CircuitBuilder;

use crate::config::StarkConfig;
use crate::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
use crate::evaluation_frame::StarkEvaluationFrame;

pub struct LookupConfig { pub degree_bits: usize, pub num_zs: usize }

pub trait Stark<F: RichField + Extendable<D>, const D: usize>: Sync {
    const COLUMNS: usize = Self::EvaluationFrameTarget::COLUMNS;
    const PUBLIC_INPUTS: usize = Self::EvaluationFrameTarget::PUBLIC_INPUTS;
    type EvaluationFrame<FE, P, const D2: usize>: StarkEvaluationFrame<P, FE>
    where FE: FieldExtension<D2, BaseField = F>, P: PackedField<Scalar = FE>;
    type EvaluationFrameTarget: StarkEvaluationFrame<ExtensionTarget<D>, ExtensionTarget<D>>;
    fn eval_packed_generic<FE, P, const D2: usize>(&self, vars: &Self::EvaluationFrame<FE, P, D2>, c: &mut ConstraintConsumer<P>)
    where FE: FieldExtension<D2, BaseField = F>, P: PackedField<Scalar = FE>;
    fn eval_packed_base<P: PackedField<Scalar = F>>(&self, vars: &Self::EvaluationFrame<F, P, 1>, c: &mut ConstraintConsumer<P>) { self.eval_packed_generic(vars, c) }
    fn eval_ext(&self, vars: &Self::EvaluationFrame<F::Extension, F::Extension, D>, c: &mut ConstraintConsumer<F::Extension>) { self.eval_packed_generic(vars, c) }
    fn eval_ext_circuit(&self, b: &mut CircuitBuilder<F, D>, vars: &Self::EvaluationFrameTarget, c: &mut RecursiveConstraintConsumer<F, D>);
    fn constraint_degree(&self) -> usize;
    fn quotient_degree_factor(&self) -> usize {
        match self.constraint_degree().checked_sub(1) { Some(v) => 1.max(v), None => 0 }
    }
    fn num_quotient_polys(&self, config: &StarkConfig) -> usize { self.quotient_degree_factor() * config.num_challenges }
    fn uses_lookups(&self) -> bool { false }
    fn requires_ctls(&self) -> bool { false }
    fn layout(&self, num_zs: usize, config: &StarkConfig) -> (Vec<FriOracleInfo>, [Vec<FriPolynomialInfo>; 3]) {
        let nq = self.num_quotient_polys(config);
        let tr = FriPolynomialInfo::from_range(0, 0..Self::COLUMNS);
        let zs = FriPolynomialInfo::from_range(1, 0..num_zs);
        let q = FriPolynomialInfo::from_range(2, 0..nq);
        let o = [Self::COLUMNS, num_zs, nq].map(|num_polys| FriOracleInfo { num_polys, blinding: false }).to_vec();
        (o, [[tr.clone(), zs.clone(), q].concat(), [tr, zs.clone()].concat(), zs])
    }
    fn fri_instance(&self, zeta: F::Extension, g: F, _helpers: usize, _num_ctl_zs: Vec<usize>, config: &StarkConfig, l: Option<&LookupConfig>) -> FriInstanceInfo<F, D> {
        let l = l.expect("only used with a lookup configuration");
        let (oracles, [a, b, c]) = self.layout(l.num_zs, config);
        let last = F::Extension::from_basefield(F::primitive_root_of_unity(l.degree_bits).inverse());
        FriInstanceInfo {
            oracles,
            batches: vec![
                FriBatchInfo { point: zeta, polynomials: a },
                FriBatchInfo { point: zeta.scalar_mul(g), polynomials: b },
                FriBatchInfo { point: last, polynomials: c },
            ],
        }
    }
    fn fri_instance_target(&self, builder: &mut CircuitBuilder<F, D>, zeta: ExtensionTarget<D>, g: F, _helpers: usize, _num_ctl_zs: usize, config: &StarkConfig, l: Option<&LookupConfig>) -> FriInstanceInfoTarget<D> {
        let l = l.expect("only used with a lookup configuration");
        let (oracles, [a, b, c]) = self.layout(l.num_zs, config);
        let next = builder.mul_const_extension(g, zeta);
        let last = builder.constant_extension(F::Extension::from_basefield(F::primitive_root_of_unity(l.degree_bits).inverse()));
        FriInstanceInfoTarget {
            oracles,
            batches: vec![
                FriBatchInfoTarget { point: zeta, polynomials: a },
                FriBatchInfoTarget { point: next, polynomials: b },
                FriBatchInfoTarget { point: last, polynomials: c },
            ],
        }
    }
}
