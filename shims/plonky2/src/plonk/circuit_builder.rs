//! Circuits as semantic graphs. A target is either *virtual* (chosen by the
//! prover) or the output of an operation. Constraints are copy constraints,
//! range constraints and proof verifications. `Circuit::evaluate` does what
//! plonky2's witness generation and constraint check do together: propagate
//! values through operations and copy constraints, fail on any conflict.
use core::cell::Cell;
use core::marker::PhantomData;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher as StdHasher};

use super::circuit_data::{
    token, CircuitConfig, CircuitData, CommonCircuitData, GateRef, ProverOnlyCircuitData, VerifierCircuitTarget, VerifierOnlyCircuitData,
};
use super::config::{AlgebraicHasher, GenericConfig, GenericHashOut, Hasher};
use super::proof::{ProofTarget, ProofWithPublicInputsTarget};
use crate::field::extension::{Extendable, FieldExtension};
use crate::field::types::Field;
use crate::fri::proof::{FriChallengesTarget, FriInitialTreeProofTarget, FriProofTarget, FriQueryRoundTarget, MerkleProofTarget};
use crate::fri::structure::{FriInstanceInfoTarget, FriOpeningsTarget};
use crate::fri::FriParams;
use crate::gadgets::polynomial::PolynomialCoeffsExtTarget;
use crate::gates::noop::NoopGate;
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::{BoolTarget, Target};
use crate::util::log2_ceil;

thread_local!(static PANICS: Cell<bool> = const { Cell::new(true) });
/// Whether a failed proof panics (as upstream's witness generation does) or is
/// an `Err`.
pub fn set_panics(p: bool) { PANICS.with(|c| c.set(p)) }
pub fn panics() -> bool { PANICS.with(|c| c.get()) }

/// Virtual targets and operation outputs are numbered apart, as upstream does:
/// some of the repository's circuits rely on virtual targets of two builders
/// having the same numbers.
const OP: usize = 1 << 40;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op {
    Const(u64),
    /// c0 * a * b + c1 * c
    Arith(u64, Target, Target, u64, Target),
    /// q with q * b = a. Not determined when a = b = 0.
    Div(Target, Target),
    /// components of q with q * b = a in the extension field
    DivExt([Target; 2], [Target; 2], usize),
    IsEq(Target, Target),
    /// bits [lo, hi) of the decomposition of x into `total` bits
    Bits { x: Target, total: usize, lo: usize, hi: usize, group: usize },
    Perm(usize, usize),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Check {
    Connect(Target, Target),
    Bool(Target),
    Range(Target, usize),
    Verify { common: String, cap: Vec<Target>, digest: Vec<Target>, pis: Vec<Target>, token: [Target; 4] },
    Fri { shape: Vec<u64>, inputs: Vec<Target>, token: Vec<Target> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Circuit<F: RichField + Extendable<D>, const D: usize> {
    pub num_virtual: usize,
    pub ops: Vec<Op>,
    pub perms: Vec<[Target; 12]>,
    pub checks: Vec<Check>,
    /// Root of every target's class under the copy constraints.
    roots: Vec<usize>,
    nodes: usize,
    pub _p: PhantomData<F>,
}

#[derive(Clone, Debug)]
pub struct Values<F> { num_virtual: usize, roots: Vec<usize>, v: Vec<Option<F>> }
impl<F: Field> Values<F> {
    fn slot(&self, t: Target) -> usize { self.roots[if t.0 >= OP { t.0 - OP + self.num_virtual } else { t.0 }] }
    pub fn try_get(&self, t: Target) -> Option<F> { self.v[self.slot(t)] }
    pub fn get(&self, t: Target) -> F { self.try_get(t).unwrap_or(F::ZERO) }
}

/// Choices a dishonest prover has beyond the virtual targets, by operation.
#[derive(Clone, Debug, Default)]
pub struct Hints<F> {
    /// value of `Div` outputs whose operands are both zero
    pub div: HashMap<usize, F>,
    /// decomposition groups to be decomposed as x + p
    pub wrap: BTreeSet<usize>,
}

pub fn digest_of<F: RichField>(x: &impl Hash) -> HashOut<F> {
    HashOut { elements: core::array::from_fn(|i| {
        let mut h = DefaultHasher::new();
        (i as u64 ^ 0x9e37).hash(&mut h);
        x.hash(&mut h);
        F::from_noncanonical_u64(h.finish() >> 1)
    }) }
}

impl<F: RichField + Extendable<D>, const D: usize> Circuit<F, D> {
    fn idx(&self, t: Target) -> usize { if t.0 >= OP { t.0 - OP + self.num_virtual } else { t.0 } }

    pub fn finish(num_virtual: usize, ops: Vec<Op>, perms: Vec<[Target; 12]>, checks: Vec<Check>) -> Self {
        let nodes = num_virtual + ops.len();
        let mut c = Self { num_virtual, ops, perms, checks, roots: (0..nodes).collect(), nodes, _p: PhantomData };
        fn find(r: &mut Vec<usize>, mut x: usize) -> usize {
            while r[x] != x { r[x] = r[r[x]]; x = r[x]; }
            x
        }
        let mut r = core::mem::take(&mut c.roots);
        for ch in &c.checks {
            if let Check::Connect(a, b) = ch {
                let (a, b) = (find(&mut r, c.idx(*a)), find(&mut r, c.idx(*b)));
                r[a.max(b)] = a.min(b);
            }
        }
        for i in 0..nodes { r[i] = find(&mut r, i); }
        c.roots = r;
        c
    }

    /// The class of a target under the copy constraints.
    pub fn class(&self, t: Target) -> usize { self.roots[self.idx(t)] }

    /// Virtual targets whose class contains no operation output.
    pub fn free_targets(&self) -> Vec<Target> {
        let mut det = vec![false; self.nodes];
        for i in 0..self.ops.len() { det[self.roots[self.num_virtual + i]] = true; }
        (0..self.num_virtual).filter(|&i| !det[self.roots[i]]).map(Target).collect()
    }

    pub fn evaluate(&self, inputs: &HashMap<Target, F>, hints: &Hints<F>) -> Result<Values<F>, String> { self.run(inputs, hints, true) }

    /// As `evaluate`, whatever the inner proofs are: the caller judges what
    /// they are taken to say.
    pub fn solve(&self, inputs: &HashMap<Target, F>, hints: &Hints<F>) -> Result<Values<F>, String> { self.run(inputs, hints, false) }

    fn run(&self, inputs: &HashMap<Target, F>, hints: &Hints<F>, inner: bool) -> Result<Values<F>, String> {
        let mut vals = Values { num_virtual: self.num_virtual, roots: self.roots.clone(), v: vec![None; self.nodes] };
        let set = |vals: &mut Values<F>, t: Target, x: F| -> Result<(), String> {
            let s = vals.slot(t);
            match vals.v[s] {
                Some(o) if o != x => Err(format!("Partition containing {t:?} was set twice with different values: {o} != {x}")),
                _ => { vals.v[s] = Some(x); Ok(()) }
            }
        };
        for (t, v) in inputs { set(&mut vals, *t, *v)?; }
        let cf = F::from_noncanonical_u64;
        let mut perm_out: Vec<Option<[F; 12]>> = vec![None; self.perms.len()];
        let mut todo: Vec<usize> = (0..self.ops.len()).collect();
        loop {
            let before = todo.len();
            let mut rest = vec![];
            for i in todo {
                let out = match &self.ops[i] {
                    Op::Const(c) => Some(cf(*c)),
                    Op::Arith(c0, a, b, c1, c) => {
                        let need_c = *c1 != 0;
                        match (vals.try_get(*a), vals.try_get(*b), if need_c { vals.try_get(*c) } else { Some(F::ZERO) }) {
                            (Some(a), Some(b), Some(c)) => Some(cf(*c0) * a * b + cf(*c1) * c),
                            _ => None,
                        }
                    }
                    Op::Div(a, b) => match (vals.try_get(*a), vals.try_get(*b)) {
                        (Some(a), Some(b)) => {
                            if b.is_zero() {
                                match hints.div.get(&i) {
                                    Some(h) if a.is_zero() => Some(*h),
                                    _ => return Err("Tried to invert zero".into()),
                                }
                            } else { Some(a * b.inverse()) }
                        }
                        _ => None,
                    },
                    Op::DivExt(a, b, k) => {
                        let g: Option<Vec<F>> = a.iter().chain(b).map(|t| vals.try_get(*t)).collect();
                        match g {
                            Some(g) => {
                                let mk = |x: &[F]| { let mut a = [F::ZERO; D]; a[..2].copy_from_slice(x); F::Extension::from_basefield_array(a) };
                                let (a, b) = (mk(&g[..2]), mk(&g[2..]));
                                if b.is_zero() { return Err("Tried to invert zero".into()); }
                                Some((a * b.inverse()).to_basefield_array()[*k])
                            }
                            None => None,
                        }
                    }
                    Op::IsEq(a, b) => match (vals.try_get(*a), vals.try_get(*b)) {
                        (Some(a), Some(b)) => Some(F::from_bool(a == b)),
                        _ => None,
                    },
                    Op::Bits { x, total, lo, hi, group } => match vals.try_get(*x) {
                        Some(x) => {
                            let mut v = x.to_canonical_u64() as u128;
                            if hints.wrap.contains(group) {
                                v += F::ORDER as u128;
                            }
                            if *total < 128 && v >> *total != 0 {
                                return Err(format!("Integer too large to fit in given number of bits: {v} does not fit {total}"));
                            }
                            Some(F::from_noncanonical_u128((v >> *lo) & ((1u128 << (*hi - *lo)) - 1)))
                        }
                        None => None,
                    },
                    Op::Perm(p, k) => {
                        if perm_out[*p].is_none() {
                            let ins: Option<Vec<F>> = self.perms[*p].iter().map(|t| vals.try_get(*t)).collect();
                            if let Some(ins) = ins { perm_out[*p] = Some(F::poseidon2(ins.try_into().unwrap())); }
                        }
                        perm_out[*p].map(|o| o[*k])
                    }
                };
                match out {
                    Some(x) => set(&mut vals, Target(OP + i), x)?,
                    None => rest.push(i),
                }
            }
            if rest.is_empty() { break; }
            if rest.len() == before { return Err(format!("{} generators weren't run", rest.len())); }
            todo = rest;
        }
        for c in &self.checks {
            match c {
                Check::Connect(..) => {}
                Check::Bool(t) => {
                    let v = vals.get(*t);
                    if v * v != v { return Err(format!("not a boolean: {v} was set twice with different values")); }
                }
                Check::Range(t, n) => {
                    let v = vals.get(*t).to_canonical_u64();
                    if *n < 64 && v >> *n != 0 { return Err(format!("Integer too large to fit in given number of bits: {v}")); }
                }
                Check::Verify { .. } if !inner => {}
                Check::Verify { common, cap, digest, pis, token: tok } => {
                    let g = |ts: &[Target]| ts.iter().map(|t| vals.get(*t)).collect::<Vec<F>>();
                    let want = token::<F>(common, &g(cap), &g(digest), &g(pis));
                    if want.elements.to_vec() != g(tok) { return Err("inner proof is invalid: was set twice with different values".into()); }
                }
                Check::Fri { shape, inputs, token: tok } => {
                    let mut v: Vec<F> = shape.iter().map(|x| cf(*x)).collect();
                    v.extend(inputs.iter().map(|t| vals.get(*t)));
                    let h = crate::hash::hashing::hash_n_to_hash_no_pad::<F, crate::hash::poseidon2::Poseidon2Permutation<F>>(&v);
                    let got: Vec<F> = tok.iter().map(|t| vals.get(*t)).collect();
                    if h.elements.to_vec() != got { return Err("FRI opening proof is invalid: was set twice with different values".into()); }
                }
            }
        }
        Ok(vals)
    }
}

#[derive(Debug)]
pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    num_virtual: usize,
    ops: Vec<Op>,
    op_memo: HashMap<Op, Target>,
    perms: Vec<[Target; 12]>,
    perm_memo: HashMap<[Target; 12], usize>,
    checks: Vec<Check>,
    public_inputs: Vec<Target>,
    noops: usize,
    verifications: usize,
    groups: usize,
    gates: BTreeSet<GateRef>,
    _p: PhantomData<F>,
}

const ALL_GATES: [&str; 9] = ["Noop", "Constant", "PublicInput", "Arithmetic", "BaseSum", "Poseidon2", "ArithmeticExtension", "RandomAccess", "CosetInterpolation"];

impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self {
        let mut s = Self {
            config, num_virtual: 0, ops: vec![], op_memo: HashMap::new(), perms: vec![], perm_memo: HashMap::new(), checks: vec![],
            public_inputs: vec![], noops: 0, verifications: 0, groups: 0, gates: BTreeSet::new(), _p: PhantomData,
        };
        for g in ["Noop", "Constant", "PublicInput", "Poseidon2", "Arithmetic"] { s.gates.insert(GateRef(g.into())); }
        s
    }
    fn op(&mut self, o: Op) -> Target {
        if let Some(t) = self.op_memo.get(&o) { return *t; }
        let t = Target(OP + self.ops.len());
        self.ops.push(o.clone());
        self.op_memo.insert(o, t);
        t
    }
    pub fn num_gates(&self) -> usize { self.noops + self.ops.len() / 20 + self.perms.len() + 8 * self.verifications }
    pub fn add_gate(&mut self, _: NoopGate, _c: Vec<F>) -> usize { self.noops += 1; self.num_gates() }
    pub fn add_gate_to_gate_set(&mut self, g: GateRef) { self.gates.insert(g); }
    pub fn num_public_inputs(&self) -> usize { self.public_inputs.len() }
    pub fn public_inputs(&self) -> &[Target] { &self.public_inputs }
    pub fn register_public_input(&mut self, t: Target) { self.public_inputs.push(t); }
    pub fn register_public_inputs(&mut self, t: &[Target]) { t.iter().for_each(|&t| self.register_public_input(t)); }
    pub fn add_virtual_public_input(&mut self) -> Target { let t = self.add_virtual_target(); self.register_public_input(t); t }
    pub fn add_virtual_target(&mut self) -> Target { self.num_virtual += 1; Target(self.num_virtual - 1) }
    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] { [0; N].map(|_| self.add_virtual_target()) }
    pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
    pub fn add_virtual_hashes(&mut self, n: usize) -> Vec<HashOutTarget> { (0..n).map(|_| self.add_virtual_hash()).collect() }
    pub fn add_virtual_cap(&mut self, cap_height: usize) -> MerkleCapTarget { MerkleCapTarget(self.add_virtual_hashes(1 << cap_height)) }
    pub fn add_virtual_extension_target(&mut self) -> ExtensionTarget<D> { ExtensionTarget(self.add_virtual_target_arr()) }
    pub fn add_virtual_extension_targets(&mut self, n: usize) -> Vec<ExtensionTarget<D>> { (0..n).map(|_| self.add_virtual_extension_target()).collect() }
    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.add_virtual_target()) }
    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget { let b = self.add_virtual_bool_target_unsafe(); self.assert_bool(b); b }
    pub fn add_virtual_verifier_data(&mut self, cap_height: usize) -> VerifierCircuitTarget {
        VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(cap_height), circuit_digest: self.add_virtual_hash() }
    }
    pub fn add_verifier_data_public_inputs(&mut self) -> VerifierCircuitTarget {
        let v = self.add_virtual_verifier_data(self.config.fri_config.cap_height);
        self.register_public_inputs(&v.circuit_digest.elements);
        for h in &v.constants_sigmas_cap.0 { self.register_public_inputs(&h.elements); }
        v
    }
    pub fn add_virtual_proof_with_pis(&mut self, common: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> {
        ProofWithPublicInputsTarget { proof: ProofTarget { token: self.add_virtual_hash() }, public_inputs: self.add_virtual_targets(common.num_public_inputs) }
    }
    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, v: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget
    where C::Hasher: AlgebraicHasher<F> {
        VerifierCircuitTarget {
            constants_sigmas_cap: MerkleCapTarget(v.constants_sigmas_cap.0.iter().map(|h| self.constant_hash(*h)).collect()),
            circuit_digest: self.constant_hash(v.circuit_digest),
        }
    }
    pub fn verify_proof<C: GenericConfig<D, F = F>>(&mut self, p: &ProofWithPublicInputsTarget<D>, v: &VerifierCircuitTarget, common: &CommonCircuitData<F, D>)
    where C::Hasher: AlgebraicHasher<F> {
        assert_eq!(p.public_inputs.len(), common.num_public_inputs);
        self.verifications += 1;
        for g in ALL_GATES { self.gates.insert(GateRef(g.into())); }
        self.checks.push(Check::Verify {
            common: common.description(),
            cap: v.constants_sigmas_cap.0.iter().flat_map(|h| h.elements).collect(),
            digest: v.circuit_digest.elements.to_vec(),
            pis: p.public_inputs.clone(),
            token: p.proof.token.elements,
        });
    }
    pub fn connect(&mut self, a: Target, b: Target) { self.checks.push(Check::Connect(a, b)); }
    pub fn connect_hashes(&mut self, a: HashOutTarget, b: HashOutTarget) { for i in 0..4 { self.connect(a.elements[i], b.elements[i]); } }
    pub fn connect_merkle_caps(&mut self, a: &MerkleCapTarget, b: &MerkleCapTarget) {
        assert_eq!(a.0.len(), b.0.len());
        for (x, y) in a.0.iter().zip(&b.0) { self.connect_hashes(*x, *y); }
    }
    pub fn connect_verifier_data(&mut self, a: &VerifierCircuitTarget, b: &VerifierCircuitTarget) {
        self.connect_merkle_caps(&a.constants_sigmas_cap, &b.constants_sigmas_cap);
        self.connect_hashes(a.circuit_digest, b.circuit_digest);
    }
    pub fn connect_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) { for i in 0..D { self.connect(a.0[i], b.0[i]); } }
    pub fn assert_zero(&mut self, t: Target) { let z = self.zero(); self.connect(t, z); }
    pub fn assert_one(&mut self, t: Target) { let z = self.one(); self.connect(t, z); }
    pub fn assert_bool(&mut self, b: BoolTarget) { self.checks.push(Check::Bool(b.target)); }

    pub fn constant(&mut self, c: F) -> Target { self.op(Op::Const(c.to_canonical_u64())) }
    pub fn constants(&mut self, c: &[F]) -> Vec<Target> { c.iter().map(|c| self.constant(*c)).collect() }
    pub fn constant_bool(&mut self, b: bool) -> BoolTarget { BoolTarget::new_unsafe(self.constant(F::from_bool(b))) }
    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|x| self.constant(x)) } }
    pub fn constant_merkle_cap<H: Hasher<F, Hash = HashOut<F>>>(&mut self, c: &MerkleCap<F, H>) -> MerkleCapTarget {
        MerkleCapTarget(c.0.iter().map(|h| self.constant_hash(*h)).collect())
    }
    pub fn zero(&mut self) -> Target { self.constant(F::ZERO) }
    pub fn one(&mut self) -> Target { self.constant(F::ONE) }
    pub fn two(&mut self) -> Target { self.constant(F::TWO) }
    pub fn neg_one(&mut self) -> Target { self.constant(F::NEG_ONE) }
    pub fn _false(&mut self) -> BoolTarget { self.constant_bool(false) }
    pub fn _true(&mut self) -> BoolTarget { self.constant_bool(true) }

    pub fn arithmetic(&mut self, c0: F, c1: F, a: Target, b: Target, c: Target) -> Target {
        self.op(Op::Arith(c0.to_canonical_u64(), a, b, c1.to_canonical_u64(), c))
    }
    pub fn add(&mut self, a: Target, b: Target) -> Target { let o = self.one(); self.arithmetic(F::ONE, F::ONE, a, o, b) }
    pub fn sub(&mut self, a: Target, b: Target) -> Target { let o = self.one(); self.arithmetic(F::ONE, F::NEG_ONE, a, o, b) }
    pub fn mul(&mut self, a: Target, b: Target) -> Target { self.arithmetic(F::ONE, F::ZERO, a, b, a) }
    pub fn neg(&mut self, a: Target) -> Target { self.mul_const(F::NEG_ONE, a) }
    pub fn square(&mut self, a: Target) -> Target { self.mul(a, a) }
    pub fn mul_add(&mut self, a: Target, b: Target, c: Target) -> Target { self.arithmetic(F::ONE, F::ONE, a, b, c) }
    pub fn mul_sub(&mut self, a: Target, b: Target, c: Target) -> Target { self.arithmetic(F::ONE, F::NEG_ONE, a, b, c) }
    pub fn add_const(&mut self, a: Target, c: F) -> Target { let k = self.constant(c); self.add(a, k) }
    pub fn mul_const(&mut self, c: F, a: Target) -> Target { let k = self.constant(c); self.mul(k, a) }
    pub fn mul_const_add(&mut self, c: F, a: Target, b: Target) -> Target { let k = self.constant(c); self.mul_add(k, a, b) }
    pub fn add_many(&mut self, t: impl IntoIterator<Item = impl core::borrow::Borrow<Target>>) -> Target {
        let z = self.zero();
        t.into_iter().fold(z, |acc, t| self.add(acc, *t.borrow()))
    }
    pub fn mul_many(&mut self, t: impl IntoIterator<Item = impl core::borrow::Borrow<Target>>) -> Target {
        let z = self.one();
        t.into_iter().fold(z, |acc, t| self.mul(acc, *t.borrow()))
    }
    pub fn div(&mut self, a: Target, b: Target) -> Target { self.op(Op::Div(a, b)) }
    pub fn inverse(&mut self, a: Target) -> Target { let o = self.one(); self.div(o, a) }
    pub fn is_equal(&mut self, a: Target, b: Target) -> BoolTarget { BoolTarget::new_unsafe(self.op(Op::IsEq(a, b))) }
    pub fn is_nonzero(&mut self, a: Target) -> BoolTarget { let z = self.zero(); let e = self.is_equal(a, z); self.not(e) }
    pub fn not(&mut self, b: BoolTarget) -> BoolTarget { let o = self.one(); BoolTarget::new_unsafe(self.sub(o, b.target)) }
    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget::new_unsafe(self.mul(a.target, b.target)) }
    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget {
        let r = self.arithmetic(F::NEG_ONE, F::ONE, a.target, b.target, a.target);
        BoolTarget::new_unsafe(self.add(r, b.target))
    }
    pub fn _if(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { self.select(b, x, y) }
    pub fn select(&mut self, b: BoolTarget, x: Target, y: Target) -> Target {
        // b*x - (b*y - y)
        let t = self.mul_sub(b.target, y, y);
        self.mul_sub(b.target, x, t)
    }
    fn bits(&mut self, x: Target, total: usize, ranges: &[(usize, usize)]) -> Vec<Target> {
        let group = self.groups;
        self.groups += 1;
        self.gates.insert(GateRef("BaseSum".into()));
        self.checks.push(Check::Range(x, total));
        ranges.iter().map(|&(lo, hi)| self.op(Op::Bits { x, total, lo, hi, group })).collect()
    }
    pub fn range_check(&mut self, x: Target, n: usize) {
        self.gates.insert(GateRef("BaseSum".into()));
        self.checks.push(Check::Range(x, n));
    }
    pub fn split_le(&mut self, x: Target, n: usize) -> Vec<BoolTarget> {
        let r: Vec<(usize, usize)> = (0..n).map(|i| (i, i + 1)).collect();
        self.bits(x, n, &r).into_iter().map(BoolTarget::new_unsafe).collect()
    }
    pub fn split_low_high(&mut self, x: Target, n_log: usize, num_bits: usize) -> (Target, Target) {
        let v = self.bits(x, num_bits, &[(0, n_log), (n_log, num_bits)]);
        (v[0], v[1])
    }
    pub fn le_sum(&mut self, bits: impl Iterator<Item = impl core::borrow::Borrow<BoolTarget>>) -> Target {
        let v: Vec<Target> = bits.map(|b| b.borrow().target).collect();
        let mut acc = self.zero();
        for b in v.into_iter().rev() { acc = self.mul_const_add(F::TWO, acc, b); }
        acc
    }
    pub fn permute(&mut self, s: [Target; 12]) -> [Target; 12] {
        let p = match self.perm_memo.get(&s) {
            Some(p) => *p,
            None => { self.perms.push(s); self.perm_memo.insert(s, self.perms.len() - 1); self.perms.len() - 1 }
        };
        core::array::from_fn(|k| self.op(Op::Perm(p, k)))
    }
    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget {
        let z = self.zero();
        let mut s = [z; 12];
        if H::KIND == 1 { s[11] = self.constant(F::from_canonical_u64(0x506f)); }
        for c in inputs.chunks(8) {
            s[..c.len()].copy_from_slice(c);
            s = self.permute(s);
        }
        HashOutTarget { elements: s[..4].try_into().unwrap() }
    }
    pub fn hash_pad<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget {
        let (z, o) = (self.zero(), self.one());
        let mut v = inputs;
        v.push(o);
        while (v.len() + 1) % 8 != 0 { v.push(z); }
        v.push(o);
        self.hash_n_to_hash_no_pad::<H>(v)
    }
    pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, inputs: Vec<Target>) -> HashOutTarget {
        if inputs.len() <= 4 {
            let z = self.zero();
            let mut e = [z; 4];
            e[..inputs.len()].copy_from_slice(&inputs);
            HashOutTarget { elements: e }
        } else { self.hash_n_to_hash_no_pad::<H>(inputs) }
    }

    // Extension field
    pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> { ExtensionTarget(c.to_basefield_array().map(|x| self.constant(x))) }
    pub fn zero_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::ZERO) }
    pub fn one_extension(&mut self) -> ExtensionTarget<D> { self.constant_extension(F::Extension::ONE) }
    pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> { let z = self.zero(); t.to_ext_target(z) }
    pub fn arithmetic_extension(&mut self, c0: F, c1: F, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> {
        // schoolbook product modulo X^D - W
        let mut out = [None; D];
        for (k, o) in out.iter_mut().enumerate() {
            let mut acc = self.mul_const(c1, c.0[k]);
            for i in 0..D {
                for j in 0..D {
                    if i + j == k { acc = self.arithmetic(c0, F::ONE, a.0[i], b.0[j], acc); }
                    if i + j == k + D { acc = self.arithmetic(c0 * <F as Extendable<D>>::W, F::ONE, a.0[i], b.0[j], acc); }
                }
            }
            *o = Some(acc);
        }
        ExtensionTarget(out.map(|x| x.unwrap()))
    }
    pub fn add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(core::array::from_fn(|i| self.add(a.0[i], b.0[i]))) }
    pub fn sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(core::array::from_fn(|i| self.sub(a.0[i], b.0[i]))) }
    pub fn mul_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let z = self.zero_extension(); self.arithmetic_extension(F::ONE, F::ZERO, a, b, z) }
    pub fn square_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { self.mul_extension(a, a) }
    pub fn mul_add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { self.arithmetic_extension(F::ONE, F::ONE, a, b, c) }
    pub fn mul_sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { self.arithmetic_extension(F::ONE, F::NEG_ONE, a, b, c) }
    pub fn scalar_mul_ext(&mut self, a: Target, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let a = self.convert_to_ext(a); self.mul_extension(a, b) }
    pub fn mul_const_extension(&mut self, c: F, b: ExtensionTarget<D>) -> ExtensionTarget<D> { ExtensionTarget(b.0.map(|x| self.mul_const(c, x))) }
    pub fn add_const_extension(&mut self, a: ExtensionTarget<D>, c: F) -> ExtensionTarget<D> { let mut a = a; a.0[0] = self.add_const(a.0[0], c); a }
    pub fn add_many_extension(&mut self, t: impl IntoIterator<Item = impl core::borrow::Borrow<ExtensionTarget<D>>>) -> ExtensionTarget<D> {
        let z = self.zero_extension();
        t.into_iter().fold(z, |a, b| self.add_extension(a, *b.borrow()))
    }
    pub fn inner_product_extension(&mut self, c: F, start: ExtensionTarget<D>, pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>) -> ExtensionTarget<D> {
        pairs.into_iter().fold(start, |acc, (a, b)| self.arithmetic_extension(c, F::ONE, a, b, acc))
    }
    pub fn div_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> {
        assert_eq!(D, 2);
        let (x, y) = ([a.0[0], a.0[1]], [b.0[0], b.0[1]]);
        ExtensionTarget(core::array::from_fn(|k| self.op(Op::DivExt(x, y, k))))
    }
    pub fn inverse_extension(&mut self, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let o = self.one_extension(); self.div_extension(o, b) }
    pub fn exp_power_of_2_extension(&mut self, mut b: ExtensionTarget<D>, n: usize) -> ExtensionTarget<D> { for _ in 0..n { b = self.square_extension(b); } b }
    pub fn exp_u64_extension(&mut self, b: ExtensionTarget<D>, mut e: u64) -> ExtensionTarget<D> {
        let mut acc = self.one_extension();
        let mut cur = b;
        while e > 0 {
            if e & 1 == 1 { acc = self.mul_extension(acc, cur); }
            cur = self.square_extension(cur);
            e >>= 1;
        }
        acc
    }

    // Idealised FRI
    pub fn add_virtual_fri_proof(&mut self, num_leaves_per_oracle: &[usize], params: &FriParams) -> FriProofTarget<D> {
        let siblings = params.degree_bits + params.config.rate_bits - params.config.cap_height;
        FriProofTarget {
            commit_phase_merkle_caps: vec![],
            query_round_proofs: vec![FriQueryRoundTarget {
                initial_trees_proof: FriInitialTreeProofTarget {
                    evals_proofs: num_leaves_per_oracle.iter().map(|_| (vec![], MerkleProofTarget { siblings: self.add_virtual_hashes(siblings) })).collect(),
                },
            }],
            final_poly: PolynomialCoeffsExtTarget(self.add_virtual_extension_targets(4 / D)),
            pow_witness: self.add_virtual_target(),
        }
    }
    pub fn verify_fri_proof<C: GenericConfig<D, F = F>>(
        &mut self,
        instance: &FriInstanceInfoTarget<D>,
        openings: &FriOpeningsTarget<D>,
        _ch: &FriChallengesTarget<D>,
        caps: &[MerkleCapTarget],
        proof: &FriProofTarget<D>,
        params: &FriParams,
    ) where C::Hasher: AlgebraicHasher<F> {
        self.verifications += 1;
        for g in ALL_GATES { self.gates.insert(GateRef(g.into())); }
        let shape: Vec<Vec<(usize, usize)>> = instance.batches.iter().map(|b| b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect()).collect();
        let shape = crate::fri::oracle::token_preimage_shape(&shape, params.degree_bits);
        let mut inputs: Vec<Target> = caps.iter().flat_map(|c| c.0.iter().flat_map(|h| h.elements)).collect();
        for b in &instance.batches { inputs.extend(b.point.0); }
        for b in &openings.batches { for v in &b.values { inputs.extend(v.0); } }
        self.checks.push(Check::Fri { shape, inputs, token: proof.final_poly.0.iter().flat_map(|e| e.0).collect() });
    }

    #[allow(clippy::too_many_arguments)]
    pub fn verify_batch_fri_proof<C: GenericConfig<D, F = F>>(
        &mut self,
        degree_bits: &[usize],
        instances: &[FriInstanceInfoTarget<D>],
        openings: &[FriOpeningsTarget<D>],
        _ch: &FriChallengesTarget<D>,
        caps: &[MerkleCapTarget],
        proof: &FriProofTarget<D>,
        params: &FriParams,
    ) where C::Hasher: AlgebraicHasher<F> {
        assert_eq!(params.degree_bits, degree_bits[0]);
        assert_eq!(instances.len(), openings.len());
        self.verifications += 1;
        for g in ALL_GATES { self.gates.insert(GateRef(g.into())); }
        let shapes: Vec<Vec<Vec<(usize, usize)>>> = instances.iter()
            .map(|i| i.batches.iter().map(|b| b.polynomials.iter().map(|p| (p.oracle_index, p.polynomial_index)).collect()).collect()).collect();
        let shape = crate::batch_fri::batch_shape(&shapes, degree_bits);
        let mut inputs: Vec<Target> = caps.iter().flat_map(|c| c.0.iter().flat_map(|h| h.elements)).collect();
        for i in instances { for b in &i.batches { inputs.extend(b.point.0); } }
        for (i, o) in instances.iter().zip(openings) {
            assert_eq!(i.batches.len(), o.batches.len());
            for b in &o.batches { for v in &b.values { inputs.extend(v.0); } }
        }
        self.checks.push(Check::Fri { shape, inputs, token: proof.final_poly.0.iter().flat_map(|e| e.0).collect() });
    }

    pub fn build<C: GenericConfig<D, F = F>>(self) -> CircuitData<F, C, D> {
        let degree_bits = log2_ceil(self.num_gates() + 3).max(2);
        let circuit = Circuit::<F, D>::finish(self.num_virtual, self.ops, self.perms, self.checks);
        let common = CommonCircuitData {
            config: self.config,
            degree_bits,
            gates: self.gates.into_iter().collect(),
            num_public_inputs: self.public_inputs.len(),
            _f: PhantomData,
        };
        let d = digest_of::<F>(&(self.num_virtual, &circuit.ops, &circuit.perms, &circuit.checks, &self.public_inputs, common.description()));
        let cap = MerkleCap((0..1usize << common.config.fri_config.cap_height).map(|i| {
            let mut v = d.elements.to_vec();
            v.push(F::from_canonical_usize(i));
            C::Hasher::hash_no_pad(&v)
        }).collect());
        let mut v = d.elements.to_vec();
        v.push(F::NEG_ONE);
        let circuit_digest = C::Hasher::hash_no_pad(&v);
        CircuitData {
            prover_only: ProverOnlyCircuitData { public_inputs: self.public_inputs, circuit },
            verifier_only: VerifierOnlyCircuitData { constants_sigmas_cap: cap, circuit_digest },
            common,
        }
    }
}
#[allow(unused)]
fn _g<F: RichField, H: GenericHashOut<F>>() {}
