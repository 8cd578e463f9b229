//! Every circuit of recproofs, built once, over the idealised proof system.
use std::sync::OnceLock;

use mozak_recproofs::circuits::*;
use mozak_recproofs::indices::{ArrayTargetIndex, BoolTargetIndex, HashOutTargetIndex};
use mozak_recproofs::circuits::verify_program::core::ProgramPublicIndices;
pub use mozak_recproofs::test_utils::{hash_branch, hash_branch_bytes, C, CONFIG, D, F};
pub use plonky2::field::types::{Field, PrimeField64};
use plonky2::gates::noop::NoopGate;
pub use plonky2::hash::hash_types::HashOut;
use plonky2::hash::hash_types::HashOutTarget;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::plonk::circuit_builder::CircuitBuilder;
pub use plonky2::plonk::circuit_data::CircuitData;
pub use plonky2::plonk::proof::ProofWithPublicInputs;

pub type PP = ProofWithPublicInputs<F, C, D>;
pub type Data = CircuitData<F, C, D>;
pub type H = HashOut<F>;

/// A program's proof: whatever public values it likes, its own identifier.
pub struct Program {
    pub id: [F; 4],
    pub indices: ProgramPublicIndices,
    pub circuit: Data,
}
impl Program {
    pub fn new(id: [F; 4]) -> Self {
        let mut b = CircuitBuilder::<F, D>::new(CONFIG);
        let program_hash: [Target; 4] = b.add_virtual_target_arr();
        let events_present: BoolTarget = b.add_virtual_bool_target_safe();
        let event_root: HashOutTarget = b.add_virtual_hash();
        let call_list: [Target; 4] = b.add_virtual_target_arr();
        let cast_root: HashOutTarget = b.add_virtual_hash();
        b.register_public_inputs(&program_hash);
        b.register_public_input(events_present.target);
        b.register_public_inputs(&event_root.elements);
        b.register_public_inputs(&call_list);
        b.register_public_inputs(&cast_root.elements);
        for (p, v) in program_hash.into_iter().zip(id) { let c = b.constant(v); b.connect(p, c); }
        b.add_gate(NoopGate, vec![]);
        while b.num_gates() < (1 << 3) { b.add_gate(NoopGate, vec![]); }
        let circuit = b.build();
        let p = &circuit.prover_only.public_inputs;
        let indices = ProgramPublicIndices {
            program_hash: ArrayTargetIndex::new(p, &program_hash),
            events_present: BoolTargetIndex::new(p, events_present),
            event_root: HashOutTargetIndex::new(p, event_root),
            call_list: ArrayTargetIndex::new(p, &call_list),
            cast_root: HashOutTargetIndex::new(p, cast_root),
        };
        Self { id, indices, circuit }
    }
    pub fn proof(&self, events: Option<H>, call_list: [F; 4], cast_root: H) -> PP {
        let mut v: Vec<F> = self.id.to_vec();
        v.push(F::from_bool(events.is_some()));
        v.extend(events.unwrap_or_default().elements);
        v.extend(call_list);
        v.extend(cast_root.elements);
        self.circuit.forge(v)
    }
}

pub struct World {
    pub programs: [Program; 2],
    pub merge_l: merge::LeafCircuit<F, C, D>,
    pub merge_b: merge::BranchCircuit<F, C, D>,
    pub er_l: build_event_root::LeafCircuit<F, C, D>,
    pub er_b: build_event_root::BranchCircuit<F, C, D>,
    pub ad_l: accumulate_delta::LeafCircuit<F, C, D>,
    pub ad_b: accumulate_delta::BranchCircuit<F, C, D>,
    pub md_l: match_delta::LeafCircuit<F, C, D>,
    pub md_b: match_delta::BranchCircuit<F, C, D>,
    pub vp_l: verify_program::LeafCircuit<F, C, D>,
    pub vp_b: verify_program::BranchCircuit<F, C, D>,
    pub tx_l: verify_tx::LeafCircuit<F, C, D>,
    pub tx_b: verify_tx::BranchCircuit<F, C, D>,
    pub su_l: state_update::LeafCircuit<F, C, D>,
    /// by height, from 1
    pub su_b: Vec<state_update::BranchCircuit<F, C, D>>,
    pub vb: verify_block::Circuit<F, C, D>,
}

pub fn f(v: u64) -> F { F::from_canonical_u64(v) }
pub fn h(v: u64) -> H { HashOut { elements: [f(v), f(v + 1), f(v + 2), f(v + 3)] } }
pub fn a4(v: u64) -> [F; 4] { h(v).elements }

pub const HEIGHT: usize = 2;
pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let programs = [Program::new(a4(0x1000)), Program::new(a4(0x2000))];
        let merge_l = merge::LeafCircuit::new(&CONFIG);
        let merge_b = merge::BranchCircuit::new(&CONFIG, &merge_l);
        let er_l = build_event_root::LeafCircuit::new(&CONFIG);
        let er_b = build_event_root::BranchCircuit::new(&CONFIG, &er_l);
        let ad_l = accumulate_delta::LeafCircuit::new(&CONFIG);
        let ad_b = accumulate_delta::BranchCircuit::new(&CONFIG, &ad_l);
        let md_l = match_delta::LeafCircuit::new(&CONFIG, &ad_b);
        let md_b = match_delta::BranchCircuit::new(&CONFIG, &md_l);
        let vp_l = verify_program::LeafCircuit::new(&CONFIG, &programs[0].indices, &programs[0].circuit.common, &er_b);
        let vp_b = verify_program::BranchCircuit::new(&CONFIG, &merge_b, &vp_l);
        let tx_l = verify_tx::LeafCircuit::new(&CONFIG, &vp_b);
        let tx_b = verify_tx::BranchCircuit::new(&CONFIG, &merge_b, &tx_l);
        let su_l = state_update::LeafCircuit::new(&CONFIG);
        let mut su_b = vec![state_update::BranchCircuit::from_leaf(&CONFIG, &su_l)];
        for _ in 1..HEIGHT { let n = state_update::BranchCircuit::from_branch(&CONFIG, su_b.last().unwrap()); su_b.push(n); }
        let vb = verify_block::Circuit::new(&CONFIG, &tx_b, &md_b, su_b.last().unwrap());
        World { programs, merge_l, merge_b, er_l, er_b, ad_l, ad_b, md_l, md_b, vp_l, vp_b, tx_l, tx_b, su_l, su_b, vb }
    })
}


use std::marker::PhantomData;

use mozak_recproofs::circuits::{Branch, Leaf};
use mozak_recproofs::{Event, EventType};
use plonky2::iop::target::Target as T;
use plonky2::iop::witness::PartialWitness;
use std::collections::HashMap;

pub type Wit = HashMap<T, u64>;
pub fn recording<X>(g: impl FnOnce() -> X) -> (X, Wit) { plonky2::plonk::circuit_data::recording(g) }
/// The proof that this witness yields, if it satisfies the circuit.
pub fn prove_raw(c: &Data, w: &Wit) -> Option<PP> {
    let mut p = PartialWitness::new();
    for (t, v) in w { p.target_values.insert(*t, F::from_canonical_u64(*v)); }
    c.prove(p).ok()
}

/// `tag` proofs of module `m`, whatever is in them.
#[macro_export]
macro_rules! leaf_of { ($m:ident, $pp:expr, $like:expr) => { $m::LeafProof::<F, C, D> { proof: $pp.clone(), tag: std::marker::PhantomData, indices: $like.indices.clone() } } }
#[macro_export]
macro_rules! branch_of { ($m:ident, $pp:expr, $like:expr) => { $m::BranchProof::<F, C, D> { proof: $pp.clone(), tag: std::marker::PhantomData, indices: $like.indices.clone() } } }

/// Genuine proofs to start from.
pub struct Basic {
    pub merge_l: merge::LeafProof<F, C, D>,
    pub merge_b: merge::BranchProof<F, C, D>,
    pub er_l: build_event_root::LeafProof<F, C, D>,
    pub er_b: build_event_root::BranchProof<F, C, D>,
    pub ad_l: accumulate_delta::LeafProof<F, C, D>,
    pub ad_b: accumulate_delta::BranchProof<F, C, D>,
    pub md_l: match_delta::LeafProof<F, C, D>,
    pub md_b: match_delta::BranchProof<F, C, D>,
    pub vp_l: verify_program::LeafProof<F, C, D>,
    pub vp_b: verify_program::BranchProof<F, C, D>,
    pub tx_l: verify_tx::LeafProof<F, C, D>,
    pub tx_b: verify_tx::BranchProof<F, C, D>,
    pub su_l: state_update::LeafProof<F, C, D>,
    pub su_b: Vec<state_update::BranchProof<F, C, D>>,
    pub base: verify_block::BaseProof<F, C, D>,
}
pub const ADDR: u64 = 2;

impl World {
    pub fn event(&self, v: u64) -> Event<F> { Event { owner: self.programs[0].id, ty: EventType::Read, address: ADDR, value: a4(v) } }

    /// A merge of two roots that is hypothetical but right.
    pub fn merged(&self, like: &merge::BranchProof<F, C, D>, a: Option<H>, b: Option<H>) -> merge::BranchProof<F, C, D> {
        let m = match (a, b) { (Some(a), Some(b)) => Some(hash_branch(&a, &b)), (a, b) => a.or(b) };
        self.merged_as(like, a, b, m)
    }
    pub fn merged_as(&self, like: &merge::BranchProof<F, C, D>, a: Option<H>, b: Option<H>, m: Option<H>) -> merge::BranchProof<F, C, D> {
        let mut v = like.proof.public_inputs.clone();
        let i = &self.merge_b.merge.indices;
        i.a_present.set_field(&mut v, a.is_some());
        i.a_hash.set_field(&mut v, a.unwrap_or_default());
        i.b_present.set_field(&mut v, b.is_some());
        i.b_hash.set_field(&mut v, b.unwrap_or_default());
        i.merged_present.set_field(&mut v, m.is_some());
        i.merged_hash.set_field(&mut v, m.unwrap_or_default());
        branch_of!(merge, self.merge_b.circuit.forge(v), like)
    }
    pub fn vp_leaf(&self, p: usize, er: Option<&build_event_root::BranchProof<F, C, D>>, call_list: [F; 4], cast: H) -> anyhow::Result<verify_program::LeafProof<F, C, D>> {
        let prog = &self.programs[p];
        let events = er.map(|e| self.er_b.vm_hash.indices.unpruned_hash.get_field(&e.proof.public_inputs));
        let pr = prog.proof(events, call_list, cast);
        self.vp_l.prove(&self.vp_b, &prog.circuit.verifier_only, &pr, er.ok_or(prog.id))
    }
    pub fn vp_events(&self, pis: &[F]) -> Option<H> {
        let i = &self.vp_b.events.indices;
        i.hash_present.get_field(pis).then(|| i.hash.get_field(pis))
    }
    pub fn tx_events(&self, pis: &[F]) -> Option<H> {
        let i = &self.tx_b.events.indices;
        i.hash_present.get_field(pis).then(|| i.hash.get_field(pis))
    }

    pub fn basic(&self) -> anyhow::Result<Basic> {
        let merge_l = self.merge_l.prove(&self.merge_b, Some(h(10)), Some(h(20)))?;
        let merge_b = self.merge_b.prove(&merge_l, &merge_l)?;
        let e = self.event(30);
        let er_l = self.er_l.prove(&self.er_b, e)?;
        let er_b = self.er_b.prove(&er_l, &er_l)?;
        let ad_l = self.ad_l.prove(&self.ad_b, ADDR, e.owner, e.ty, e.value)?;
        let ad_b = self.ad_b.prove(&ad_l, &ad_l)?;
        let md_l = self.md_l.prove(&self.md_b, &ad_b, self.md_witness())?;
        let md_b = self.md_b.prove(&md_l, &md_l)?;
        let vp_l = self.vp_leaf(0, Some(&er_b), a4(40), HashOut { elements: self.programs[0].id })?;
        let one = self.merged(&merge_b, self.vp_events(&vp_l.proof.public_inputs), None);
        let vp_b = self.vp_b.prove_one(&one, &vp_l)?;
        let tx_l = self.tx_l.prove(&self.tx_b, &vp_b)?;
        let ev = self.tx_events(&tx_l.proof.public_inputs);
        let tx_b = self.tx_b.prove(&self.merged(&merge_b, ev, ev), &tx_l, &tx_l)?;
        let su_l = self.su_l.prove(h(50), h(60), Some(ADDR))?;
        let other = self.su_l.prove(h(70), h(70), None)?;
        let mut su_b = vec![self.su_b[0].prove(&su_l, &other)?];
        let same = self.su_b[0].prove(&other, &other)?;
        su_b.push(self.su_b[1].prove(&same, &su_b[0])?);
        let base = self.vb.prove_base(su_b[1].old())?;
        Ok(Basic { merge_l, merge_b, er_l, er_b, ad_l, ad_b, md_l, md_b, vp_l, vp_b, tx_l, tx_b, su_l, su_b, base })
    }
    /// An object that `event(30)` reads, unchanged.
    pub fn md_witness(&self) -> match_delta::LeafWitnessValue<F> {
        match_delta::LeafWitnessValue { block_height: 1, last_updated: 0, old_owner: a4(80), new_owner: a4(80), old_data: a4(30), new_data: a4(30), old_credits: 7, new_credits: 7 }
    }
    /// A transaction, match and state update that fit each other (hypothetical).
    pub fn block_parts(&self, b: &Basic, events: H, height: u64, delta: H, old: H, new: H)
        -> (verify_tx::BranchProof<F, C, D>, match_delta::BranchProof<F, C, D>, state_update::BranchProof<F, C, D>) {
        let mut v = b.tx_b.proof.public_inputs.clone();
        self.tx_b.events.indices.hash_present.set_field(&mut v, true);
        self.tx_b.events.indices.hash.set_field(&mut v, events);
        let tx = branch_of!(verify_tx, self.tx_b.circuit.forge(v), b.tx_b);
        let mut v = b.md_b.proof.public_inputs.clone();
        self.md_b.event_hash.indices.unpruned_hash.set_field(&mut v, events);
        self.md_b.state_hash.indices.unpruned_hash.set_field(&mut v, delta);
        self.md_b.block_height.indices.values.set_field(&mut v, [f(height)]);
        let md = branch_of!(match_delta, self.md_b.circuit.forge(v), b.md_b);
        let c = self.su_b.last().unwrap();
        let like = b.su_b.last().unwrap();
        let mut v = like.proof.public_inputs.clone();
        c.summarized.indices.summary_hash_present.set_field(&mut v, true);
        c.summarized.indices.summary_hash.set_field(&mut v, delta);
        c.old.indices.unpruned_hash.set_field(&mut v, old);
        c.new.indices.unpruned_hash.set_field(&mut v, new);
        let su = branch_of!(state_update, c.circuit.forge(v), like);
        (tx, md, su)
    }
}
#[allow(unused)]
fn _t(_: PhantomData<(Leaf, Branch)>) {}
