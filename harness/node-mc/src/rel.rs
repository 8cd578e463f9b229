//! N02, N03, N05: every circuit of a block's proof states exactly what it
//! should about the statements of the proofs below it.
//!
//! A circuit is, apart from the values checked here, a function of its inputs.
//! Each is run on the whole product of a small domain of inputs: statements of
//! the proofs below it (any that those could prove, whoever made them) and the
//! values that its prover chooses. It has to accept those, and state that,
//! which a rule written here says.
use mozak_recproofs::summarize;
use plonky2::field::types::Field64;
use plonky2::hash::hash_types::HashOutTarget;
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::iop::target::{BoolTarget, Target};
use plonky2::plonk::circuit_data::VerifierCircuitTarget;
use plonky2::plonk::config::Hasher;
use serde_json::json;
use std::collections::{HashMap, HashSet};

use crate::world::*;

pub trait Ts { fn ts(self) -> Vec<Target>; }
impl Ts for Target { fn ts(self) -> Vec<Target> { vec![self] } }
impl Ts for BoolTarget { fn ts(self) -> Vec<Target> { vec![self.target] } }
impl Ts for HashOutTarget { fn ts(self) -> Vec<Target> { self.elements.to_vec() } }
impl<const N: usize> Ts for [Target; N] { fn ts(self) -> Vec<Target> { self.to_vec() } }
impl<A: Ts, B: Ts> Ts for (A, B) { fn ts(self) -> Vec<Target> { let mut v = self.0.ts(); v.extend(self.1.ts()); v } }
impl<A: Ts, B: Ts, X: Ts> Ts for (A, B, X) { fn ts(self) -> Vec<Target> { let mut v = self.0.ts(); v.extend(self.1.ts()); v.extend(self.2.ts()); v } }

type Val = Vec<F>;
pub struct Dim { name: &'static str, ts: Vec<Target>, vals: Vec<Val> }
fn dim(name: &'static str, t: impl Ts, vals: Vec<Val>) -> Dim {
    let ts = t.ts();
    assert!(vals.iter().all(|v| v.len() == ts.len()), "{name}");
    Dim { name, ts, vals }
}
pub enum Say { Skip, No, Yes(Vec<Val>) }
pub struct Case<'a> {
    name: &'static str,
    circuit: &'a Data,
    base: Vec<(Target, F)>,
    dims: Vec<Dim>,
    outs: Vec<(&'static str, Vec<Target>)>,
    rule: Box<dyn Fn(&[&[F]]) -> Say + Sync + 'a>,
}

// values
fn n(v: u64) -> Val { vec![f(v)] }
fn ns(v: &[u64]) -> Vec<Val> { v.iter().map(|x| n(*x)).collect() }
fn z4() -> Val { vec![F::ZERO; 4] }
fn x4(v: u64) -> Val { a4(v).to_vec() }
/// A hash, and those that differ from it in one place.
fn near(v: u64) -> Vec<Val> {
    let mut r = vec![x4(v)];
    for i in 0..4 { let mut y = x4(v); y[i] += F::ONE; r.push(y); }
    r
}
/// One place set.
fn thin(v: u64) -> Vec<Val> { (0..4).map(|i| { let mut y = z4(); y[i] = f(v); y }).collect() }
/// Presence and value of something that may be absent.
fn maybe(v: &[Val]) -> Vec<Val> {
    let mut r = vec![[n(0), z4()].concat()];
    r.extend(v.iter().map(|x| [n(1), x.clone()].concat()));
    r
}
fn cat(a: Vec<Val>, b: Vec<Val>) -> Vec<Val> { let mut r = a; r.extend(b); r }
fn hsh(l: &[F], r: &[F]) -> Val { Poseidon2Hash::hash_no_pad(&[l, r].concat()).elements.to_vec() }
fn bytes(v: &[F]) -> Vec<F> { v.iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).map(|b| f(b.into())).collect() }
fn hsh_bytes(l: &[F], r: &[F]) -> Val { Poseidon2Hash::hash_no_pad(&bytes(&[l, r].concat())).elements.to_vec() }
/// Hash of two nodes that may be absent, the one that is there, or nothing.
fn fwd(a: &[F], b: &[F]) -> Val {
    match (a[0].is_one(), b[0].is_one()) {
        (true, true) => [n(1), hsh(&a[1..], &b[1..])].concat(),
        (true, false) => a.to_vec(),
        _ => b.to_vec(),
    }
}
fn is_bool(x: &[F]) -> bool { x[0].is_zero() || x[0].is_one() }
fn key(t: &VerifierCircuitTarget, d: &Data) -> Vec<(Target, F)> {
    let mut r: Vec<_> = t.circuit_digest.elements.into_iter().zip(d.verifier_only.circuit_digest.elements).collect();
    for (t, v) in t.constants_sigmas_cap.0.iter().zip(&d.verifier_only.constants_sigmas_cap.0) { r.extend(t.elements.into_iter().zip(v.elements)); }
    r
}

fn run(c: &mc::Ctx, case: &Case) {
    let cd = &case.circuit.prover_only.circuit;
    let pis = &case.circuit.prover_only.public_inputs;
    // every public input is chosen, compared or the key
    let known: HashSet<usize> = case.base.iter().map(|x| x.0).chain(case.dims.iter().flat_map(|d| d.ts.clone())).chain(case.outs.iter().flat_map(|o| o.1.clone())).map(|t| cd.class(t)).collect();
    for (i, p) in pis.iter().enumerate() {
        c.check(known.contains(&cd.class(*p)), || format!("{}: a public input that is not looked at", case.name), || json!({"index": i}));
    }
    let total: usize = case.dims.iter().map(|d| d.vals.len()).product();
    c.info(&format!("{}: assignments", case.name), total);
    let chunk = 4096;
    c.par(case.name, total.div_ceil(chunk), |k, l| {
        plonky2::plonk::circuit_builder::set_panics(false);
        for i in k * chunk..((k + 1) * chunk).min(total) {
            let mut rest = i;
            let mut v: Vec<&[F]> = vec![];
            for d in &case.dims { v.push(&d.vals[rest % d.vals.len()]); rest /= d.vals.len(); }
            let want = (case.rule)(&v);
            if matches!(want, Say::Skip) { continue; }
            l.add("states", 1);
            let mut inp: HashMap<Target, F> = case.base.iter().copied().collect();
            let mut clash = false;
            for (d, x) in case.dims.iter().zip(&v) { for (t, x) in d.ts.iter().zip(*x) { clash |= inp.insert(*t, *x).is_some_and(|o| o != *x); } }
            let got = if clash { Err("set twice".to_string()) } else { cd.solve(&inp, &Default::default()) };
            let show = || json!(case.dims.iter().zip(&v).map(|(d, x)| (d.name.to_string(), json!(x.iter().map(|x| x.to_canonical_u64()).collect::<Vec<_>>()))).collect::<serde_json::Map<_, _>>());
            match (&want, got) {
                (Say::Yes(o), Ok(r)) => {
                    l.add("accepted", 1);
                    for ((name, ts), o) in case.outs.iter().zip(o) {
                        let got: Vec<Option<F>> = ts.iter().map(|t| r.try_get(*t)).collect();
                        c.check(got.iter().zip(o).all(|(g, o)| *g == Some(*o)), || format!("{}: states a wrong {name}", case.name), || json!({"inputs": show(), "stated": format!("{got:?}"), "right": format!("{o:?}")}));
                    }
                }
                (Say::Yes(_), Err(e)) => c.violation(format!("{}: refuses what it should accept", case.name), json!({"inputs": show(), "error": e})),
                (_, Ok(_)) => c.violation(format!("{}: accepts what it should refuse", case.name), show()),
                (_, Err(_)) => l.add("refused", 1),
            }
        }
    });
}



/// The two children and leaf flags of a tree of any height.
macro_rules! tree { ($w:expr, $circ:ident, $dims:ident, $base:ident, $l:ident, $r:ident) => {
    let u = &$w.$circ.unbounded.targets;
    let ($l, $r) = (&u.left_proof.public_inputs, &u.right_proof.public_inputs);
    $base.extend(key(&u.inputs.verifier, &$w.$circ.circuit));
    let $dims = vec![dim("left is leaf", u.left_is_leaf, ns(&[0, 1, 2])), dim("right is leaf", u.right_is_leaf, ns(&[0, 1, 2]))];
} }
fn flags_ok(v: &[&[F]]) -> bool { is_bool(v[0]) && is_bool(v[1]) }

pub fn n02(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    let w = world();
    // merge: leaf
    {
        let t = &w.merge_l.merge.targets.inputs;
        let hs = |v| cat(vec![z4(), x4(v)], thin(v));
        run(c, &Case {
            name: "merge leaf", circuit: &w.merge_l.circuit, base: key(&w.merge_l.unbounded.targets.inputs.verifier, &w.merge_b.circuit),
            dims: vec![dim("a present", t.a_present, ns(&[0, 1, 2])), dim("a", t.a_hash, hs(10)), dim("b present", t.b_present, ns(&[0, 1, 2])), dim("b", t.b_hash, cat(hs(20), vec![x4(10)]))],
            outs: vec![("merged", (t.merged_present, t.merged_hash).ts())],
            rule: Box::new(|v| {
                if !is_bool(v[0]) || !is_bool(v[2]) || v[0][0].is_zero() && v[1] != z4() || v[2][0].is_zero() && v[3] != z4() { return Say::No; }
                Say::Yes(vec![fwd(&[v[0], v[1]].concat(), &[v[2], v[3]].concat())])
            }),
        });
    }
    // merge: branch
    {
        let i = &w.merge_b.merge.indices;
        let mut base = vec![];
        tree!(w, merge_b, dims, base, l, r);
        let mut dims = dims;
        for (k, p) in [l, r].into_iter().enumerate() {
            let o = 100 * k as u64;
            let m = |v: u64| maybe(&[x4(v + o), z4()]);
            dims.push(dim("a", (i.a_present.get_target(p), i.a_hash.get_target(p)), m(10)));
            dims.push(dim("b", (i.b_present.get_target(p), i.b_hash.get_target(p)), m(20)));
            dims.push(dim("merged", (i.merged_present.get_target(p), i.merged_hash.get_target(p)), m(30)));
        }
        let p = &w.merge_b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "merge branch", circuit: &w.merge_b.circuit, base, dims,
            outs: vec![("a", (i.a_present.get_target(p), i.a_hash.get_target(p)).ts()), ("b", (i.b_present.get_target(p), i.b_hash.get_target(p)).ts()), ("merged", (i.merged_present.get_target(p), i.merged_hash.get_target(p)).ts())],
            rule: Box::new(|v| if flags_ok(v) { Say::Yes(vec![fwd(v[2], v[5]), fwd(v[3], v[6]), fwd(v[4], v[7])]) } else { Say::No }),
        });
    }
    // the root of a program's events: leaf
    {
        let e = &w.er_l.targets;
        let p = &w.er_l.circuit.prover_only.public_inputs;
        let edge = [0, 1, 0xFF, 0x100, 1 << 32, 1 << 63, F::ORDER - 1];
        let mut vals = cat(vec![z4(), x4(50)], thin(F::ORDER - 1));
        vals.extend(thin(0x0102_0304_0506_0708));
        run(c, &Case {
            name: "event root leaf", circuit: &w.er_l.circuit, base: key(&w.er_l.unbounded.targets.inputs.verifier, &w.er_b.circuit),
            dims: vec![
                dim("owner", w.er_l.event_owner.targets.inputs.values, vals.clone()), dim("type", e.event_ty, ns(&[0, 1, 2, 3, 4, 5])),
                dim("address", e.event_address, ns(&edge)), dim("value", e.event_value, vals)],
            outs: vec![("root", w.er_l.hash.indices.unpruned_hash.get_target(p).ts()), ("program's root", w.er_l.vm_hash.indices.unpruned_hash.get_target(p).ts())],
            rule: Box::new(|v| {
                let vm = [v[1], v[2], v[3]].concat();
                let all = [v[0], &vm].concat();
                // what the SDK makes of the event
                let native = |x: &[F]| {
                    use mozak_sdk::common::types::{CanonicalEvent, EventType as T, Poseidon2Hash as H2, StateAddress};
                    let ty = [T::Write, T::Ensure, T::Read, T::GiveOwner, T::TakeOwner].into_iter().nth(x[0].to_canonical_u64() as usize)?;
                    let b: Vec<u8> = bytes(&x[1..]).iter().map(|b| b.to_canonical_u64() as u8).collect();
                    let e = CanonicalEvent { address: StateAddress(b[..8].try_into().unwrap()), type_: ty, value: H2(b[8..].try_into().unwrap()) };
                    Some(e.canonical_hash().inner().chunks(8).map(|c| f(u64::from_le_bytes(c.try_into().unwrap()))).collect::<Val>())
                };
                let mine = Poseidon2Hash::hash_no_pad(&bytes(&vm)).elements.to_vec();
                Say::Yes(vec![Poseidon2Hash::hash_no_pad(&all).elements.to_vec(), native(&vm).unwrap_or(mine)])
            }),
        });
    }
    // branch
    {
        let b = &w.er_b;
        let mut base = vec![];
        tree!(w, er_b, dims, base, l, r);
        let mut dims = dims;
        for (k, p) in [l, r].into_iter().enumerate() {
            let o = 100 * k as u64;
            dims.push(dim("root", b.hash.indices.unpruned_hash.get_target(p), vec![x4(10 + o), thin(7)[3].clone()]));
            dims.push(dim("program's root", b.vm_hash.indices.unpruned_hash.get_target(p), vec![x4(20 + o), thin(9)[0].clone(), x4(F::ORDER - 9)]));
            dims.push(dim("owner", b.event_owner.indices.values.get_target(p), near(30)));
        }
        dims.push(dim("partial", b.hash.targets.extension.partial, ns(&[0, 1, 2])));
        let p = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "event root branch", circuit: &b.circuit, base, dims,
            outs: vec![("root", b.hash.indices.unpruned_hash.get_target(p).ts()), ("program's root", b.vm_hash.indices.unpruned_hash.get_target(p).ts()), ("owner", b.event_owner.indices.values.get_target(p).ts())],
            rule: Box::new(|v| {
                if !flags_ok(v) || !is_bool(v[8]) || v[4] != v[7] { return Say::No; }
                let one = v[8][0].is_one();
                Say::Yes(vec![if one { v[2].to_vec() } else { hsh(v[2], v[5]) }, if one { v[3].to_vec() } else { hsh_bytes(v[3], v[6]) }, v[4].to_vec()])
            }),
        });
    }
    // a program's proof and its events
    {
        let b = &w.vp_l;
        let pi = &w.programs[0].indices;
        let p = &b.program_verifier.targets.program_proof.public_inputs;
        let q = &b.event_verifier.targets.event_root_proof.public_inputs;
        let e = &w.er_b;
        let mut base = key(&b.unbounded.targets.inputs.verifier, &w.vp_b.circuit);
        base.extend(key(&e.unbounded.indices.verifier.get_target(q), &e.circuit));
        base.extend(key(&b.program_verifier.targets.program_verifier, &w.programs[0].circuit));
        let o = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "program", circuit: &b.circuit, base,
            dims: vec![
                dim("program", pi.program_hash.get_target(p), vec![x4(10), x4(1000)]), dim("events", (pi.events_present.get_target(p), pi.event_root.get_target(p)), cat(maybe(&cat(near(20), vec![z4()])), vec![[n(0), x4(20)].concat()])),
                dim("call list", pi.call_list.get_target(p), vec![x4(30), z4()]), dim("cast list", pi.cast_root.get_target(p), vec![x4(40), z4()]),
                dim("root", e.hash.indices.unpruned_hash.get_target(q), vec![x4(50), z4()]), dim("program's root", e.vm_hash.indices.unpruned_hash.get_target(q), vec![x4(20), z4()]),
                dim("owner", e.event_owner.indices.values.get_target(q), near(10))],
            outs: vec![
                ("program", b.program_id.indices.unpruned_hash.get_target(o).ts()), ("events", (b.events.indices.hash_present.get_target(o), b.events.indices.hash.get_target(o)).ts()),
                ("call list", b.call_list.indices.values.get_target(o).ts()), ("cast list", b.cast_root.indices.values.get_target(o).ts())],
            rule: Box::new(|v| {
                // without events the other proof says nothing but zeros
                if v[1][0].is_zero() && (v[4] != z4() || v[5] != z4()) { return Say::Skip; }
                if v[0] != v[6] || v[1][1..] != *v[5] { return Say::No; }
                Say::Yes(vec![v[0].to_vec(), [&v[1][..1], v[4]].concat(), v[2].to_vec(), v[3].to_vec()])
            }),
        });
    }
    let m = &w.merge_b.merge.indices;
    let embed = |q: &[Target], rich: bool| {
        let one = |v: u64| maybe(&if rich { near(v) } else { vec![x4(v)] });
        vec![
            dim("merged a", (m.a_present.get_target(q), m.a_hash.get_target(q)), one(20)), dim("merged b", (m.b_present.get_target(q), m.b_hash.get_target(q)), one(120)),
            dim("merged", (m.merged_present.get_target(q), m.merged_hash.get_target(q)), maybe(&[x4(500), z4()]))]
    };
    // programs of a transaction
    {
        let b = &w.vp_b;
        let mut base = vec![];
        tree!(w, vp_b, dims, base, l, r);
        base.extend(key(&w.merge_b.unbounded.indices.verifier.get_target(&b.events.targets.proof.public_inputs), &w.merge_b.circuit));
        // flags by themselves, to keep the product small
        for part in 0..3 {
            let mut dims: Vec<Dim> = dims.iter().map(|d| Dim { name: d.name, ts: d.ts.clone(), vals: if part == 0 { d.vals.clone() } else { ns(&[1]) } }).collect();
            for (k, p) in [l, r].into_iter().enumerate() {
                let o = 100 * k as u64;
                dims.push(dim("program", b.program_id.indices.unpruned_hash.get_target(p), vec![x4(10 + o)]));
                dims.push(dim("events", (b.events.indices.hash_present.get_target(p), b.events.indices.hash.get_target(p)), maybe(&[x4(20 + o)])));
                dims.push(dim("call list", b.call_list.indices.values.get_target(p), if part == 1 { near(30) } else { vec![x4(30)] }));
                dims.push(dim("cast list", b.cast_root.indices.values.get_target(p), if part == 1 { near(40) } else { vec![x4(40)] }));
            }
            dims.push(dim("partial", b.events.targets.partial, ns(&[0, 1, 2])));
            dims.extend(embed(&b.events.targets.proof.public_inputs, part == 2));
            let o = &b.circuit.prover_only.public_inputs;
            run(c, &Case {
                name: ["programs: flags", "programs: lists", "programs: events"][part], circuit: &b.circuit, base: base.clone(), dims,
                outs: vec![
                    ("program", b.program_id.indices.unpruned_hash.get_target(o).ts()), ("events", (b.events.indices.hash_present.get_target(o), b.events.indices.hash.get_target(o)).ts()),
                    ("call list", b.call_list.indices.values.get_target(o).ts()), ("cast list", b.cast_root.indices.values.get_target(o).ts())],
                rule: Box::new(|v| {
                    let one = v[10];
                    if !flags_ok(v) || !is_bool(one) || v[4] != v[8] || v[5] != v[9] { return Say::No; }
                    let one = one[0].is_one();
                    let none = maybe(&[]).remove(0);
                    if v[11] != v[3] || v[12] != if one { &none } else { v[7] } { return Say::No; }
                    Say::Yes(vec![if one { v[2].to_vec() } else { hsh_bytes(v[2], v[6]) }, v[13].to_vec(), v[4].to_vec(), v[5].to_vec()])
                }),
            });
        }
    }
    // a transaction
    {
        let (b, e) = (&w.tx_l, &w.vp_b);
        let q = &b.program_verifier.targets.program_set_proof.public_inputs;
        let mut base = key(&b.unbounded.targets.inputs.verifier, &w.tx_b.circuit);
        base.extend(key(&e.unbounded.indices.verifier.get_target(q), &e.circuit));
        let o = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "transaction", circuit: &b.circuit, base,
            dims: vec![
                dim("programs", e.program_id.indices.unpruned_hash.get_target(q), near(10)), dim("events", (e.events.indices.hash_present.get_target(q), e.events.indices.hash.get_target(q)), maybe(&cat(near(20), vec![z4()]))),
                dim("call list", e.call_list.indices.values.get_target(q), vec![x4(30), z4()]), dim("cast list", e.cast_root.indices.values.get_target(q), near(10))],
            outs: vec![("events", (b.events.indices.hash_present.get_target(o), b.events.indices.hash.get_target(o)).ts())],
            rule: Box::new(|v| if v[0] == v[3] { Say::Yes(vec![v[1].to_vec()]) } else { Say::No }),
        });
    }
    // transactions of a block
    {
        let b = &w.tx_b;
        let mut base = vec![];
        tree!(w, tx_b, dims, base, l, r);
        let mut dims = dims;
        base.extend(key(&w.merge_b.unbounded.indices.verifier.get_target(&b.events.targets.proof.public_inputs), &w.merge_b.circuit));
        for (k, p) in [l, r].into_iter().enumerate() {
            dims.push(dim("events", (b.events.indices.hash_present.get_target(p), b.events.indices.hash.get_target(p)), maybe(&[x4(20 + 100 * k as u64), z4()])));
        }
        dims.push(dim("partial", b.events.targets.partial, ns(&[0, 1, 2])));
        dims.extend(embed(&b.events.targets.proof.public_inputs, true));
        let o = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "transactions", circuit: &b.circuit, base, dims,
            outs: vec![("events", (b.events.indices.hash_present.get_target(o), b.events.indices.hash.get_target(o)).ts())],
            rule: Box::new(|v| {
                if !flags_ok(v) || !is_bool(v[4]) { return Say::No; }
                let none = maybe(&[]).remove(0);
                if v[5] != v[2] || v[6] != if v[4][0].is_one() { &none } else { v[3] } { return Say::No; }
                Say::Yes(vec![v[7].to_vec()])
            }),
        });
    }
}

pub fn n03(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    let w = world();
    // an address
    {
        let b = &w.su_l;
        let p = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "state leaf", circuit: &b.circuit, base: vec![],
            dims: vec![
                dim("old", b.old.targets.inputs.unpruned_hash, cat(vec![z4()], near(10))), dim("new", b.new.targets.inputs.unpruned_hash, cat(vec![z4()], near(10))),
                dim("present", b.summarized.targets.inputs.summary_hash_present, ns(&[0, 1, 2])),
                dim("address", b.address.targets.node_address, ns(&[0, 1, 2, 5, 1 << 32, (1 << 63) - 1, 1 << 63, F::ORDER - 2, F::ORDER - 1]))],
            outs: vec![("summary", b.summarized.indices.summary_hash.get_target(p).ts())],
            rule: Box::new(|v| {
                let present = v[2][0].is_one();
                if !is_bool(v[2]) || present == (v[3][0] == -F::ONE) || (v[0] != v[1] && !present) { return Say::No; }
                let hash = |v: &[F]| HashOut { elements: v.try_into().unwrap() };
                Say::Yes(vec![if present { summarize(v[3][0].to_canonical_u64(), hash(v[0]), hash(v[1])).elements.to_vec() } else { z4() }])
            }),
        });
    }
    for (level, b) in w.su_b.iter().enumerate() {
        let (l, r) = (&b.bounded.targets.left_proof.public_inputs, &b.bounded.targets.right_proof.public_inputs);
        let mut dims = vec![];
        for (k, p) in [l, r].into_iter().enumerate() {
            let o = 100 * k as u64;
            let mut at = vec![[n(0), z4(), vec![-F::ONE]].concat()];
            for h in [x4(10 + o), z4(), thin(3)[1].clone()] { for a in [0, 1, 2, 3, 4, 5, 6, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 62, (1 << 62) + 1, (1 << 63) - 2, (1 << 63) - 1, 1 << 63, (1 << 63) + 1] { at.push([n(1), h.clone(), n(a)].concat()); } }
            dims.push(dim("summary", (b.summarized.indices.summary_hash_present.get_target(p), b.summarized.indices.summary_hash.get_target(p), b.address.indices.node_address.get_target(p)), at));
            let mut hs = vec![x4(20 + o), z4()];
            hs.extend(thin(7 + o));
            dims.push(dim("old", b.old.indices.unpruned_hash.get_target(p), hs.clone()));
            dims.push(dim("new", b.new.indices.unpruned_hash.get_target(p), hs));
        }
        let p = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: ["state branch over leaves", "state branch"][level.min(1)], circuit: &b.circuit, base: vec![], dims,
            outs: vec![
                ("summary", (b.summarized.indices.summary_hash_present.get_target(p), b.summarized.indices.summary_hash.get_target(p)).ts()), ("address", b.address.indices.node_address.get_target(p).ts()),
                ("old root", b.old.indices.unpruned_hash.get_target(p).ts()), ("new root", b.new.indices.unpruned_hash.get_target(p).ts())],
            rule: Box::new(|v| {
                let (l, r) = (v[0], v[3]);
                let (la, ra) = (l[5].to_canonical_u64(), r[5].to_canonical_u64());
                // an address that is on the wrong side cannot be brought to the root
                let (lp, rp) = (l[0].is_one(), r[0].is_one());
                let at = match (lp, rp) {
                    (true, true) => { if la % 2 == 1 || ra % 2 == 0 { if la + 1 != ra { return Say::No; } return Say::Skip } if la / 2 != ra / 2 { return Say::No; } la / 2 }
                    (true, false) => { if la % 2 == 1 { return Say::Skip } la / 2 }
                    (false, true) => { if ra % 2 == 0 { return Say::Skip } ra / 2 }
                    _ => F::ORDER - 1,
                };
                Say::Yes(vec![fwd(&l[..5], &r[..5]), n(at), hsh(v[1], v[4]), hsh(v[2], v[5])])
            }),
        });
    }
    trees(c, w);
}

/// Every state of a small tree, every change of it, every way to say what
/// changed and where: what is accepted at the root is the change.
fn trees(c: &mc::Ctx, w: &World) {
    let height = w.su_b.len();
    let size = 1usize << height;
    let vals = [HashOut { elements: [F::ZERO; 4] }, h(10), h(20)];
    let states: Vec<Vec<usize>> = (0..3usize.pow(size as u32)).map(|i| (0..size).map(|k| i / 3usize.pow(k as u32) % 3).collect()).collect();
    let root = |s: &[H]| { let mut l = s.to_vec(); while l.len() > 1 { l = l.chunks(2).map(|p| hash_branch(&p[0], &p[1])).collect(); } l[0] };
    let top = w.su_b.last().unwrap();
    c.info("states of the tree", states.len());
    c.par("trees", states.len(), |n, l| {
        plonky2::plonk::circuit_builder::set_panics(false);
        for new in &states {
            let old = &states[n];
            // the address that each leaf claims: its own, none, or another's
            let mut ways: Vec<Vec<Option<u64>>> = vec![vec![]];
            for k in 0..size {
                ways = ways.into_iter().flat_map(|v| {
                    let mut opts = vec![None, Some(k as u64)];
                    opts.push(Some((k as u64 + 1) % size as u64));
                    opts.into_iter().map(move |o| { let mut v = v.clone(); v.push(o); v })
                }).collect();
            }
            for way in ways {
                let right = way.iter().enumerate().all(|(k, a)| match a { None => old[k] == new[k], Some(a) => *a == k as u64 });
                let foreign = way.iter().enumerate().filter(|(k, a)| a.is_some_and(|a| a != *k as u64)).count();
                if foreign > 1 && (c.quick() || n % 3 != 0) { continue; }
                l.add("states", 1);
                let leaves: Result<Vec<_>, _> = (0..size).map(|k| w.su_l.prove(vals[old[k]], vals[new[k]], way[k])).collect();
                let mut proof = None;
                if let Ok(leaves) = leaves {
                    let mut lev: Result<Vec<_>, anyhow::Error> = leaves.chunks(2).map(|p| w.su_b[0].prove(&p[0], &p[1])).collect();
                    for b in &w.su_b[1..] { lev = lev.and_then(|v| v.chunks(2).map(|p| b.prove(&p[0], &p[1])).collect()); }
                    proof = lev.ok().map(|mut v| v.remove(0));
                }
                let good = proof.filter(|p| (p.summary_present() && p.address() == 0) || (!p.summary_present() && p.address() == F::ORDER - 1 && p.summary() == vals[0]));
                let show = || json!({"old": old, "new": new, "addresses": way});
                if !right {
                    c.check(good.is_none(), || "a change is shown at another place, or hidden".into(), show);
                    continue;
                }
                let Some(p) = good else { c.violation("a change of the state cannot be shown", show()); continue };
                l.add("accepted", 1);
                // the summary: changes by common prefix
                let mut lev: Vec<Option<H>> = (0..size).map(|k| way[k].map(|a| summarize(a, vals[old[k]], vals[new[k]]))).collect();
                while lev.len() > 1 { lev = lev.chunks(2).map(|p| match (p[0], p[1]) { (Some(a), Some(b)) => Some(hash_branch(&a, &b)), (a, b) => a.or(b) }).collect(); }
                let of = |s: &[usize]| root(&s.iter().map(|i| vals[*i]).collect::<Vec<_>>());
                c.check(p.old() == of(old) && p.new() == of(new), || "the roots are not those of the state".into(), show);
                c.check(p.summary() == lev[0].unwrap_or_default() && p.summary_present() == lev[0].is_some(), || "the summary is not that of the changes".into(), show);
                c.check(top.verify(p).is_ok(), || "a genuine state update does not verify".into(), show);
            }
        }
    });
}

pub fn n05(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    let w = world();
    // the matches of a block
    {
        let b = &w.md_b;
        let mut base = vec![];
        tree!(w, md_b, dims, base, l, r);
        let mut dims = dims;
        for (k, p) in [l, r].into_iter().enumerate() {
            let o = 100 * k as u64;
            dims.push(dim("events", b.event_hash.indices.unpruned_hash.get_target(p), cat(vec![x4(10 + o)], thin(5 + o))));
            dims.push(dim("changes", b.state_hash.indices.unpruned_hash.get_target(p), cat(vec![x4(20 + o)], thin(6 + o))));
            dims.push(dim("height", b.block_height.indices.values.get_target(p), ns(&[1, 2, 1 << 32, F::ORDER - 1])));
        }
        dims.push(dim("partial", b.event_hash.targets.extension.partial, ns(&[0, 1, 2])));
        let p = &b.circuit.prover_only.public_inputs;
        run(c, &Case {
            name: "matches", circuit: &b.circuit, base, dims,
            outs: vec![("events", b.event_hash.indices.unpruned_hash.get_target(p).ts()), ("changes", b.state_hash.indices.unpruned_hash.get_target(p).ts()), ("height", b.block_height.indices.values.get_target(p).ts())],
            rule: Box::new(|v| {
                if !flags_ok(v) || !is_bool(v[8]) || v[4] != v[7] { return Say::No; }
                let one = v[8][0].is_one();
                let h = |a: usize, b: usize| if one { v[a].to_vec() } else { hsh(v[a], v[b]) };
                Say::Yes(vec![h(2, 5), h(3, 6), v[4].to_vec()])
            }),
        });
    }
    // the block
    let b = &w.vb;
    let i = &b.block.indices;
    let (tx, md, su, prev) = (&b.tx.targets.proof.public_inputs, &b.match_delta.targets.proof.public_inputs, &b.state_update.targets.proof.public_inputs, &b.block.prev_proof.public_inputs);
    let top = w.su_b.last().unwrap();
    let mut base = key(&b.block.inputs.verifier, &b.circuit);
    base.extend(key(&i.verifier.get_target(prev), &b.circuit));
    base.extend(key(&w.tx_b.unbounded.indices.verifier.get_target(tx), &w.tx_b.circuit));
    base.extend(key(&w.md_b.unbounded.indices.verifier.get_target(md), &w.md_b.circuit));
    let p = &b.circuit.prover_only.public_inputs;
    // one connection at a time has all its values
    for part in 0..5 {
        let some = |k: usize, v: u64| if part == k { near(v) } else { vec![x4(v)] };
        let hs = if part == 4 { vec![0, 1, 2, 1 << 32, F::ORDER - 2] } else { vec![0, 1] };
        run(c, &Case {
            name: ["block: events", "block: changes", "block: old state", "block: base", "block: height"][part], circuit: &b.circuit, base: base.clone(),
            dims: vec![
                dim("events of transactions", w.tx_b.events.indices.hash.get_target(tx), some(0, 10)), dim("events of matches", w.md_b.event_hash.indices.unpruned_hash.get_target(md), some(0, 10)),
                dim("changes of matches", w.md_b.state_hash.indices.unpruned_hash.get_target(md), some(1, 20)),
                dim("changes of state", (top.summarized.indices.summary_hash_present.get_target(su), top.summarized.indices.summary_hash.get_target(su), top.address.indices.node_address.get_target(su)),
                    some(1, 20).into_iter().flat_map(|x| [[n(1), x.clone(), n(0)].concat(), [n(1), x.clone(), n(1)].concat(), [n(1), x, n(1 << 63)].concat()]).chain([[n(0), z4(), vec![-F::ONE]].concat()]).collect()),
                dim("old state", top.old.indices.unpruned_hash.get_target(su), some(2, 30)), dim("new state", top.new.indices.unpruned_hash.get_target(su), vec![x4(40), x4(30), z4()]),
                dim("previous state", i.state_root.get_target(prev), if part == 3 { near(30) } else { some(2, 30) }), dim("base", i.base_state_root.get_target(prev), if part == 3 { cat(near(30), vec![x4(90), z4()]) } else { vec![x4(30), x4(90)] }),
                dim("previous height", i.block_height.get_target(prev), ns(&hs)), dim("height of matches", w.md_b.block_height.indices.values.get_target(md), ns(&hs.iter().map(|x| x + 1).chain([0]).collect::<Vec<_>>()))],
            outs: vec![("base", i.base_state_root.get_target(p).ts()), ("state", i.state_root.get_target(p).ts()), ("height", i.block_height.get_target(p).ts())],
            rule: Box::new(|v| {
                let first = v[8][0].is_zero();
                if v[0] != v[1] || v[3][0].is_zero() || *v[2] != v[3][1..5] || !v[3][5].is_zero() || v[4] != v[6] || v[8][0] + F::ONE != v[9][0] || first && v[6] != v[7] { return Say::No; }
                Say::Yes(vec![v[7].to_vec(), v[5].to_vec(), v[9].to_vec()])
            }),
        });
    }
    // the base: height zero, its state
    c.par("base", 1, |_, l| {
        plonky2::plonk::circuit_builder::set_panics(false);
        for s in near(30).into_iter().chain(thin(3)).chain([z4()]) {
            l.add("states", 1);
            let s = HashOut { elements: [s[0], s[1], s[2], s[3]] };
            match b.prove_base(s) {
                Ok(q) => {
                    let v = &q.proof.public_inputs;
                    c.check(i.base_state_root.get_field(v) == s && i.state_root.get_field(v) == s && i.block_height.get_field(v).is_zero(), || "the base does not state its state".into(), || json!({}));
                    c.check(b.verify_base(q).is_ok(), || "the base does not verify".into(), || json!({}));
                }
                Err(e) => c.violation("no proof of the base", json!({"error": e.to_string()})),
            }
        }
    });
}
