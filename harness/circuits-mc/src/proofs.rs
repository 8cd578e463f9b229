//! S06: the verifiers accept exactly the proofs of tables that satisfy the relation.
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

use anyhow::Result;
use mc::{guard, Ctx};
use mozak_circuits::stark::batch_prover::batch_prove;
use mozak_circuits::stark::batch_verifier::batch_verify_proof;
use mozak_circuits::stark::mozak_stark::{PublicInputs, TableKind, TableKindArray, PUBLIC_TABLE_KINDS};
use mozak_circuits::stark::proof::{AllProof, BatchProof, StarkProof};
use mozak_circuits::stark::prover::prove_with_traces;
use mozak_circuits::stark::recursive_verifier::{recursive_batch_stark_circuit, recursive_mozak_stark_circuit, MozakBatchStarkVerifierCircuit, MozakStarkVerifierCircuit, VM_RECURSION_CONFIG};
use mozak_circuits::stark::verifier::verify_proof;
use mozak_circuits::verif::D;
use mozak_runner::vm::{step, ExecutionRecord};
use plonky2::field::extension::FieldExtension;
use plonky2::field::polynomial::{PolynomialValues, CHEAT, DOCTOR};
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::iop::challenger::Challenger;
use plonky2::plonk::config::{GenericConfig, Poseidon2GoldilocksConfig};
use plonky2::util::timing::TimingTree;
use serde_json::json;
use starky::config::StarkConfig;

use crate::bridge::Setup;
use crate::honest::{li, program};
use crate::refvm::enc::*;
use crate::sys::*;

pub type C = Poseidon2GoldilocksConfig;
type Ext = <F as plonky2::field::extension::Extendable<D>>::Extension;
type Traces = TableKindArray<Vec<PolynomialValues<F>>>;
type Values = TableKindArray<Vec<Vec<Vec<F>>>>;
type Rec = ExecutionRecord<F>;

pub fn config() -> StarkConfig {
    let mut c = StarkConfig::standard_fast_config();
    c.fri_config.cap_height = 0;
    c.fri_config.rate_bits = 2;
    c
}
fn pis(s: &Setup) -> PublicInputs<F> { PublicInputs { entry_point: F::from_canonical_u32(s.entry) } }
fn poly(t: &Tables) -> Traces {
    TableKindArray(std::array::from_fn(|k| (0..t[k][0].len()).map(|c| PolynomialValues::new(t[k].iter().map(|r| r[c]).collect())).collect()))
}
fn kind(i: usize) -> TableKind { mozak_circuits::verif::kinds()[i] }

fn prove(sys: &Sys, s: &Setup, t: &Tables) -> Result<AllProof<F, C, D>, String> {
    let t = poly(t);
    guard(|| prove_with_traces::<F, C, D>(&sys.stark, &config(), pis(s), &t, &mut TimingTree::default()).map_err(|e| e.to_string())).and_then(|x| x)
}
fn verify(sys: &Sys, p: AllProof<F, C, D>) -> Result<(), String> { guard(|| verify_proof(&sys.stark, p, &config()).map_err(|e| e.to_string())).and_then(|x| x) }
type Deg = TableKindArray<usize>;
fn bprove(sys: &Sys, s: &Setup, r: &Rec) -> Result<(BatchProof<F, C, D>, Deg), String> {
    let p = s.program();
    guard(|| batch_prove::<F, C, D>(&p, r, &sys.stark, &PUBLIC_TABLE_KINDS, &config(), pis(s), &mut TimingTree::default()).map_err(|e| e.to_string())).and_then(|x| x)
}
fn bverify(sys: &Sys, p: BatchProof<F, C, D>, d: &Deg) -> Result<(), String> {
    guard(|| batch_verify_proof(&sys.stark, &PUBLIC_TABLE_KINDS, p, &config(), d).map_err(|e| e.to_string())).and_then(|x| x)
}
fn circuit(sys: &Sys, d: &Deg) -> MozakStarkVerifierCircuit<F, C, D> { recursive_mozak_stark_circuit::<F, C, D>(&sys.stark, d, &VM_RECURSION_CONFIG, &config()) }
fn bcircuit(sys: &Sys, d: &Deg) -> MozakBatchStarkVerifierCircuit<F, C, D> { recursive_batch_stark_circuit::<F, C, D>(&sys.stark, d, &PUBLIC_TABLE_KINDS, &VM_RECURSION_CONFIG, &config()) }
fn rec(c: &MozakStarkVerifierCircuit<F, C, D>, p: &AllProof<F, C, D>) -> Result<Vec<F>, String> { guard(|| c.prove(p).map(|p| p.public_inputs).map_err(|e| e.to_string())).and_then(|x| x) }
fn brec(c: &MozakBatchStarkVerifierCircuit<F, C, D>, p: &BatchProof<F, C, D>) -> Result<Vec<F>, String> { guard(|| c.prove(p).map(|p| p.public_inputs).map_err(|e| e.to_string())).and_then(|x| x) }

const FIXED: [[u8; 32]; 3] = {
    let mut f = [[0; 32]; 3];
    let mut i = 0;
    while i < 32 { f[0][i] = (i * 7 + 3) as u8; f[1][i] = 255 - i as u8; f[2][i] = i as u8 ^ 0x5A; i += 1; }
    f
};
fn call(id: u32, addr: u32, len: u32) -> Vec<u32> { [li(10, id), li(11, addr), li(12, len)].concat().into_iter().chain([ECALL]).collect() }
/// A program that uses every table.
fn everything() -> Setup {
    let mut w = vec![
        r(0, 0, 7, 5, 6), r(32, 0, 7, 5, 6), r(0, 4, 7, 5, 6), r(0, 7, 7, 5, 6), r(0, 1, 7, 5, 8), r(32, 5, 7, 6, 8), r(1, 0, 7, 5, 6), r(1, 1, 7, 5, 6),
        r(1, 4, 7, 6, 5), r(1, 6, 7, 6, 8), r(0, 3, 7, 5, 6), b(4, 5, 6, 4), b(1, 5, 6, 4), s(0, 0, 5, 0x700), s(1, 0, 6, 0x701), s(2, 0, 6, 0x704),
        i(3, 0, 7, 0, 0x700), i(3, 5, 7, 0, 0x701), i(3, 2, 7, 0, 0x704), i(3, 0, 7, 0, 0x480), i(3, 2, 7, 0, 0x400), addi(8, 7, -3),
    ];
    for id in [2, 4, 5, 6, 9] { w.extend(call(id, 0x500, 2)); }
    w.extend(call(7, 0x520, 32)); w.extend(call(8, 0x540, 32));
    w.extend([li(10, 3), li(11, 0x400), li(12, 8), li(13, 0x440)].concat());
    w.push(ECALL);
    let mut p = program(&w, vec![(5, 0x1234_5687), (6, 0x80FF_0012), (8, 5)]);
    p.fixed = FIXED;
    p.tapes = std::array::from_fn(|k| vec![k as u8 + 1, 0xFE, 3]);
    p.rw = (0..8).map(|k| (0x400 + k, (k * 29 + 1) as u8)).collect();
    p.ro = vec![(0x480, 0x81), (0x481, 7)];
    p
}
fn small() -> Setup {
    let mut p = program(&[addi(5, 5, 1), s(0, 0, 5, 0x700)], vec![]);
    p.fixed = FIXED;
    p
}
fn run_of(s: &Setup) -> Result<Rec, String> { let p = s.program(); guard(|| step(&p, s.state(&p)).map_err(|e| e.to_string())).and_then(|x| x) }

/// Everything that a proof says, apart from the proof itself.
struct Claim<'a> { proofs: &'a mut TableKindArray<StarkProof<F, C, D>>, entry: &'a mut F, values: &'a mut Values, id: &'a mut [u8; 32] }
fn with<R>(p: &mut AllProof<F, C, D>, f: impl FnOnce(&mut Claim) -> R) -> R {
    f(&mut Claim { proofs: &mut p.proofs, entry: &mut p.public_inputs.entry_point, values: &mut p.public_sub_table_values, id: &mut p.program_id.0 .0 })
}
fn bwith<R>(p: &mut BatchProof<F, C, D>, f: impl FnOnce(&mut Claim) -> R) -> R {
    f(&mut Claim { proofs: &mut p.proofs, entry: &mut p.public_inputs.entry_point, values: &mut p.public_sub_table_values, id: &mut p.program_id.0 .0 })
}

#[derive(Clone, Debug)]
enum Forgery {
    Open(usize, usize, usize), Move(usize, usize, usize, bool), Drop(usize, usize), Extend(usize, usize), Empty(usize, usize), SwapOpenings(usize, usize, usize),
    Cap(usize, usize), NoCap(usize, usize), Token(usize), Proofs(usize, usize), Entry(u64), Id(usize), Pub(usize, usize, usize, u64), PubSwap(usize, usize, usize, usize), PubDrop(usize, usize), PubMore(usize, usize, bool), PubWide(usize, usize, usize),
    PubTables(usize, bool), PubTableSwap(usize), PubCopy(usize, usize, usize), PubNarrow(usize, usize, usize),
}
/// The opened values: at zeta, then at its successor, then at the last point.
fn list<'a>(p: &'a mut StarkProof<F, C, D>, l: usize) -> &'a mut Vec<Ext> {
    match l { 0 => &mut p.openings.local_values, 1 => &mut p.openings.ctl_zs, 2 => &mut p.openings.quotient_polys, 3 => &mut p.openings.next_values, _ => &mut p.openings.ctl_zs_next }
}
/// Neighbours in the order in which openings are checked.
const NEIGHBOURS: [(usize, usize); 3] = [(0, 1), (1, 2), (3, 4)];
fn cap<'a>(p: &'a mut StarkProof<F, C, D>, l: usize) -> &'a mut Vec<<<C as GenericConfig<D>>::Hasher as plonky2::plonk::config::Hasher<F>>::Hash> {
    match l { 0 => &mut p.trace_cap.0, 1 => &mut p.ctl_zs_cap.0, _ => &mut p.quotient_polys_cap.0 }
}
/// False if the forgery does not change anything.
fn forge(c: &mut Claim, g: &Forgery) -> bool {
    use Forgery::*;
    match g {
        Open(k, 5, i) => c.proofs[kind(*k)].openings.ctl_zs_last[*i] += F::ONE,
        Open(k, l, i) => { let (l, j) = (l % 8, l / 8); let mut a = [F::ZERO; D]; a[j] = F::ONE; list(&mut c.proofs[kind(*k)], l)[*i] += Ext::from_basefield_array(a) }
        Move(k, a, b, all) => {
            let p = &mut c.proofs[kind(*k)];
            let from: Vec<Ext> = list(p, *a).clone();
            if from.is_empty() { return false; }
            let n = if *all { from.len() } else { 1 };
            if a < b {
                // the end of one goes to the front of the next
                let (keep, go) = from.split_at(from.len() - n);
                *list(p, *a) = keep.to_vec();
                let to = list(p, *b);
                *to = go.iter().chain(to.iter()).copied().collect();
            } else {
                let (go, keep) = from.split_at(n);
                *list(p, *a) = keep.to_vec();
                list(p, *b).extend(go);
            }
        }
        Drop(k, 5) => { c.proofs[kind(*k)].openings.ctl_zs_last.pop(); }
        Drop(k, l) => { list(&mut c.proofs[kind(*k)], *l).pop(); }
        Empty(k, 5) => c.proofs[kind(*k)].openings.ctl_zs_last.clear(),
        Empty(k, l) => list(&mut c.proofs[kind(*k)], *l).clear(),
        Extend(k, 5) => c.proofs[kind(*k)].openings.ctl_zs_last.push(F::ZERO),
        Extend(k, l) => list(&mut c.proofs[kind(*k)], *l).push(Ext::ZERO),
        SwapOpenings(k, 5, i) => { let v = &mut c.proofs[kind(*k)].openings.ctl_zs_last; if v[*i] == v[*i + 1] { return false; } v.swap(*i, *i + 1); }
        SwapOpenings(k, l, i) => { let v = list(&mut c.proofs[kind(*k)], *l); if v[*i] == v[*i + 1] { return false; } v.swap(*i, *i + 1); }
        Cap(k, l) => { for h in cap(&mut c.proofs[kind(*k)], *l) { h.elements[0] += F::ONE; } }
        NoCap(k, l) => cap(&mut c.proofs[kind(*k)], *l).clear(),
        Token(k) => { for x in &mut c.proofs[kind(*k)].opening_proof.final_poly.coeffs { *x += Ext::ONE; } }
        // the proofs of two tables that are not used can be the same
        Proofs(a, b) if format!("{:?}", c.proofs[kind(*a)].openings) == format!("{:?}", c.proofs[kind(*b)].openings) => return false,
        Proofs(a, b) => { let x = c.proofs[kind(*a)].clone(); c.proofs[kind(*a)] = c.proofs[kind(*b)].clone(); c.proofs[kind(*b)] = x; }
        Entry(d) => *c.entry += F::from_canonical_u64(*d),
        Id(i) => c.id[i / 2] = if i % 2 == 0 { c.id[i / 2].wrapping_add(1) } else { c.id[i / 2] ^ 0x80 },
        Pub(k, t, i, d) => c.values[kind(*k)][*t][*i][0] += F::from_canonical_u64(*d),
        PubSwap(k, t, i, j) => { let v = &mut c.values[kind(*k)][*t]; if v[*i] == v[*j] { return false; } v.swap(*i, *j); }
        PubCopy(k, t, i) => { let v = &mut c.values[kind(*k)][*t]; if v[*i] == v[*i + 1] { return false; } v[*i] = v[*i + 1].clone(); }
        PubDrop(k, t) => { c.values[kind(*k)][*t].pop(); }
        PubMore(k, t, z) => { let v = &mut c.values[kind(*k)][*t]; let x = if *z { vec![F::ZERO] } else { v[0].clone() }; v.push(x); }
        PubWide(k, t, i) => c.values[kind(*k)][*t][*i].push(F::ZERO),
        PubNarrow(k, t, i) => { c.values[kind(*k)][*t][*i].pop(); }
        PubTables(k, true) => c.values[kind(*k)].push(vec![vec![F::ONE]]),
        PubTables(k, false) => { if c.values[kind(*k)].pop().is_none() { return false; } }
        PubTableSwap(k) => { let v = &mut c.values[kind(*k)]; if v.len() < 2 { return false; } v.swap(0, 1); }
    }
    true
}
/// All single forgeries of a proof.
fn forgeries(p: &mut AllProof<F, C, D>, quick: bool) -> Vec<Forgery> {
    use Forgery::*;
    let mut out = vec![];
    let n = p.proofs.0.len();
    for k in 0..n {
        let q = &mut p.proofs[kind(k)];
        for l in 0..6 {
            let len = if l == 5 { q.openings.ctl_zs_last.len() } else { list(q, l).len() };
            for i in 0..len {
                out.push(Open(k, l, i));
                if l < 5 && !quick { out.push(Open(k, l + 8, i)); }
                if i + 1 < len && (!quick || i == 0 || i + 2 == len) { out.push(SwapOpenings(k, l, i)); }
            }
            out.push(Drop(k, l)); out.push(Extend(k, l)); out.push(Empty(k, l));
        }
        for (a, b) in NEIGHBOURS { for all in [false, true] { out.push(Move(k, a, b, all)); out.push(Move(k, b, a, all)); } }
        for l in 0..3 { out.push(Cap(k, l)); out.push(NoCap(k, l)); }
        out.push(Token(k));
        for j in k + 1..n { if !quick || j == k + 1 { out.push(Proofs(k, j)); } }
        let v = &p.public_sub_table_values[kind(k)];
        for (t, rows) in v.iter().enumerate() {
            for i in 0..rows.len() {
                for d in [1, 256, F::ORDER - 1] { out.push(Pub(k, t, i, d)); }
                for j in i + 1..rows.len() { if !quick || j == i + 1 || i == 0 { out.push(PubSwap(k, t, i, j)); } }
                out.push(PubWide(k, t, i)); out.push(PubNarrow(k, t, i));
                if i + 1 < rows.len() { out.push(PubCopy(k, t, i)); }
            }
            out.push(PubDrop(k, t)); out.push(PubMore(k, t, true)); out.push(PubMore(k, t, false));
        }
        out.push(PubTables(k, true)); out.push(PubTables(k, false)); out.push(PubTableSwap(k));
    }
    for d in [1, 4, 1 << 32, F::ORDER - 1] { out.push(Entry(d)); }
    for i in 0..64 { out.push(Id(i)); }
    out
}
fn class(g: &Forgery) -> String { format!("{g:?}").split('(').next().unwrap().to_string() }

/// Field square root.
fn sqrt(x: F) -> Option<F> {
    if x.is_zero() { return Some(x); }
    if x.exp_u64((F::ORDER - 1) / 2) != F::ONE { return None; }
    // Tonelli-Shanks, p - 1 = 2^32 * q
    let q = (F::ORDER - 1) >> 32;
    let mut m = 32;
    let mut c = F::from_canonical_u64(7).exp_u64(q);
    let mut t = x.exp_u64(q);
    let mut r = x.exp_u64((q + 1) / 2);
    while t != F::ONE {
        let mut i = 0;
        let mut u = t;
        while u != F::ONE { u = u * u; i += 1; }
        let mut b = c;
        for _ in 0..m - i - 1 { b = b * b; }
        m = i; c = b * b; t *= c; r *= b;
    }
    Some(r)
}
/// Three other values with the same two sums of inverses: a prover that knows the challenges before it has to
/// name its public values can choose them.
fn three_others(rows: [(F, F); 3], ch: &[(F, F)], x0: F) -> Option<[F; 3]> {
    // rows are (value, what is added to it under a challenge is index * beta + gamma)
    let off = |k: usize, j: usize| rows[j].1 * ch[k].0 + ch[k].1;
    let s: Vec<F> = (0..2).map(|k| (0..3).map(|j| (rows[j].0 + off(k, j)).inverse()).sum::<F>() - (x0 + off(k, 0)).inverse()).collect();
    // 1/(y+a_k) + 1/(z+b_k) = s_k:  (y+z) + a_k + b_k = s_k (yz + b_k y + a_k z + a_k b_k)
    // solve for z from k = 0, substitute into k = 1; with a = a_k etc.: z (1 - s a - s y) = s b y + s a b - y - a - b
    let (a0, b0, a1, b1) = (off(0, 1), off(0, 2), off(1, 1), off(1, 2));
    // z = (p0 y + q0) / (r0 y + t0), and the same with index 1; cross-multiply for a quadratic in y
    let frac = |s: F, a: F, b: F| (s * b - F::ONE, s * a * b - a - b, -s, F::ONE - s * a);
    let ((p0, q0, r0, t0), (p1, q1, r1, t1)) = (frac(s[0], a0, b0), frac(s[1], a1, b1));
    let (qa, qb, qc) = (p0 * r1 - p1 * r0, p0 * t1 + q0 * r1 - p1 * t0 - q1 * r0, q0 * t1 - q1 * t0);
    if qa.is_zero() { return None; }
    let d = sqrt(qb * qb - F::from_canonical_u64(4) * qa * qc)?;
    let y = (d - qb) * (qa + qa).inverse();
    let den = r0 * y + t0;
    if den.is_zero() { return None; }
    let z = (p0 * y + q0) * den.inverse();
    let v = [x0, y, z];
    for k in 0..2 {
        let sum = |w: [F; 3]| (0..3).map(|j| (w[j] + off(k, j)).inverse()).sum::<F>();
        assert_eq!(sum(v), sum([rows[0].0, rows[1].0, rows[2].0]), "arithmetic of the attack");
    }
    Some(v)
}

pub fn s06(ctx: &Ctx) {
    CHEAT.store(true, std::sync::atomic::Ordering::Relaxed);
    ctx.assume("polynomial commitments are binding and FRI is sound: an opening proof is valid for exactly the committed polynomials (stand-in for plonky2's FRI); everything else of the provers and verifiers is the repository's code");
    let sys = Sys::new();
    honest(ctx, &sys);
    ids(ctx, &sys);
    let full = everything();
    cells(ctx, &sys, "small", &small());
    cells(ctx, &sys, "everything", &full);
    sums(ctx, &sys, "small", &small());
    if !ctx.quick() { sums(ctx, &sys, "everything", &full); }
    records(ctx, &sys);
    claims(ctx, &sys, "small", &small());
    if !ctx.quick() { claims(ctx, &sys, "everything", &full); }
}

fn setups(quick: bool) -> Vec<(String, Setup)> {
    let mut v = vec![("everything".to_string(), everything()), ("small".into(), small()), ("halt".into(), program(&[], vec![]))];
    let bodies: Vec<(&str, Vec<u32>)> = vec![
        ("nop", vec![addi(0, 0, 0)]), ("mul", vec![r(1, 0, 7, 5, 6)]), ("div", vec![r(1, 4, 7, 5, 6)]), ("xor", vec![r(0, 4, 7, 5, 6)]), ("sra", vec![r(32, 5, 7, 5, 6)]), ("blt", vec![b(4, 5, 6, 4)]),
        ("sb", vec![s(0, 8, 5, 0)]), ("lw", vec![i(3, 2, 7, 8, 0), addi(8, 8, 1)]), ("io", vec![addi(10, 0, 4), addi(11, 8, 0), addi(12, 0, 1), ECALL]),
        ("hash", vec![addi(10, 0, 3), addi(11, 0, 0x600), addi(12, 0, 8), addi(13, 0, 0x600), ECALL]), ("x31", vec![addi(31, 31, 1)]),
    ];
    let counts: &[usize] = if quick { &[1, 9, 33] } else { &[0, 1, 2, 5, 8, 9, 16, 17, 31, 33, 70] };
    for (n, body) in bodies { for k in counts {
        let mut p = program(&(0..*k).flat_map(|_| body.clone()).collect::<Vec<_>>(), vec![(5, 0xFFFF_0003), (6, 0x1_0005), (8, 0x1000)]);
        p.tapes[1] = vec![5; 400];
        if k % 2 == 1 { p.fixed = FIXED; p.rw = (0..*k as u32).map(|a| (0x900 + a, 1)).collect(); p.ro = vec![(0xA00, 2)]; }
        v.push((format!("{n}:{k}"), p));
    }}
    v
}
fn expected(s: &Setup, id: &[u8; 32]) -> Vec<F> {
    [F::from_canonical_u32(s.entry)].into_iter().chain(id.iter().chain(&s.fixed[0]).chain(&s.fixed[1]).map(|b| F::from_canonical_u8(*b))).collect()
}

/// Every proof of a run is accepted by all four verifiers, and says what it should.
fn honest(ctx: &Ctx, sys: &Sys) {
    let v = setups(ctx.quick());
    ctx.par("honest", v.len(), |n, l| {
        let (name, s) = &v[n];
        let bad = |what: &str, e: String| ctx.violation(format!("honest:{what}:{name}"), json!({"program": name, "what": what, "error": e}));
        let r = run_of(s).unwrap();
        let p = s.program();
        let t = sys.traces(&p, &r);
        l.add("states", 1); l.add("traces_validated_against_impl", 4); l.outcome("honest");
        let proof = match prove(sys, s, &t) { Ok(p) => p, Err(e) => return bad("prove", e) };
        if let Err(e) = verify(sys, proof.clone()) { return bad("verify", e); }
        let c = circuit(sys, &proof.degree_bits(&config()));
        match rec(&c, &proof) { Err(e) => return bad("recursive", e), Ok(pi) => if pi != expected(s, &proof.program_id.0 .0) { return bad("recursive public inputs", format!("{pi:?}")); } }
        let (bp, d) = match bprove(sys, s, &r) { Ok(p) => p, Err(e) => return bad("batch prove", e) };
        if let Err(e) = bverify(sys, bp.clone(), &d) { return bad("batch verify", e); }
        match brec(&bcircuit(sys, &d), &bp) { Err(e) => return bad("recursive batch", e), Ok(pi) => if pi != expected(s, &bp.program_id.0 .0) { return bad("recursive batch public inputs", format!("{pi:?}")); } }
        if bp.program_id != proof.program_id { bad("program id", "the batch proof has another program id".into()); }
        if bp.public_sub_table_values != proof.public_sub_table_values { bad("public values", "the batch proof has other public values".into()); }
    });
}

/// The program id identifies the program, whatever it is run on.
fn ids(ctx: &Ctx, sys: &Sys) {
    let base = everything();
    let mut v: Vec<(String, Setup, usize)> = vec![("base".into(), base.clone(), 0)];
    let mut other = base.clone();
    other.tapes = Default::default(); other.fixed = [[9; 32]; 3]; other.regs = vec![];
    v.push(("inputs".into(), other, 0));
    let mut k = 1;
    // two words may encode the same instruction
    let decoded = |s: &Setup| { let p = s.program(); let mut c: Vec<String> = p.ro_code.iter().map(|(a, i)| format!("{a}:{i:?}")).collect(); c.sort(); c };
    let original = decoded(&base);
    let mut add = |n: String, s: Setup| { if n.starts_with("word") && decoded(&s) == original { return; } v.push((n, s, k)); k += 1; };
    for w in 0..base.code.len() {
        let mut s = base.clone(); s.code[w].1 ^= 0x100; add(format!("word {w} rd"), s);
        if !ctx.quick() { for bit in [9, 15, 20, 24] { let mut s = base.clone(); s.code[w].1 ^= 1 << bit; add(format!("word {w} bit {bit}"), s); } }
    }
    for n in 0..base.rw.len() { let mut s = base.clone(); s.rw[n].1 ^= 1; add(format!("rw {n}"), s); }
    for n in 0..base.ro.len() { let mut s = base.clone(); s.ro[n].1 ^= 0x80; add(format!("ro {n}"), s); }
    { let mut s = base.clone(); s.rw.pop(); add("rw shorter".into(), s); }
    { let mut s = base.clone(); s.rw.push((0x3FF, 0)); add("rw longer".into(), s); }
    { let mut s = base.clone(); let x = s.ro.pop().unwrap(); s.rw.push(x); add("writable".into(), s); }
    { let mut s = base.clone(); s.code.push((0x1000, addi(0, 0, 0))); add("more code".into(), s); }
    for e in [0x204, 0x208] { let mut s = base.clone(); s.entry = e; add(format!("entry {e:#x}"), s); }
    let seen: std::sync::Mutex<Vec<(usize, String, Vec<u8>)>> = std::sync::Mutex::new(vec![]);
    ctx.par("id", v.len(), |n, l| {
        let (name, s, g) = &v[n];
        // only the tables of the program matter: a program need not even end
        let p = s.program();
        use mozak_circuits::stark::utils::trace_rows_to_poly_values as columns;
        use plonky2::fri::oracle::PolynomialBatch;
        let rom = columns(mozak_circuits::program::generation::generate_program_rom_trace::<F>(&p));
        let elf = columns(mozak_circuits::memoryinit::generation::generate_elf_memory_init_trace::<F>(&p));
        let commit = |c| PolynomialBatch::<F, C, D>::from_values(c, 2, false, 0, &mut TimingTree::default(), None).merkle_tree.cap;
        let id = mozak_circuits::stark::prover::get_program_id::<F, C, D>(F::from_canonical_u32(s.entry), &commit(rom), &commit(elf));
        if *g == 0 {
            let want = prove(sys, s, &sys.traces(&p, &run_of(s).unwrap())).map(|p| p.program_id);
            if want.as_ref() != Ok(&id) { ctx.violation(format!("id:{name}"), json!({"program": name, "what": "the proof carries another id", "got": format!("{want:?}"), "want": format!("{id:?}")})); }
        }
        l.add("states", 1); l.outcome("id");
        seen.lock().unwrap().push((*g, name.clone(), id.0 .0.to_vec()));
    });
    let seen = seen.into_inner().unwrap();
    for (g, n, a) in &seen { for (h, m, b) in &seen {
        ctx.add("pairs", 1);
        if (g == h) != (a == b) { ctx.violation(format!("id:{n}:{m}"), json!({"programs": [n, m], "what": if a == b { "different programs have the same id" } else { "the same program has two ids" }})); }
    }}
}

/// A prover that commits to wrong tables is found out, and only then.
fn cells(ctx: &Ctx, sys: &Sys, name: &str, s: &Setup) {
    let t = { let p = s.program(); sys.traces(&p, &run_of(s).unwrap()) };
    let entry = F::from_canonical_u32(s.entry);
    let mut work = vec![];
    for (k, rows) in t.iter().enumerate() {
        for c in 0..rows[0].len() {
            // a row that differs from its neighbours in this column, if there is one
            let odd = (0..rows.len()).find(|i| rows[*i][c] != rows[(*i + 1) % rows.len()][c]);
            let mut at: Vec<usize> = if ctx.quick() { if name == "small" { vec![odd.unwrap_or(0)] } else { odd.into_iter().collect() } } else { odd.into_iter().chain([0, 1, rows.len() / 2, rows.len() - 1]).collect() };
            at.sort_unstable(); at.dedup();
            for r in at { work.push((k, c, r)); }
        }
    }
    ctx.par("cells", work.len(), |n, l| {
        let (k, c, r) = work[n];
        let mut x = t.clone();
        x[k][r][c] += F::ONE;
        l.add("states", 1); l.add("transitions", 1); l.add("traces_validated_against_impl", 1);
        let want = sys.verdict(&x, entry, &sys.public_values(&x));
        let got = prove(sys, s, &x).and_then(|p| verify(sys, p));
        l.outcome(if want.is_none() { "cell:harmless" } else { "cell:wrong" });
        if want.is_none() != got.is_ok() {
            ctx.violation(format!("cell:{name}:{k}:{c}:{r}"), json!({"program": name, "table": format!("{:?}", kind(k)), "column": c, "row": r, "relation": format!("{want:?}"), "verifier": format!("{got:?}")}));
        }
    });
}


/// Where a lookup sum is committed: in which batch, at which place.
type Z = (usize, usize);
#[derive(Clone, Copy, Debug)]
enum Edit { Nothing, From(Z, usize), At(Z, usize), Zero(Z), Pair(Z, Z, usize, usize) }
fn edit(e: Edit, call: usize, v: &mut [Vec<u64>]) -> bool {
    let plus = |x: &mut u64, d: F| *x = (F::from_canonical_u64(*x) + d).to_canonical_u64();
    // `num` out of four parts of the column
    let range = |n: usize, num: usize| n * num / 4..n;
    match e {
        Edit::From((n, c), k) if n == call => { let len = v[c].len(); for x in &mut v[c][range(len, k)] { plus(x, F::ONE); } true }
        Edit::At((n, c), k) if n == call => { let len = v[c].len(); plus(&mut v[c][(len * k / 4).min(len - 1)], F::ONE); true }
        Edit::Zero((n, c)) if n == call => { let was = v[c].iter().any(|x| *x != 0); v[c].iter_mut().for_each(|x| *x = 0); was }
        Edit::Pair(a, b, j, k) => {
            let mut changed = false;
            for (z, d, p) in [(a, F::ONE, j), (b, F::NEG_ONE, k)] { if z.0 == call { let len = v[z.1].len(); for x in &mut v[z.1][range(len, p)] { plus(x, d); } changed = true; } }
            changed
        }
        _ => false,
    }
}
/// Runs `f` while what is committed to for the lookups is edited. Returns whether anything was changed, and the
/// sizes of the edited batches.
fn doctored<R>(known: &std::sync::Arc<HashSet<Vec<u64>>>, e: Edit, f: impl FnOnce() -> R) -> (bool, Vec<usize>, R) {
    let state = Rc::new(RefCell::new((false, vec![])));
    let (st, known) = (state.clone(), known.clone());
    DOCTOR.with(|d| *d.borrow_mut() = Some(Box::new(move |v| {
        // lookup sums are the batches with a column that no table has
        if v.iter().all(|c| known.contains(c)) { return; }
        let mut st = st.borrow_mut();
        let n = st.1.len();
        st.1.push(v.len());
        st.0 |= edit(e, n, v);
    })));
    let r = f();
    DOCTOR.with(|d| *d.borrow_mut() = None);
    let s = state.borrow();
    (s.0, s.1.clone(), r)
}
/// Lookup sums other than the true ones are not accepted, even if they add up.
fn sums(ctx: &Ctx, sys: &Sys, name: &str, s: &Setup) {
    let t = { let p = s.program(); sys.traces(&p, &run_of(s).unwrap()) };
    let known: std::sync::Arc<HashSet<Vec<u64>>> = std::sync::Arc::new(t.iter().flat_map(|rows| (0..rows[0].len()).map(|c| rows.iter().map(|r| r[c].to_canonical_u64()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect());
    let ends: Vec<usize> = sys.kinds.iter().map(|k| sys.buses.iter().flatten().chain(sys.public.iter().map(|p| &p.0)).filter(|e| e.kind as usize == *k as usize).count()).collect();
    for batch in [false, true] {
        let attempt = |e: Edit| -> (bool, Vec<usize>, Result<(), String>) {
            doctored(&known, e, || if batch { bprove(sys, s, &run_of(s).unwrap()).and_then(|(p, d)| bverify(sys, p, &d)) } else { prove(sys, s, &t).and_then(|p| verify(sys, p)) })
        };
        let (_, widths, ok) = attempt(Edit::Nothing);
        if let Err(e) = ok { ctx.violation(format!("sums:{name}:{batch}"), json!({"what": "an honest proof is rejected", "error": e})); continue; }
        let zs: Vec<Z> = widths.iter().enumerate().flat_map(|(n, w)| (0..*w).map(move |c| (n, c))).collect();
        ctx.add("lookup_sums", zs.len() as u64);
        let mut work: Vec<Edit> = zs.iter().flat_map(|z| [Edit::From(*z, 0), Edit::From(*z, 2), Edit::At(*z, 4), Edit::At(*z, 0), Edit::At(*z, 2), Edit::Zero(*z)]).collect();
        if ctx.quick() { work.retain(|e| matches!(e, Edit::From(_, 0) | Edit::Zero(_)) || (matches!(e, Edit::From(..) | Edit::At(_, 4)) && !batch)); }
        // where the sum of end `j` of kind `k` is
        let place = |k: usize, j: usize| -> Z {
            let public = |k: usize| PUBLIC_TABLE_KINDS.iter().any(|p| *p as usize == k);
            if !batch { return (k, j); }
            if public(k) { return ((0..k).filter(|x| public(*x)).count(), j); }
            let before = (0..sys.kinds.len()).filter(|x| !public(*x) && (t[*x].len() > t[k].len() || (t[*x].len() == t[k].len() && *x < k))).map(|x| 2 * ends[x]).sum::<usize>();
            (PUBLIC_TABLE_KINDS.len(), before + j)
        };
        let mut next = vec![0; sys.kinds.len()];
        for b in &sys.buses {
            let at: Vec<Z> = b.iter().map(|e| { let k = e.kind as usize; next[k] += 1; place(k, next[k] - 1) }).collect();
            for w in at.windows(2) { for (j, k) in [(0, 0), (2, 2), (0, 2), (3, 0)] { if !ctx.quick() || j == k { work.push(Edit::Pair(w[0], w[1], j, k)); } } }
        }
        ctx.par("sums", work.len(), |n, l| {
            let (changed, _, got) = attempt(work[n]);
            if !changed { return; }
            l.add("states", 1); l.add("transitions", 1); l.outcome(format!("sums:{}", if batch { "batch" } else { "single" }));
            if got.is_ok() { ctx.violation(format!("sums:{name}:{batch}:{:?}", work[n]), json!({"program": name, "batch": batch, "edit": format!("{:?}", work[n]), "what": "accepted with wrong lookup sums"})); }
        });
    }
}

/// Changes of a recorded run.
#[derive(Clone, Debug)]
enum Lie { Nothing, Reg(usize, usize), Pc(usize), Clk(usize), Dst(usize), NewPc(usize), Halt(usize), Op1(usize), Op2(usize), MemAddr(usize), MemVal(usize), IoAddr(usize), IoByte(usize, usize), IoMore(usize), IoLess(usize), HashOut(usize), HashIn(usize), Drop(usize), Twice(usize), Swap(usize), Cut(usize), Last(usize), Ins(usize) }
fn lies(r: &Rec, quick: bool) -> Vec<Lie> {
    use Lie::*;
    let mut v = vec![Nothing];
    for (n, row) in r.executed.iter().enumerate() {
        let a = row.instruction.args;
        for g in [0, 5, a.rd, a.rs1, a.rs2, 31].into_iter().collect::<std::collections::BTreeSet<_>>() { v.push(Reg(n, g.into())); }
        v.extend([Pc(n), Clk(n), Dst(n), NewPc(n), Halt(n), Op1(n), Op2(n), Drop(n), Twice(n), Swap(n), Cut(n), Ins(n)]);
        if row.aux.mem.is_some() { v.extend([MemAddr(n), MemVal(n)]); }
        if let Some(e) = &row.aux.storage_device_entry {
            v.push(IoAddr(n)); v.push(IoMore(n)); v.push(IoLess(n));
            for j in 0..e.data.len() { if !quick || j < 2 || j == 31 { v.push(IoByte(n, j)); } }
        }
        if row.aux.poseidon2.is_some() { v.extend([HashOut(n), HashIn(n)]); }
    }
    v.extend((0..32).step_by(if quick { 5 } else { 1 }).map(Last));
    v
}
fn tell(r: &mut Rec, l: &Lie) {
    use Lie::*;
    let bump = |x: &mut u32| *x = x.wrapping_add(1);
    match l {
        Nothing => {}
        Reg(n, g) => bump(&mut r.executed[*n].state.registers[*g]),
        Pc(n) => r.executed[*n].state.pc = r.executed[*n].state.pc.wrapping_add(4),
        Clk(n) => r.executed[*n].state.clk += 1,
        Dst(n) => bump(&mut r.executed[*n].aux.dst_val),
        NewPc(n) => r.executed[*n].aux.new_pc = r.executed[*n].aux.new_pc.wrapping_add(4),
        Halt(n) => r.executed[*n].aux.will_halt ^= true,
        Op1(n) => bump(&mut r.executed[*n].aux.op1),
        Op2(n) => bump(&mut r.executed[*n].aux.op2),
        MemAddr(n) => bump(&mut r.executed[*n].aux.mem.as_mut().unwrap().addr),
        MemVal(n) => r.executed[*n].aux.mem.as_mut().unwrap().raw_value ^= 1,
        IoAddr(n) => bump(&mut r.executed[*n].aux.storage_device_entry.as_mut().unwrap().addr),
        IoByte(n, j) => r.executed[*n].aux.storage_device_entry.as_mut().unwrap().data[*j] ^= 0x11,
        IoMore(n) => r.executed[*n].aux.storage_device_entry.as_mut().unwrap().data.push(7),
        IoLess(n) => { r.executed[*n].aux.storage_device_entry.as_mut().unwrap().data.pop(); }
        HashOut(n) => r.executed[*n].aux.poseidon2.as_mut().unwrap().addr ^= 4,
        HashIn(n) => r.executed[*n].aux.poseidon2.as_mut().unwrap().len += 8,
        Drop(n) => { r.executed.remove(*n); }
        Twice(n) => { let x = r.executed[*n].clone(); r.executed.insert(*n, x); }
        Swap(n) => { if *n + 1 < r.executed.len() { r.executed.swap(*n, *n + 1); } }
        Cut(n) => r.executed.truncate(*n),
        Last(g) => bump(&mut r.last_state.registers[*g]),
        Ins(n) => r.executed[*n].instruction.args.imm = r.executed[*n].instruction.args.imm.wrapping_add(1),
    }
}
/// Whether a run that is recorded wrongly can be proved is decided by its tables alone, in a batch as well.
fn records(ctx: &Ctx, sys: &Sys) {
    for (name, s) in [("small", small()), ("everything", everything())] {
        let all = lies(&run_of(&s).unwrap(), ctx.quick());
        let entry = F::from_canonical_u32(s.entry);
        ctx.par("records", all.len(), |n, l| {
            let lie = &all[n];
            let mut r = run_of(&s).unwrap();
            tell(&mut r, lie);
            l.add("states", 1); l.add("transitions", r.executed.len() as u64); l.add("traces_validated_against_impl", 1);
            let p = s.program();
            let Ok(t) = guard(|| sys.traces(&p, &r)) else { l.outcome("record:no tables"); return };
            let want = sys.verdict(&t, entry, &sys.public_values(&t));
            l.outcome(if want.is_none() { "record:harmless" } else { "record:wrong" });
            if ctx.quick() && name == "everything" && n % 4 != 0 { return; }
            let got = bprove(sys, &s, &r);
            let (mut proof, d) = match got {
                Ok(x) => x,
                Err(e) => { if want.is_none() { ctx.violation(format!("record:{name}:{lie:?}:prove"), json!({"program": name, "lie": format!("{lie:?}"), "what": "no proof of correct tables", "error": e})); } return }
            };
            let got = bverify(sys, proof.clone(), &d);
            if want.is_none() != got.is_ok() {
                ctx.violation(format!("record:{name}:{lie:?}:verify"), json!({"program": name, "lie": format!("{lie:?}"), "relation": format!("{want:?}"), "verifier": format!("{got:?}")}));
            }
            if want.is_none() { return; }
            // the same openings in other places
            for (a, b) in [(2, 1), (1, 2)] {
                let was = proof.clone();
                bwith(&mut proof, |c| for k in &sys.kinds { if !PUBLIC_TABLE_KINDS.iter().any(|p| *p as usize == *k as usize) { forge(c, &Forgery::Move(*k as usize, a, b, true)); } });
                if bverify(sys, proof.clone(), &d).is_ok() {
                    ctx.violation("a batch proof with its openings in the wrong places", json!({"program": name, "lie": format!("{lie:?}"), "what": "a proof of tables that break the relation is accepted", "relation": format!("{want:?}"), "moved": [a, b]}));
                }
                proof = was;
            }
        });
    }
}

/// Nothing in a proof can be changed.
fn claims(ctx: &Ctx, sys: &Sys, name: &str, s: &Setup) {
    let t = { let p = s.program(); sys.traces(&p, &run_of(s).unwrap()) };
    let mut proof = prove(sys, s, &t).unwrap();
    let (bp, d) = bprove(sys, s, &run_of(s).unwrap()).unwrap();
    let all = forgeries(&mut proof, ctx.quick());
    let (c, bc) = (circuit(sys, &d), bcircuit(sys, &d));
    // a circuit has no interior mutability, but is not known to be shareable
    struct Sh<T>(T);
    unsafe impl<T> Sync for Sh<T> {}
    let (c, bc, proof, bp) = (Sh(c), Sh(bc), Sh(proof), Sh(bp));
    let (c, bc, proof, bp) = (&c, &bc, &proof, &bp);
    ctx.par("claims", all.len(), |n, l| {
        let g = &all[n];
        l.add("states", 1); l.add("transitions", 4); l.add("forgeries", 1);
        let key = |v: &str| format!("claim:{v}:{}", class(g));
        let bad = |v: &str| ctx.violation(key(v), json!({"program": name, "forgery": format!("{g:?}"), "verifier": v, "what": "accepts"}));
        let mut p = proof.0.clone();
        if !with(&mut p, |c| forge(c, g)) { return; }
        l.outcome(class(g));
        // a circuit has a place for every value, wherever it stands in the proof
        let moved = matches!(g, Forgery::Move(..));
        let heavy = !moved && (!ctx.quick() || n % 5 == 0 || !matches!(g, Forgery::Open(..)));
        if verify(sys, p.clone()).is_ok() { bad("single"); }
        if heavy && rec(&c.0, &p).is_ok() { bad("recursive"); }
        let mut p = bp.0.clone();
        let unused = |k: &usize| !PUBLIC_TABLE_KINDS.iter().any(|p| *p as usize == *k);
        // batched tables have no commitments and opening proofs of their own
        if matches!(g, Forgery::Cap(k, _) | Forgery::NoCap(k, _) | Forgery::Token(k) if unused(k)) { return; }
        if !bwith(&mut p, |c| forge(c, g)) { return; }
        if bverify(sys, p.clone(), &d).is_ok() { bad("batch"); }
        if heavy && brec(&bc.0, &p).is_ok() { bad("recursive batch"); }
    });
    // the commitments of the batch
    for w in 0..4 {
        let mut p = bp.0.clone();
        if w < 3 { for h in cap(&mut p.batch_stark_proof, w) { h.elements[0] += F::ONE; } } else { for x in &mut p.batch_stark_proof.opening_proof.final_poly.coeffs { *x += Ext::ONE; } }
        ctx.add("states", 1);
        if bverify(sys, p.clone(), &d).is_ok() { ctx.violation(format!("claim:batch:commitment:{w}"), json!({"what": "accepted with another commitment"})); }
        if brec(&bc.0, &p).is_ok() { ctx.violation(format!("claim:recursive batch:commitment:{w}"), json!({"what": "accepted with another commitment"})); }
    }
    for k in (0..sys.kinds.len()).filter(|k| !PUBLIC_TABLE_KINDS.iter().any(|p| *p as usize == *k)) { for up in [true, false] {
        let mut e = d.clone();
        if up { e[kind(k)] += 1 } else { e[kind(k)] -= 1 }
        ctx.add("states", 1);
        if bverify(sys, bp.0.clone(), &e).is_ok() { ctx.violation(format!("claim:degree:{k}:{up}"), json!({"what": "accepted for another table size"})); }
    }}
    // public values chosen in hindsight
    let mut challenger = Challenger::<F, <C as GenericConfig<D>>::Hasher>::new();
    for p in &proof.0.proofs { challenger.observe_cap(&p.trace_cap); }
    let ch = challenger.get_n_challenges(4);
    let mut bchallenger = Challenger::<F, <C as GenericConfig<D>>::Hasher>::new();
    for k in PUBLIC_TABLE_KINDS { bchallenger.observe_cap(&bp.0.proofs[k].trace_cap); }
    bchallenger.observe_cap(&bp.0.batch_stark_proof.trace_cap);
    let bch = bchallenger.get_n_challenges(4);
    for (batch, ch) in [(false, ch), (true, bch)] { for (k, indexed) in sys.kinds.iter().flat_map(|k| [(*k, false), (*k, true)]) { for tab in 0..proof.0.public_sub_table_values[k].len() {
        let rows = proof.0.public_sub_table_values[k][tab].clone();
        let mut done = 0;
        for x0 in 0..200u64 {
            if done == 3 { break; }
            let at: [usize; 3] = [0, 1, 2].map(|j| (j * 7 + done) % rows.len());
            let three = at.map(|i| (rows[i][0], if indexed { F::from_canonical_usize(i) } else { F::ZERO }));
            let Some(v) = three_others(three, &[(ch[0], ch[1]), (ch[2], ch[3])], F::from_canonical_u64(x0)) else { continue };
            if (0..3).all(|j| v[j] == three[j].0) { continue; }
            done += 1;
            ctx.add("states", 1); ctx.add("hindsight", 1);
            let put = |vals: &mut Values| for j in 0..3 { vals[k][tab][at[j]][0] = v[j]; };
            let bad = |w: &str| ctx.violation(format!("public values chosen in hindsight:{w}"), json!({"program": name, "table": format!("{k:?}"), "values": v.map(|x| x.0), "what": "values that no table has are accepted"}));
            if batch {
                let mut p = bp.0.clone(); put(&mut p.public_sub_table_values);
                if bverify(sys, p.clone(), &d).is_ok() { bad("batch"); }
                if brec(&bc.0, &p).is_ok() { bad("recursive batch"); }
            } else {
                let mut p = proof.0.clone(); put(&mut p.public_sub_table_values);
                if verify(sys, p.clone()).is_ok() { bad("single"); }
                if rec(&c.0, &p).is_ok() { bad("recursive"); }
            }
        }
    }}}
}
