//! C02: the identity the CLI computes for a program is the one its proofs are about.
use mc::{guard, Ctx};
use mozak_circuits::stark::batch_prover::batch_prove;
use mozak_circuits::stark::mozak_stark::{MozakStark, PublicInputs, PUBLIC_TABLE_KINDS};
use mozak_circuits::stark::prover::prove;
use mozak_circuits::stark::verifier::verify_proof;
use mozak_cli::runner::get_self_prog_id;
use mozak_runner::vm::step;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use plonky2::plonk::config::Poseidon2GoldilocksConfig as C;
use plonky2::util::timing::TimingTree;
use serde_json::json;
use starky::config::StarkConfig;

use crate::bridge::Setup;
use crate::refvm::enc::*;

const D: usize = 2;
const ENTRY: u32 = 0x200;

fn program(words: &[u32]) -> Setup {
    let code = words.iter().copied().chain([addi(10, 0, 0), ECALL]).enumerate().map(|(i, w)| (ENTRY + 4 * i as u32, w)).collect();
    Setup { entry: ENTRY, code, ..Default::default() }
}

pub fn c02(c: &Ctx) {
    c.assume("plonky2 and starky are the stand-ins of /verif/shims");
    let mut base = program(&[addi(5, 0, 7), r(0, 0, 6, 5, 5), s(0, 0, 6, 0x700), i(3, 4, 7, 0, 0x400)]);
    base.rw = vec![(0x400, 1), (0x401, 2), (0x500, 0)];
    base.ro = vec![(0x480, 0x81)];
    // programs that differ in one thing; the number tells which are the same
    let mut v: Vec<(String, Setup, usize)> = vec![("base".into(), base.clone(), 0)];
    let mut other = base.clone();
    other.tapes = std::array::from_fn(|k| vec![k as u8; 3]);
    other.fixed = [[9; 32]; 3];
    other.regs = vec![(9, 77)];
    v.push(("other inputs".into(), other, 0));
    // equal programs (an instruction has bits that mean nothing, and a word
    // that is no instruction is not part of the code) are the same
    let meaning = |s: &Setup| {
        let p = s.program();
        let mut c: Vec<String> = p.ro_code.iter().filter_map(|(a, i)| Some(format!("{a}:{:?}", i.as_ref().ok()?))).collect();
        for (k, m) in [("ro", &p.ro_memory), ("rw", &p.rw_memory)] { c.extend(m.iter().map(|(a, v)| format!("{k}{a}:{v}"))); }
        c.sort();
        c.push(format!("{}", p.entry_point));
        c
    };
    let mut groups = vec![meaning(&base)];
    let mut add = |n: String, s: Setup| {
        let m = meaning(&s);
        if groups.contains(&m) { return; }
        v.push((n, s, groups.len()));
        groups.push(m);
    };
    for w in 0..base.code.len() {
        for bit in c.pick(vec![7, 12, 20], (7..32).collect()) { let mut s = base.clone(); s.code[w].1 ^= 1 << bit; add(format!("word {w} bit {bit}"), s); }
        let mut s = base.clone(); let mut x = s.code.remove(w); x.0 += 0x800; s.code.push(x); add(format!("word {w} elsewhere"), s);
    }
    for w in 1..base.code.len() { let mut s = base.clone(); s.code[w].1 = base.code[w - 1].1; s.code[w - 1].1 = base.code[w].1; add(format!("word order {w}"), s); }
    for n in 0..base.rw.len() {
        for bit in 0..8 { let mut s = base.clone(); s.rw[n].1 ^= 1 << bit; add(format!("rw {n} bit {bit}"), s); }
        let mut s = base.clone(); s.rw[n].0 += 8; add(format!("rw {n} elsewhere"), s);
        let mut s = base.clone(); let x = s.rw.remove(n); add(format!("rw without {n}"), s.clone()); s.ro.push(x); add(format!("rw {n} as ro"), s);
    }
    { let mut s = base.clone(); s.ro[0].1 = 0; add("ro value".into(), s); }
    { let mut s = base.clone(); let x = s.ro.remove(0); s.rw.push(x); add("ro as rw".into(), s); }
    { let mut s = base.clone(); s.ro.clear(); s.rw.clear(); add("no memory".into(), s); }
    for e in [ENTRY + 4, ENTRY + 8, ENTRY + 16] { let mut s = base.clone(); s.entry = e; add(format!("entry {e:#x}"), s); }
    // sizes around powers of two
    for n in c.pick(vec![1usize, 2, 6, 14], vec![1, 2, 3, 5, 6, 7, 13, 14, 15, 30, 62, 126]) {
        for d in 0..2usize { add(format!("{} words", n + d), program(&vec![addi(5, 5, 1); n + d])); }
        let mut s = base.clone(); s.rw = (0..n as u32).map(|a| (0x400 + a, 3)).collect(); add(format!("{n} bytes"), s);
    }
    let configs: Vec<StarkConfig> = [(0, 2), (4, 1)].iter().map(|(cap, rate)| { let mut c = StarkConfig::standard_fast_config(); c.fri_config.cap_height = *cap; c.fri_config.rate_bits = *rate; c }).collect();
    for (n, config) in configs.iter().enumerate() {
        if n == 1 && guard(|| get_self_prog_id::<F, C, D>(&base.program(), config)).is_err() { c.info("cap height 4", "the stand-in does not make caps higher than the tree"); continue; }
        let seen = std::sync::Mutex::new(vec![]);
        c.par(&format!("identity {n}"), v.len(), |at, l| {
            let (name, s, g) = &v[at];
            let p = s.program();
            let id = match guard(|| get_self_prog_id::<F, C, D>(&p, config)) { Ok(x) => x, Err(e) => { c.violation(format!("identity:{name}"), json!({"program": name, "error": e})); return; } };
            seen.lock().unwrap().push((*g, name.clone(), id));
            l.add("states", 1);
            // what the proof is about, if there is one
            let Ok(Ok(rec)) = guard(|| step(&p, s.state(&p))) else { l.outcome("does not run"); return };
            let pis = PublicInputs { entry_point: F::from_canonical_u32(p.entry_point) };
            let stark = MozakStark::<F, D>::default();
            let fail = |what: &str, got: String| c.violation(format!("identity:{name}"), json!({"program": name, "what": what, "got": got, "identity": format!("{id:?}")}));
            match guard(|| prove::<F, C, D>(&p, &rec, &stark, config, pis, &mut TimingTree::default()).map_err(|e| e.to_string())).and_then(|x| x) {
                Err(e) => { l.outcome("not proved"); if name == "base" || name == "other inputs" { fail("proving fails", e); } }
                Ok(proof) => {
                    l.add("transitions", 1); l.add("traces_validated_against_impl", 1); l.outcome("proved");
                    if proof.program_id != id { fail("the proof is about another identity", format!("{:?}", proof.program_id)); return; }
                    if let Err(e) = guard(|| verify_proof(&stark, proof.clone(), config).map_err(|e| e.to_string())).and_then(|x| x) { fail("the proof is refused", e); return; }
                    // nor can it be presented as that of another program
                    let mut forged = proof;
                    forged.program_id.0 .0[at % 32] ^= 1;
                    if guard(|| verify_proof(&stark, forged, config).map_err(|e| e.to_string())).and_then(|x| x).is_ok() { fail("a proof is accepted for another identity", String::new()); return; }
                }
            }
            match guard(|| batch_prove::<F, C, D>(&p, &rec, &stark, &PUBLIC_TABLE_KINDS, config, pis, &mut TimingTree::default()).map_err(|e| e.to_string())).and_then(|x| x) {
                Err(_) => l.outcome("not proved as a batch"),
                Ok((proof, _)) => { l.add("transitions", 1); if proof.program_id != id { fail("the batch proof is about another identity", format!("{:?}", proof.program_id)); } }
            }
        });
        let seen = seen.into_inner().unwrap();
        for (g, n, a) in &seen { for (h, m, b) in &seen {
            c.add("pairs", 1);
            if (g == h) != (a == b) { c.violation(format!("identity:{n}:{m}"), json!({"programs": [n, m], "what": if a == b { "different programs have the same identity" } else { "the same program has two identities" }})); }
        } }
    }
    c.info("programs", v.len());
    c.info("oracle", "the identity in the proof of a run of the program; equal exactly for equal code, memory and entry point");
    c.info("exhaustive", true);
}
