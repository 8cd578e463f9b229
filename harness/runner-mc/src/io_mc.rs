//! R04 read-only memory, R06 tapes, R07 environment calls and halting, R10 Poseidon2 precompile.
use mc::{guard, Ctx, Local};
use mozak_runner::vm::{step, Row};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::Field;
use plonky2::hash::poseidon2::Poseidon2;
use serde_json::json;

use crate::bridge::{diff, lockstep, row_diff, Setup, StepOut};
use crate::refvm::{enc::*, ref_sponge, RefVm};

fn tick(l: &mut Local, n: u64) { l.add("states", n + 1); l.add("transitions", n); l.add("traces_validated_against_impl", 1); }

/// Steps both machines with the given register presets before each step; all at one ECALL/store word per pc.
struct Seq { p: mozak_runner::elf::Program, s: crate::bridge::St, r: RefVm }
impl Seq {
    fn new(setup: &Setup) -> Seq { let p = setup.program(); let s = setup.state(&p); Seq { s, r: setup.reference(), p } }
    fn go(&mut self, pc: u32, regs: &[(u8, u32)]) -> StepOut {
        self.s.pc = pc; self.r.pc = pc;
        for (i, v) in regs { self.s.registers[*i as usize] = *v; self.r.x[*i as usize] = *v; }
        let before = (self.s.clone(), self.r.clone());
        let out = lockstep(&self.p, &mut self.s, &mut self.r, true);
        if let StepOut::Same(e) = &out {
            if let Ok(Ok((aux, instruction, _))) = guard(|| before.0.clone().execute_instruction(&self.p)) {
                if let Some(d) = row_diff(&Row { state: before.0, aux, instruction }, &before.1, &self.r, e) { return StepOut::Differs(format!("record: {d}")); }
            }
        }
        out
    }
}

pub fn r04(ctx: &Ctx) {
    // Layouts of read-only and writable bytes around 0x1000 (8 cells: each absent/ro/rw/both).
    let cells = 6u32;
    let n = 4usize.pow(cells);
    let bases = [0x1000u32, 0xFFFF_FFFD];
    ctx.par("layouts", n * 2, |i, l| {
        let base = bases[i / n];
        let mut setup = Setup { entry: 0x200, code: vec![(0x200, s(0, 8, 11, 0)), (0x204, s(1, 8, 11, 0)), (0x208, s(2, 8, 11, 0)), (0x20C, ECALL), (0x210, i_lw())], ..Default::default() };
        setup.tapes = [vec![0xA0; 8], vec![0xB0, 0xB1, 0xB2, 0xB3, 0xB4, 0xB5], vec![], vec![]];
        let mut k = i % n;
        for c in 0..cells {
            let a = base.wrapping_add(c);
            if k % 4 & 1 == 1 { setup.ro.push((a, 0x10 + c as u8)); }
            if k % 4 & 2 == 2 { setup.rw.push((a, 0x20 + c as u8)); }
            k /= 4;
        }
        let init = Seq::new(&setup);
        if let Some(d) = diff(&init.s, &init.r, true) { ctx.violation(format!("layout:{base:x}:{}", i % n), json!({"ro": setup.ro, "rw": setup.rw, "what": format!("initial memory: {d}")})); return; }
        for at in 0..cells {
            let a = base.wrapping_add(at).wrapping_sub(1);
            let tries: [(u32, Vec<(u8, u32)>); 9] = [
                (0x200, vec![(8, a), (11, 0xEE)]), (0x204, vec![(8, a), (11, 0xEEEF)]), (0x208, vec![(8, a), (11, 0xE0E1_E2E3)]), (0x210, vec![(8, a)]),
                (0x208, vec![(8, a), (11, 0x0)]),
                (0x20C, vec![(10, 4), (11, a), (12, 3)]), (0x20C, vec![(10, 2), (11, a), (12, 1)]), (0x20C, vec![(10, 9), (11, a), (12, 4)]), (0x20C, vec![(10, 4), (11, a), (12, 0)]),
            ];
            for (t, (pc, regs)) in tries.iter().enumerate() {
                let mut q = Seq { p: init.p.clone(), s: init.s.clone(), r: init.r.clone() };
                tick(l, 1);
                match q.go(*pc, regs) {
                    StepOut::Differs(d) => { ctx.violation(format!("ro:{base:x}:{}:{at}:{t}", i % n), json!({"ro": setup.ro, "rw": setup.rw, "access_at": format!("{a:#x}"), "kind": t, "what": d})); return; }
                    StepOut::Refused => { l.add("refused_as_required", 1); l.outcome(format!("refused kind {t}")); }
                    _ => l.outcome(format!("done kind {t}")),
                }
            }
            // the digest of the hash call lands in 32 bytes; only some of them may be read-only
            if at == 0 { for off in [0u32, 26, 27, 30, 31, 32] {
                let mut q = Seq { p: init.p.clone(), s: init.s.clone(), r: init.r.clone() };
                tick(l, 1);
                if let StepOut::Differs(d) = q.go(0x20C, &[(10, 3), (11, 0x3000), (12, 8), (13, base.wrapping_sub(off))]) {
                    ctx.violation(format!("ro-hash:{base:x}:{}:{off}", i % n), json!({"ro": setup.ro, "rw": setup.rw, "output": off, "what": d}));
                }
            } }
        }
    });
    // Histories: sequences of writes; read-only bytes keep their value throughout, writable bytes hold the last write.
    let ops: Vec<(u32, u32, u32)> = (0..3).flat_map(|w| [0u32, 2, 3, 4, 6].map(|o| (0x200 + 4 * w, 0x1000 + o, 0x5051_5253 + o * 0x0404_0404))).collect();
    let depth = ctx.pick(3, 4);
    let total = ops.len().pow(depth);
    ctx.par("write-histories", total, |k, l| {
        let setup = Setup { entry: 0x200, code: vec![(0x200, s(0, 8, 11, 0)), (0x204, s(1, 8, 11, 0)), (0x208, s(2, 8, 11, 0))],
            ro: vec![(0x1000, 1), (0x1001, 2), (0x1008, 3)], rw: vec![(0x1002, 4), (0x1003, 5), (0x1004, 6)], ..Default::default() };
        let mut q = Seq::new(&setup);
        let mut k2 = k;
        for _ in 0..depth {
            let (pc, a, v) = ops[k2 % ops.len()];
            k2 /= ops.len();
            match q.go(pc, &[(8, a), (11, v)]) {
                StepOut::Differs(d) => { ctx.violation(format!("history:{k}"), json!({"history": k, "what": d})); return; }
                StepOut::Same(_) => {}
                _ => break,
            }
        }
        tick(l, u64::from(depth));
    });
    ctx.info("bounds", format!("all 4^6 assignments of {{absent, read-only, writable, both}} to 6 adjacent bytes at two bases (one wrapping), each with 9 access kinds at 6 offsets and hash outputs straddling the region; all store histories of length {depth} over {} stores", ops.len()));
    ctx.info("oracle", "reference machine: a write touching any read-only byte is refused, otherwise exactly the addressed bytes change; read-only image wins over writable image");
    ctx.info("exhaustive", true);
    ctx.sample(json!({"layout": "rw rw ro ro - both", "access": "sw at byte 1", "expected": "refused"}));
}
fn i_lw() -> u32 { i(0x03, 2, 12, 8, 0) }

pub fn r06(ctx: &Ctx) {
    let ids = [2u32, 4, 5, 6, 7, 8, 9];
    let setups: Vec<Setup> = [[5usize, 3, 4, 0], [0, 0, 0, 0], [40, 33, 1, 2]].iter().map(|lens| Setup {
        entry: 0x200, code: vec![(0x200, ECALL)],
        tapes: std::array::from_fn(|t| (0..lens[t]).map(|k| (0x11 * (t + 1) + 7 * k) as u8 | 1).collect()),
        fixed: std::array::from_fn(|t| std::array::from_fn(|k| (0x80 + 0x20 * t + k) as u8)),
        rw: (0..8).map(|k| (0x1000 + k, 0xEE)).collect(), ..Default::default() }).collect();
    // a tape made from program data holds its bytes in address order
    ctx.par("tape-from-data", 1 << 10, |mask, l| {
        let m: Vec<(u32, u8)> = (0..10).filter(|k| mask >> k & 1 == 1).map(|k| ([9u32, 2, 0xFFFF_FFFF, 1, 0x8000_0000, 0, 77, 4, 3, 0x1000][k], 0xA0 + k as u8)).collect();
        let want: Vec<u8> = m.iter().copied().collect::<std::collections::BTreeMap<u32, u8>>().into_values().collect();
        let t = mozak_runner::state::StorageDeviceTape::from(mozak_runner::elf::Data(m.into_iter().collect()));
        l.add("states", 1);
        ctx.check(t.data[..] == want[..] && t.read_index == 0, || format!("tape-from-data:{mask:x}"), || json!({"got": format!("{:x?}", t.data), "expected": format!("{want:x?}")}));
    });
    // sequences of reads at one buffer
    let lens: Vec<u32> = ctx.pick(vec![0, 1, 2, 3, 33], vec![0, 1, 2, 3, 5, 33]);
    let ops: Vec<(u32, u32)> = ids.iter().flat_map(|i| lens.iter().map(move |n| (*i, *n))).collect();
    let depth = 3u32;
    ctx.par("read-histories", setups.len() * ops.len() * ops.len(), |i, l| {
        let setup = &setups[i / ops.len() / ops.len()];
        for last in 0..ops.len() {
            let h = [ops[i % ops.len()], ops[i / ops.len() % ops.len()], ops[last]];
            let mut q = Seq::new(setup);
            for (k, (id, n)) in h.iter().enumerate() {
                match q.go(0x200, &[(10, *id), (11, 0x1000 + 3 * k as u32), (12, *n)]) {
                    StepOut::Differs(d) => { ctx.violation(format!("tapes:{i}:{last}"), json!({"history": h, "call": k, "what": d})); return; }
                    o => if last == 0 { l.outcome(format!("{:?}", std::mem::discriminant(&o))) },
                }
            }
            if last == 7 { l.outcome(format!("cursors {:?}", q.r.cursor)); }
            tick(l, 3);
        }
    });
    if !ctx.quick() {
        let small: Vec<(u32, u32)> = ids.iter().flat_map(|i| [1u32, 2, 33].map(|n| (*i, n))).collect();
        let m = small.len();
        ctx.par("read-histories-5", m * m * m, |i, l| {
            for t in 0..m * m {
                let h = [small[i % m], small[i / m % m], small[i / m / m], small[t % m], small[t / m]];
                let mut q = Seq::new(&setups[0]);
                for (k, (id, n)) in h.iter().enumerate() {
                    if let StepOut::Differs(d) = q.go(0x200, &[(10, *id), (11, 0x1000 + 3 * k as u32), (12, *n)]) {
                        ctx.violation(format!("tapes5:{i}:{t}"), json!({"history": h, "call": k, "what": d})); return;
                    }
                }
                tick(l, 5);
            }
        });
    }
    // every requested length, at ordinary, overlapping-with-zero and wrapping buffers
    ctx.par("read-lengths", setups.len() * 7, |i, l| {
        let (setup, id) = (&setups[i / 7], ids[i % 7]);
        for n in (0..80).chain([255, 256, 257, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]) {
            for ptr in [0x1000u32, 0, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x0FFF_FFFF, 0x7FFF_FFFE] {
                let mut q = Seq::new(setup);
                for k in 0..2 {
                    if let StepOut::Differs(d) = q.go(0x200, &[(10, id), (11, ptr), (12, n)]) {
                        ctx.violation(format!("len:{i}:{n}:{ptr:x}"), json!({"tape": id, "requested": n, "buffer": format!("{ptr:#x}"), "call": k, "what": d})); return;
                    }
                }
                tick(l, 2);
            }
        }
    });
    ctx.info("bounds", format!("all histories of {depth} reads over 7 tapes x {} lengths on 3 tape configurations (5 reads over 3 lengths in the thorough tier); all lengths 0..80 and extremes at 6 buffers", lens.len()));
    ctx.info("oracle", "reference tapes: independent cursors, min(requested, remaining) bytes, fixed 32-byte tapes restart at 0 on every read, untouched bytes unchanged");
    ctx.info("exhaustive", true);
    ctx.sample(json!({"history": "private 2, private 33, public 1", "expected": "private[0..2], private[2..5], public[0..1]"}));
}

pub fn r07(ctx: &Ctx) {
    // every ecall number class x arguments: only 0 halts, only 1 stops abnormally, unknown numbers do nothing
    let nums: Vec<u32> = (0..4096u32).chain((12..32).map(|k| 1 << k)).chain((12..32).map(|k| (1u32 << k) - 1)).chain([0xFFFF_FFFF, 0x8000_0001, 0x100, 0x10000, 0x1_0003]).collect();
    let args = [0u32, 1, 3, 8, 0x1000, 0x1004, 0x7FFF_FFFF, 0xFFFF_FFF8, 0xFFFF_FFFF];
    ctx.par("ecall-numbers", nums.len(), |i, l| {
        let id = nums[i];
        let setup = Setup { entry: 0x200, code: vec![(0x200, ECALL)], tapes: std::array::from_fn(|t| vec![t as u8 + 1; 9]), rw: (0..16).map(|k| (0x1000 + k, 0x41 + k as u8)).collect(), ..Default::default() };
        for &a1 in &args { for &a2 in &args {
            // message/hash lengths beyond a few bytes only make the call longer
            if [1u32, 3, 10].contains(&id) && a2 > 0x1004 { continue; }
            let mut q = Seq::new(&setup);
            tick(l, 1);
            match q.go(0x200, &[(10, id), (11, a1), (12, a2), (13, 0x2000)]) {
                StepOut::Differs(d) => { ctx.violation(format!("ecall:{id}:{a1:x}:{a2:x}"), json!({"a0": id, "a1": format!("{a1:#x}"), "a2": format!("{a2:#x}"), "what": d})); return; }
                StepOut::Same(_) => l.outcome(format!("ecall {} {}", id.min(11), if q.r.halted { "halts" } else { "continues" })),
                StepOut::Refused => l.outcome(format!("ecall {} stops abnormally", id.min(11))),
                StepOut::Unspecified => l.outcome("unspecified".to_string()),
            }
        } }
    });
    // halting: exactly the rows up to and including the halting call, pc stays, all later code unexecuted
    let fill: [u32; 4] = [addi(5, 5, 1), s(2, 8, 5, 0), r(0, 0, 10, 0, 0), ECALL];
    let n = fill.len();
    let depth = ctx.pick(5u32, 7);
    ctx.par("halting", n.pow(depth), |k, l| {
        let mut k2 = k;
        let words: Vec<u32> = (0..depth).map(|_| { let w = fill[k2 % n]; k2 /= n; w }).chain([addi(10, 0, 0), ECALL, addi(6, 6, 1), addi(7, 7, 1)]).collect();
        let setup = Setup { entry: 0x200, code: words.iter().enumerate().map(|(i, w)| (0x200 + 4 * i as u32, *w)).collect(), regs: vec![(8, 0x1000), (10, 99), (11, 0x1000)], ..Default::default() };
        let p = setup.program();
        let mut r = setup.reference();
        let mut steps = 0u64;
        let mut refused = false;
        while !r.halted && !refused { if r.step().is_err() { refused = true } else { steps += 1 } }
        tick(l, steps);
        match (refused, guard(|| step(&p, setup.state(&p)))) {
            (true, Ok(Err(_)) | Err(_)) => l.outcome("refused".to_string()),
            (false, Ok(Ok(rec))) => {
                l.outcome(format!("halts after {steps}"));
                let ok = rec.executed.len() as u64 == steps && rec.last_state.has_halted() && diff(&rec.last_state, &r, true).is_none()
                    && rec.executed.iter().enumerate().all(|(i, row)| row.aux.will_halt == (i + 1 == rec.executed.len()) && !row.state.halted)
                    && rec.executed.windows(2).all(|w| w[1].state.clk == w[0].state.clk + 1);
                if !ok { ctx.violation(format!("halt:{k}"), json!({"words": words, "rows": rec.executed.len(), "expected_rows": steps, "difference": diff(&rec.last_state, &r, true)})); }
                // a halted state does not run any further
                match guard(|| step(&p, rec.last_state.clone())) {
                    Ok(Ok(again)) if again.executed.is_empty() && again.last_state.pc == r.pc => {}
                    o => ctx.violation(format!("halt-again:{k}"), json!({"words": words, "what": format!("running a halted state: {:?}", o.map(|x| x.map(|y| y.executed.len())))})),
                }
            }
            (e, g) => ctx.violation(format!("halt:{k}"), json!({"words": words, "expected": if e {"refused"} else {"halt"}, "got": format!("{:?}", g.map(|x| x.map(|y| y.executed.len())))})),
        }
    });
    ctx.info("bounds", format!("{} call numbers (all below 4096, powers of two and neighbours) x 81 argument pairs; all {}-instruction programs over a 4-word alphabet with halting calls in any position", nums.len(), depth));
    ctx.info("oracle", "reference machine: 0 halts without moving pc, 1 stops abnormally, 2..9 act on tapes/hash, 10 logs, everything else only advances pc");
    ctx.info("exhaustive", true);
    ctx.sample(json!({"a0": 11, "expected": "pc+4, nothing else"}));
}

pub fn r10(ctx: &Ctx) {
    let setup0 = Setup { entry: 0x200, code: vec![(0x200, ECALL)], ..Default::default() };
    let maxlen = ctx.pick(136u32, 520);
    let pats: Vec<fn(u32) -> u8> = vec![|_| 0, |_| 0xFF, |k| k as u8, |k| (k * 37 + 11) as u8, |k| u8::from(k == 0), |k| u8::from(k % 8 == 7)];
    ctx.par("hash", (maxlen as usize + 1) * pats.len(), |i, l| {
        let (n, pat) = (i as u32 / pats.len() as u32, pats[i % pats.len()]);
        for (inp, out) in [(0x1000u32, 0x2000u32), (0x1000, 0x1000), (0x1000, 0x1004), (0x1004, 0x0FF0), (0xFFFF_FFF8, 0x2000), (0xFFFF_FFFF, 0x1000), (0x1000, 0xFFFF_FFF0), (0xFFFF_FFC0, 0xFFFF_FFE0), (1, 3)] {
            let mut setup = setup0.clone();
            setup.rw = (0..n).map(|k| (inp.wrapping_add(k), pat(k))).collect();
            // neighbours of the input must not leak in, neighbours of the output must not change
            for k in 0..4u32 { setup.rw.push((inp.wrapping_add(n + k), 0xC3)); setup.rw.push((out.wrapping_sub(1 + k), 0x3C)); }
            let mut seen = std::collections::BTreeSet::new();
            setup.rw.retain(|(a, _)| seen.insert(*a));
            let mut q = Seq::new(&setup);
            let before = q.s.clone();
            tick(l, 1);
            let input: Vec<u8> = (0..n).map(|k| q.r.rd8(inp.wrapping_add(k))).collect();
            let regs = [(10, 3), (11, inp), (12, n), (13, out)];
            match q.go(0x200, &regs) {
                StepOut::Differs(d) => { ctx.violation(format!("hash:{n}:{}:{inp:x}:{out:x}", i % pats.len()), json!({"len": n, "input_at": format!("{inp:#x}"), "output_at": format!("{out:#x}"), "what": d})); return; }
                StepOut::Same(_) => {
                    l.outcome(format!("{:02x?}", &ref_sponge(&input)[..4]));
                    let s = regs.iter().fold(before, |s, (r, v)| s.set_register_value(*r, *v));
                    let s = s.set_pc(0x200);
                    let (aux, _, _) = s.execute_instruction(&q.p).unwrap();
                    // the record carries the whole absorption chain
                    let e = aux.poseidon2.expect("hash entry");
                    let mut st = [F::ZERO; 12];
                    for (k, c) in input.chunks(8).enumerate() {
                        for (x, b) in st.iter_mut().zip(c) { *x = F::from_canonical_u8(*b); }
                        let pre = st;
                        st = F::poseidon2(st);
                        let last = (k + 1) * 8 == input.len();
                        let sd = &e.sponge_data[k];
                        if sd.preimage != pre || sd.output != st || sd.gen_output != F::from_bool(last) {
                            ctx.violation(format!("sponge:{n}:{}:{k}", i % pats.len()), json!({"len": n, "block": k, "what": "recorded permutation input/output/flag differs from the sponge of these bytes"})); return;
                        }
                    }
                }
                StepOut::Refused => l.add("refused_as_required", 1),
                StepOut::Unspecified => {}
            }
        }
    });
    ctx.info("bounds", format!("every length 0..={maxlen} (valid: positive multiples of 8; the rest must be refused) x 6 byte patterns x 9 input/output placements incl. overlap and wrap-around"));
    ctx.info("oracle", "independent overwrite-mode sponge (rate 8, one byte per element) over the Poseidon2 permutation; recorded permutation chain checked block by block");
    ctx.info("exhaustive", true);
    ctx.assume("the Poseidon2 permutation itself is the stand-in in /verif/shims/plonky2 (upstream plonky2 is not available offline); the property is about how the VM applies it");
    ctx.sample(json!({"len": 16, "input_at": "0x1000", "output_at": "0x1004", "expected": "digest of the 16 bytes as they were before the call"}));
}
