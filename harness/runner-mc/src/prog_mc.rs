//! Whole programs: R03 (reference agreement), R05 (code/data separation, fetch), R08 (record).
use mc::{guard, Ctx, Local};
use mozak_runner::elf::Program;
use mozak_runner::state::RawTapes;
use serde_json::json;

use crate::bridge::{lockstep, run_both, RunOut, Setup, StepOut};
use crate::refvm::{enc, enc::*};
use crate::single;

pub fn alphabet() -> Vec<u32> {
    vec![
        addi(11, 11, 1),
        addi(10, 0, 4),              // public tape
        ECALL,
        r(0, 0, 12, 11, 11),         // add  a2,a1,a1
        r(0x20, 0, 11, 12, 11),      // sub  a1,a2,a1
        s(2, 8, 11, 0),              // sw   a1,0(s0)
        i(0x03, 2, 12, 8, 0),        // lw   a2,0(s0)
        s(0, 8, 12, 1),              // sb   a2,1(s0)
        i(0x03, 0, 11, 8, 1),        // lb   a1,1(s0)
        s(1, 8, 12, 3),              // sh   a2,3(s0)
        i(0x03, 5, 12, 8, 2),        // lhu  a2,2(s0)
        b(0, 11, 12, 8),             // beq  a1,a2,+8
        b(1, 11, 12, -4),            // bne  a1,a2,-4
        b(4, 11, 12, 8),             // blt  a1,a2,+8
        b(7, 12, 11, -8),            // bgeu a2,a1,-8
        j(1, 8),                     // jal  ra,+8
        i(0x67, 0, 0, 1, 4),         // jalr x0,4(ra)
        i(0x67, 0, 1, 1, 1),         // jalr ra,1(ra)
        u(0x17, 1, 0),               // auipc ra,0
        u(0x37, 11, 0x8000_0000),    // lui  a1,0x80000
        r(1, 0, 12, 11, 12),         // mul  a2,a1,a2
        r(1, 4, 11, 11, 12),         // div  a1,a1,a2
        i(0x13, 5, 11, 11, 0x401),   // srai a1,a1,1
        addi(10, 0, 3),              // poseidon2
    ]
}

fn setup_for(words: &[u32]) -> Setup {
    let base = 0x200u32;
    let mut code: Vec<(u32, u32)> = words.iter().enumerate().map(|(k, w)| (base + 4 * k as u32, *w)).collect();
    let end = base + 4 * words.len() as u32;
    code.push((end, addi(10, 0, 0)));
    code.push((end + 4, ECALL));
    let ro = code.iter().flat_map(|(a, w)| w.to_le_bytes().into_iter().enumerate().map(move |(k, b)| (a + k as u32, b))).collect();
    Setup {
        entry: base, code, ro,
        rw: (0..8).map(|k| (0x1000 + k, 0x7C + k as u8)).collect(),
        regs: vec![(1, base), (8, 0x1000), (10, 5), (11, 0x1002), (12, 3), (13, 0x1010)],
        tapes: [vec![], vec![0x11, 0xF2, 0x33, 0x80, 0x55], vec![0xC1, 0xC2], vec![]],
        fixed: [[1; 32], [2; 32], [3; 32]],
    }
}

fn programs(ctx: &Ctx, len: usize, rows: bool, alpha: &[u32]) {
    let n = alpha.len();
    let total = n.pow(len as u32);
    let chunk = if len <= 2 { 1 } else { n * n };
    ctx.par(&format!("programs of length {len}"), total / chunk, |c, l| {
        for q in c * chunk..(c + 1) * chunk {
            let mut k = q;
            let words: Vec<u32> = (0..len).map(|_| { let w = alpha[k % n]; k /= n; w }).collect();
            judge(ctx, l, &words, rows);
        }
    });
}

fn judge(ctx: &Ctx, l: &mut Local, words: &[u32], rows: bool) {
    let setup = setup_for(words);
    let (out, n) = run_both(&setup, 48, rows);
    l.add("states", n + 1);
    l.add("transitions", n);
    l.add("traces_validated_against_impl", 1);
    match out {
        RunOut::Halted(k) => { l.add("programs_halted", 1); l.outcome(format!("halted after {k}")); }
        RunOut::Refused(k) => { l.add("programs_refused", 1); l.outcome(format!("refused after {k}")); }
        RunOut::Unspecified => l.add("programs_unspecified", 1),
        RunOut::StillRunning => { l.add("programs_running_at_step_bound", 1); l.outcome("running at bound"); }
        RunOut::Differs(d) => ctx.violation(
            format!("program:{}", words.iter().map(|w| format!("{w:08x}")).collect::<Vec<_>>().join("-")),
            json!({"words": words.iter().map(|w| format!("{w:#010x}")).collect::<Vec<_>>(), "entry": "0x200", "what": d})),
    }
}

/// `execute` and `execute_code_with_ro_memory` run the given instructions from
/// address 0, with halting code behind them, on the given memory and registers.
fn by_instructions(ctx: &Ctx, len: usize, alpha: &[u32]) {
    let n = alpha.len();
    ctx.par(&format!("instruction lists of length {len}"), n.pow(len as u32), |q, l| {
        let mut k = q;
        let words: Vec<u32> = (0..len).map(|_| { let w = alpha[k % n]; k /= n; w }).collect();
        let base = setup_for(&words);
        for tapes in [false, true] {
            let mut want = Setup { entry: 0, ro: if tapes { vec![(0x2000, 7), (0x2003, 0x80)] } else { vec![] }, ..base.clone() };
            for (a, _) in &mut want.code { *a -= 0x200; }
            if !tapes { want.tapes = Default::default(); want.fixed = Default::default(); }
            want.regs[0].1 = 0; // ra
            let mut r = want.reference();
            let mut steps = 0;
            while !r.halted && steps < 48 { if r.step().is_err() { break; } steps += 1; }
            // others do not end, or not well
            if !r.halted { l.add("lists that do not halt", 1); continue; }
            let code: Vec<_> = words.iter().enumerate().map(|(i, w)| mozak_runner::decode::decode_instruction(4 * i as u32, *w).unwrap()).collect();
            let got = guard(|| if tapes { mozak_runner::code::execute_code_with_ro_memory(code, &want.ro, &want.rw, &want.regs, want.raw_tapes()) } else { mozak_runner::code::execute(code, &want.rw, &want.regs) });
            l.add("states", steps + 1); l.add("transitions", steps); l.add("traces_validated_against_impl", 1);
            let d = match got {
                Err(e) => Some(format!("panicked: {e}")),
                Ok((p, rec)) => if p.entry_point != 0 { Some(format!("entry point {:#x}", p.entry_point)) } else if rec.executed.len() as u64 != steps { Some(format!("{} rows, expected {steps}", rec.executed.len())) } else { crate::bridge::diff(&rec.last_state, &r, true) },
            };
            if let Some(d) = d { ctx.violation(format!("list:{tapes}:{}", words.iter().map(|w| format!("{w:08x}")).collect::<Vec<_>>().join("-")), json!({"words": words.iter().map(|w| format!("{w:#010x}")).collect::<Vec<_>>(), "with tapes": tapes, "what": d})); return; }
        }
    });
}

/// The official RISC-V tests shipped with the repository, in lockstep to their end.
fn conformance(ctx: &Ctx, rows: bool) {
    let dir = std::path::Path::new("/repo/riscv-testdata/testdata");
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
    files.retain(|f: &std::path::PathBuf| std::fs::read(f).map_or(false, |b| b.starts_with(b"\x7fELF")));
    files.sort();
    ctx.info("official_riscv_tests", files.len());
    ctx.par("official-tests", files.len(), |i, l| {
        let f = &files[i];
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let bytes = std::fs::read(f).unwrap();
        let img = crate::elf_mc::ref_load(&bytes).expect("reference loader");
        let p = match guard(|| Program::vanilla_load_elf(&bytes)) {
            Ok(Ok(p)) => p,
            e => { ctx.violation(format!("official:{name}"), json!({"file": name, "what": format!("not loaded: {:?}", e.map(|r| r.map(|_| ())))})); return; }
        };
        let mut s = crate::bridge::St::new(p.clone(), RawTapes::default());
        let mut r = img.machine();
        let mut n = 0u64;
        // 'v' tests run a paging environment this machine does not have; they are cut at the bound.
        let cap = 20_000;
        while !r.halted && n < cap {
            match lockstep(&p, &mut s, &mut r, n % 512 == 0) {
                StepOut::Same(_) => n += 1,
                StepOut::Refused | StepOut::Unspecified => break,
                StepOut::Differs(d) => { ctx.violation(format!("official:{name}"), json!({"file": name, "step": n, "what": d})); return; }
            }
        }
        l.add("states", n + 1); l.add("transitions", n); l.add("traces_validated_against_impl", 1);
        l.add("official_tests_run", 1);
        if r.halted { l.add("official_tests_halted", 1); l.outcome(format!("{name}: halted, a0={}", r.x[10])); }
        if rows && r.halted {
            let s0 = crate::bridge::St::new(p.clone(), RawTapes::default());
            match guard(|| mozak_runner::vm::step(&p, s0)) {
                Ok(Ok(rec)) => if rec.executed.len() as u64 != n { ctx.violation(format!("official:{name}"), json!({"file": name, "what": "record length"})); },
                e => ctx.violation(format!("official:{name}"), json!({"file": name, "what": format!("step(): {:?}", e.map(|r| r.map(|_| ())))})),
            }
        }
    });
}

pub fn r03(ctx: &Ctx) {
    conformance(ctx, true);
    let alpha = alphabet();
    for len in 0..=ctx.pick(4, 5) { programs(ctx, len, false, &alpha); }
    for len in 0..=ctx.pick(2, 3) { by_instructions(ctx, len, &alpha); }
    // deeper, over the control-flow part of the alphabet
    let ctl: Vec<u32> = [0usize, 2, 5, 6, 11, 12, 13, 14, 15, 16, 17, 18].iter().map(|k| alpha[*k]).collect();
    programs(ctx, 5, false, &ctl);
    if !ctx.quick() { programs(ctx, 6, false, &ctl); }
    ctx.sample(json!({"words": "sw a1,0(s0); lb a1,1(s0); bne a1,a2,-4; halt", "result": "both machines in lockstep to the end"}));
    ctx.info("bounds", format!("all programs of up to {} instructions over a 24-word alphabet (and up to {} over its 12-word control-flow part), at most 48 steps; official riscv-tests", ctx.pick(4, 5), ctx.pick(5, 6)));
    ctx.info("oracle", "independent RV32IM reference machine in lockstep; final memory, record length and last state of step() compared");
    ctx.info("exhaustive", true);
}

pub fn r08(ctx: &Ctx) {
    single::grids(ctx, true);
    let alpha = alphabet();
    for len in 0..=ctx.pick(4, 4) { programs(ctx, len, true, &alpha); }
    ctx.sample(json!({"words": "addi a0,x0,4; ecall; lw a2,0(s0)", "record": "3 rows + halt rows, each equal to what the reference step did"}));
    ctx.info("bounds", format!("every row of the record of every halting program of up to {} instructions over a 24-word alphabet; aux data of single steps over the operand grids", ctx.pick(4, 4)));
    ctx.info("oracle", "reference machine's effect log: addresses touched in order, raw memory value, result, next pc, halt flag, tape bytes, sponge inputs");
    ctx.info("exhaustive", true);
}

/// Code cannot be altered by the guest, and only decoded executable words run.
pub fn r05(ctx: &Ctx) {
    // 1. Stores aimed at the code: into R-X (refused) and into RWX / separately writable aliases of the code
    //    addresses (data changes, the instruction executed does not).
    let patch = addi(11, 0, 77);
    let store_ops: Vec<u32> = vec![enc::s(2, 8, 11, 0), enc::s(0, 8, 11, 0), enc::s(1, 8, 11, 2), enc::s(2, 8, 11, -4), enc::s(2, 8, 11, 4), enc::s(0, 8, 11, 3), ECALL];
    let victims: Vec<u32> = vec![addi(12, 12, 1), r(0, 0, 12, 12, 11), i(0x03, 2, 12, 8, 0), j(0, 4), b(0, 0, 0, 4), 0x0000_0013];
    ctx.par("self-modification", store_ops.len() * victims.len() * 4, |k, l| {
        let (st, v, mode) = (store_ops[k / 4 / victims.len()], victims[k / 4 % victims.len()], k % 4);
        for before in 0..3usize {
            for target in 0..6u32 {
                // before x nop, store, victim, lw a2,0(s0), halt
                let mut words = vec![0x13; before];
                words.push(st); words.push(v); words.push(i(0x03, 2, 14, 8, 0)); words.push(b(1, 12, 0, 8)); words.push(j(0, -12)); words.push(addi(10, 0, 0)); words.push(ECALL);
                let base = 0x200u32;
                let code: Vec<(u32, u32)> = words.iter().enumerate().map(|(k, w)| (base + 4 * k as u32, *w)).collect();
                let img: Vec<(u32, u8)> = code.iter().flat_map(|(a, w)| w.to_le_bytes().into_iter().enumerate().map(move |(k, b)| (a + k as u32, b))).collect();
                let mut setup = Setup { entry: base, code, regs: vec![(8, base + 4 * target), (11, patch), (10, 4), (12, 0)], tapes: [vec![], patch.to_le_bytes().repeat(8), vec![], vec![]], ..Default::default() };
                if mode == 3 { setup.regs = vec![(8, base + 4 * target), (11, base + 4 * target), (10, 4), (12, 4)]; }
                match mode { 0 => setup.ro = img, 1 | 3 => setup.rw = img, _ => {} }
                let (out, n) = run_both(&setup, 64, true);
                l.add("states", n + 1); l.add("transitions", n); l.add("traces_validated_against_impl", 1);
                match out {
                    RunOut::Differs(d) => ctx.violation(format!("selfmod:{k}:{before}:{target}"), json!({"store": format!("{st:#x}"), "victim": format!("{v:#x}"), "mapping": (["read-only", "writable", "no data image", "writable, tape write"][mode]), "what": d})),
                    RunOut::Halted(n) => l.outcome(format!("mode {mode} halted after {n}")),
                    RunOut::Refused(n) => l.outcome(format!("mode {mode} refused after {n}")),
                    _ => l.outcome("other"),
                }
            }
        }
    });
    // 2. Fetch: jumping anywhere around the code; non-code, misaligned, undecodable targets are refused.
    let undecodable = [0u32, 0xFFFF_FFFF, 0x0000_007F, 0x0200_5013, 0xC000_1073 ^ 0x2000, 0x0000_3003];
    ctx.par("fetch", 6 * 8, |k, l| {
        let base = [0u32, 0x200, 0x7FFF_FFF0, 0xFFFF_FFE0, 0x8000_0000, 0xFFFF_FFF0][k / 8];
        for t in -24i32..48 {
            for via in 0..4 {
                let target = base.wrapping_add(t as u32);
                // jalr x0,0(t0) ; [bad word] ; halt
                let mut code = vec![
                    match via { 0 => i(0x67, 0, 0, 5, 0), 1 => i(0x67, 0, 1, 5, 1), 2 => i(0x67, 0, 1, 5, -2), _ => i(0x67, 0, 5, 5, 2) },
                    undecodable[k % undecodable.len()], addi(10, 0, 0), ECALL, 0x13, 0x13];
                if k % 8 >= 6 { code[1] = 0x13; }
                let code: Vec<(u32, u32)> = code.into_iter().enumerate().map(|(k, w)| (base.wrapping_add(4 * k as u32), w)).filter(|(a, _)| *a >= base).collect();
                // data that would be a halt sequence if it were executed
                let rw = (0..16u32).flat_map(|q| { let a = base.wrapping_add(24 + 4 * q); let w = if q % 2 == 0 { addi(10, 0, 0) } else { ECALL };
                    w.to_le_bytes().into_iter().enumerate().map(move |(k, b)| (a.wrapping_add(k as u32), b)).collect::<Vec<_>>() }).collect();
                let setup = Setup { entry: base, code, rw, regs: vec![(5, target), (10, 9)], ..Default::default() };
                let (out, n) = run_both(&setup, 32, false);
                l.add("states", n + 1); l.add("transitions", n); l.add("traces_validated_against_impl", 1);
                match out {
                    RunOut::Differs(d) => ctx.violation(format!("fetch:{base:x}:{t}:{via}:{}", k % 8), json!({"base": format!("{base:#x}"), "target": format!("{target:#x}"), "what": d})),
                    RunOut::Halted(n) => l.outcome(format!("halted after {n}")),
                    RunOut::Refused(n) => l.outcome(format!("refused after {n}")),
                    RunOut::StillRunning => l.outcome("loop"),
                    RunOut::Unspecified => l.outcome("unspecified"),
                }
            }
        }
    });
    ctx.info("bounds", "stores of every width (and tape reads) into every word of a 10-word program under 4 mappings; jumps to every byte offset -24..48 around code at 6 bases through 4 JALR forms with undecodable words and executable-looking data nearby");
    ctx.info("oracle", "reference machine with separate immutable code store");
    ctx.info("exhaustive", true);
    ctx.sample(json!({"store": "sw a1,0(s0) with s0 = address of a later instruction, code also writable", "expected": "data changes, old instruction executes"}));
}
