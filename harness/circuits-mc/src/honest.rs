//! S01: every halting execution satisfies every constraint and lookup.
use mc::{boundary32, guard, small32, Ctx, Local};
use mozak_runner::vm::step;
use plonky2::field::types::Field;
use serde_json::json;

use crate::bridge::Setup;
use crate::refvm::enc::*;
use crate::sys::*;

#[derive(Debug)]
pub enum Out { Accepted(usize), NotRun(String), Rejected(String) }

pub fn accepts(sys: &Sys, setup: &Setup) -> Out {
    let p = setup.program();
    let rec = match guard(|| step(&p, setup.state(&p))) { Ok(Ok(r)) => r, Ok(Err(e)) => return Out::NotRun(e.to_string()), Err(e) => return Out::NotRun(e) };
    let n = rec.executed.len();
    let t = match guard(|| sys.traces(&p, &rec)) { Ok(t) => t, Err(e) => return Out::Rejected(format!("trace generation failed: {e}")) };
    let pv = sys.public_values(&t);
    for (i, want) in [setup.fixed[0], setup.fixed[1]].iter().enumerate() {
        let got: Vec<u64> = pv[i].iter().map(|r| r[0].0).collect();
        if got != want.iter().map(|b| u64::from(*b)).collect::<Vec<_>>() { return Out::Rejected(format!("public commitment {i} is {got:?}")); }
    }
    match sys.verdict(&t, F::from_canonical_u32(setup.entry), &pv) { None => Out::Accepted(n), Some(r) => Out::Rejected(format!("{r:?}")) }
}

pub const ENTRY: u32 = 0x200;
/// Straight-line code at `ENTRY`, then a halt.
pub fn program(words: &[u32], regs: Vec<(u8, u32)>) -> Setup {
    let code = words.iter().copied().chain([addi(10, 0, 0), ECALL]).enumerate().map(|(i, w)| (ENTRY + 4 * i as u32, w)).collect();
    Setup { entry: ENTRY, code, regs, ..Default::default() }
}
fn run(ctx: &Ctx, sys: &Sys, fam: &str, name: impl Fn() -> String, s: &Setup, l: &mut Local) {
    l.add("traces_validated_against_impl", 1);
    match accepts(sys, s) {
        Out::Accepted(n) => { l.add("states", n as u64); l.add("transitions", n as u64); l.outcome(fam); }
        Out::NotRun(_) => { l.add("programs_refused_by_the_runner", 1); l.outcome(format!("{fam}:refused")); }
        Out::Rejected(e) => ctx.violation(quirk(s).map_or_else(|| format!("{fam}:{}", name()), |q| format!("{q} | {}", kind_of(&e))), json!({"family": fam, "case": name(), "reject": e,
            "code": s.code.iter().take(12).map(|(a, w)| format!("{a:#x}:{w:#010x}")).collect::<Vec<_>>(), "regs": s.regs})),
    }
}
/// Why the prover refused, without positions.
fn kind_of(e: &str) -> String {
    if e.starts_with("trace generation failed: ") { return "generation".into(); }
    let field = |k: &str| e.split_once(k).map(|(_, r)| r.split('"').next().unwrap_or("").to_string());
    field("kind: \"").map(|k| format!("constraint of {k}")).or_else(|| field("ends: \"").map(|k| { let mut v: Vec<&str> = k.trim_matches(['[', ']']).split(", ").collect(); v.sort_unstable(); v.dedup(); format!("lookup of {}", v.join(", ")) })).unwrap_or_else(|| e.to_string())
}
/// Features of a run that the circuits are known not to support (each is a listed finding).
fn quirk(s: &Setup) -> Option<&'static str> {
    let mut r = s.reference();
    let mut q = None;
    for _ in 0..100_000 {
        if r.halted { break; }
        let (pc, id, a1, a2, a3, ecall) = (r.pc, r.x[10], r.x[11], r.x[12], r.x[13], r.code.get(&r.pc) == Some(&ECALL));
        let Ok(e) = r.step() else { break };
        let n = match &e.tape {
            Some((4, d)) if d.len() < 32 => Some("commitment tape read of fewer than 32 bytes"),
            Some((5, d)) if d.len() < 32 => Some("commitment tape read of fewer than 32 bytes"),
            _ if e.hashed.is_some() && (u64::from(a1) + u64::from(a2) > 1 << 32 || u64::from(a3) + 32 > 1 << 32) => Some("hash buffer wraps around the address space"),
            _ if ecall && id > 9 => Some("ecall without a table"),
            _ if pc == 0xFFFF_FFFC && r.pc == 0 => Some("execution runs from 0xfffffffc into 0"),
            _ => None,
        };
        if q.is_none() { q = n; }
    }
    q
}
/// `li rd, v` as two instructions.
pub fn li(rd: u32, v: u32) -> [u32; 2] {
    let lo = ((v << 20) as i32) >> 20;
    [u(0x37, rd, v.wrapping_sub(lo as u32)), addi(rd, rd, lo)]
}
const ALU: [(u32, u32); 18] = [(0, 0), (32, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (32, 5), (0, 6), (0, 7), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)];

pub fn s01(ctx: &Ctx) {
    let sys = Sys::new();
    // a proof exists only for constraints within the degree that the table declares
    let degrees = mozak_circuits::verif::degrees(&sys.stark);
    let widths = mozak_circuits::verif::widths(&sys.stark);
    for k in &sys.kinds {
        let (w, npi) = (widths[*k as usize] as u32, sys.pis[*k as usize] as u32);
        for (i, p) in mozak_circuits::verif::polys(&sys.stark, *k).iter().enumerate() {
            // the selectors of the first and last row count, the one of transitions does not
            let d = p.terms.keys().map(|m| m.iter().filter(|v| **v != 2 * w + npi).count()).max().unwrap_or(0);
            ctx.add("constraints", 1);
            if d > degrees[*k as usize] { ctx.violation(format!("degree of {k:?}"), json!({"table": format!("{k:?}"), "constraint": i, "degree": d, "declared": degrees[*k as usize]})); }
        }
    }
    let g = ctx.pick(small32(), boundary32());
    let chunks: Vec<Vec<u32>> = g.chunks(14).map(<[u32]>::to_vec).collect();
    let bank = |i: usize, j: usize| -> Vec<(u8, u32)> {
        chunks[i].iter().enumerate().map(|(k, v)| (1 + k as u8, *v)).chain(chunks[j].iter().enumerate().map(|(k, v)| (15 + k as u8, *v))).collect()
    };
    let nc = chunks.len();
    ctx.par("alu", nc * nc * ALU.len(), |n, l| {
        let (op, i, j) = (ALU[n % ALU.len()], n / ALU.len() % nc, n / ALU.len() / nc);
        let mut w = vec![];
        for a in 0..chunks[i].len() as u32 { for b in 0..chunks[j].len() as u32 { w.push(r(op.0, op.1, 31, 1 + a, 15 + b)); } }
        run(ctx, &sys, "alu", || format!("{op:?}:{i}:{j}"), &program(&w, bank(i, j)), l);
    });
    ctx.par("alu-alias", ALU.len(), |n, l| {
        let op = ALU[n];
        let mut w = vec![];
        for v in small32() {
            for (rd, a, b) in [(5, 5, 6), (5, 6, 5), (5, 5, 5), (0, 5, 6), (5, 0, 6), (5, 6, 0), (5, 0, 0), (5, 6, 6), (0, 0, 0)] {
                w.extend(li(5, v)); w.extend(li(6, v.rotate_left(3) ^ 1)); w.push(r(op.0, op.1, rd, a, b));
            }
        }
        run(ctx, &sys, "alu-alias", || format!("{op:?}"), &program(&w, vec![]), l);
    });
    let imms: Vec<i32> = if ctx.quick() { vec![-2048, -2047, -1025, -256, -255, -129, -128, -32, -17, -16, -3, -2, -1, 0, 1, 2, 3, 7, 8, 15, 16, 31, 127, 128, 255, 256, 1023, 1024, 2046, 2047] } else { (-2048..2048).collect() };
    let ics: Vec<&[i32]> = imms.chunks(32).collect();
    ctx.par("imm", 6 * ics.len(), |n, l| {
        let f3 = [0, 2, 3, 4, 6, 7][n % 6];
        let vals = small32();
        let mut w = vec![];
        for (k, v) in vals.iter().enumerate() {
            w.extend(li(5, *v));
            for m in ics[n / 6] { w.push(i(0x13, f3, 31, if k % 7 == 3 { 0 } else { 5 }, *m)); }
        }
        run(ctx, &sys, "imm", || format!("{f3}:{:?}", ics[n / 6]), &program(&w, vec![]), l);
    });
    ctx.par("shift-imm", 3 * g.len(), |n, l| {
        let v = g[n / 3];
        let w: Vec<u32> = (0..32).map(|s| i(0x13, [1, 5, 5][n % 3], 31, 5, if n % 3 == 2 { s | 0x400 } else { s })).collect();
        run(ctx, &sys, "shift-imm", || format!("{}:{v:#x}", n % 3), &program(&w, vec![(5, v)]), l);
    });
    ctx.par("upper", 2, |n, l| {
        let w: Vec<u32> = boundary32().into_iter().map(|v| u([0x37, 0x17][n], 31, v)).collect();
        run(ctx, &sys, "upper", || format!("{n}"), &program(&w, vec![]), l);
    });
    ctx.par("branch", nc * nc * 6, |n, l| {
        let (f3, i, j) = ([0, 1, 4, 5, 6, 7][n % 6], n / 6 % nc, n / 6 / nc);
        let mut w = vec![];
        for a in 0..chunks[i].len() as u32 { for c in 0..chunks[j].len() as u32 { w.push(b(f3, 1 + a, 15 + c, 8)); w.push(addi(31, 31, 1)); } }
        for a in 0..chunks[i].len() as u32 { w.push(b(f3, 1 + a, 1 + a, 8)); w.push(addi(31, 31, 1)); w.push(b(f3, 1 + a, 0, 8)); w.push(addi(31, 31, 1)); w.push(b(f3, 0, 1 + a, 4)); }
        run(ctx, &sys, "branch", || format!("{f3}:{i}:{j}"), &program(&w, bank(i, j)), l);
    });
    jumps(ctx, &sys);
    memory(ctx, &sys);
    ecalls(ctx, &sys);
    histories(ctx, &sys);
    sizes(ctx, &sys);
}

/// Code placed at chosen addresses; control reaches all of it, wrapping around included.
fn jumps(ctx: &Ctx, sys: &Sys) {
    let targets = [0u32, 4, 8, 0x100, 0x1FC, 0x204, 0x7FFC, 0x1_0000, 0x7FFF_FFFC, 0x8000_0000, 0x8000_0004, 0xFFFF_0000, 0xFFFF_FFF0, 0xFFFF_FFF8];
    let entries = [0u32, 4, 0x40, 0x200, 0x8000_0000, 0xFFFF_FF00];
    let mut cases: Vec<(String, Setup)> = vec![];
    for e in entries { for t in targets { for odd in 0..2u32 { for m in [0i32, 4, -4, 2044, -2048, 1, -1] { for rd in [0u32, 1, 5] {
        // jalr to t, which links back through x6
        let base = t.wrapping_sub(m as u32).wrapping_add(odd);
        let real = base.wrapping_add(m as u32) & !1;
        if real % 4 != 0 { continue; }
        let mut code = vec![(e, i(0x67, 0, rd, 5, m)), (real, addi(10, 0, 0)), (real.wrapping_add(4), ECALL)];
        code.dedup_by_key(|c| c.0);
        if code.iter().any(|c| c.0.wrapping_sub(e) < 4 && c.0 != e) || real == e || real.wrapping_add(4) == e || e.wrapping_add(4) == real { continue; }
        cases.push((format!("jalr:{e:#x}:{real:#x}:{m}:{odd}:{rd}"), Setup { entry: e, code, regs: vec![(5, base)], ..Default::default() }));
    }}}}}
    for e in entries { for m in [8i32, 16, -8, 2048, -4096, 0x7FFFC, -0x100000, 0xFFFFC] { for rd in [0u32, 1] {
        let t = e.wrapping_add(m as u32);
        cases.push((format!("jal:{e:#x}:{m}:{rd}"), Setup { entry: e, code: vec![(e, j(rd, m)), (t, addi(10, 0, 0)), (t.wrapping_add(4), ECALL)], ..Default::default() }));
        if (-4096..4095).contains(&m) { for f3 in [0u32, 1, 4, 5, 6, 7] { for (x, y) in [(0, 0), (0, 1), (1, 0)] {
            // taken: to t; not taken: falls through to a halt
            let code = vec![(e, b(f3, 5, 6, m)), (e.wrapping_add(4), ECALL), (t, ECALL)];
            cases.push((format!("b{f3}:{e:#x}:{m}:{x}{y}"), Setup { entry: e, code, regs: vec![(5, x), (6, y)], ..Default::default() }));
        }}}
    }}}
    // loops: the same instruction executed k times
    for k in [1u32, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 200] {
        let w = [addi(6, 6, 1), r(1, 0, 7, 6, 6), s(2, 0, 7, 0x700), i(3, 2, 8, 0, 0x700), b(1, 6, 5, -16)];
        let mut s = program(&w, vec![(5, k)]);
        s.tapes[0] = vec![1];
        cases.push((format!("loop:{k}"), s));
    }
    ctx.par("jump", cases.len(), |n, l| run(ctx, sys, "jump", || cases[n].0.clone(), &cases[n].1, l));
}

fn memory(ctx: &Ctx, sys: &Sys) {
    let addrs: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0xFFFF, 0x1_0000, 0x7FFF_FFFD, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_F800, 0xFFFF_FFF8, 0xFFFF_FFFB, 0xFFFF_FFFC, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF];
    let vals: Vec<u32> = vec![0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0x80FF, 0xFF7F, 0x7FFF_FFFF, 0x8000_0000, 0x1234_5678, 0xFEDC_BA98, 0xFFFF_FFFF];
    let offs = [0i32, 1, -1, 2047, -2048];
    // one program per (address, offset): all stores and loads of all values
    ctx.par("memory", addrs.len() * offs.len() * 3, |n, l| {
        let (a, o, kind) = (addrs[n % addrs.len()], offs[n / addrs.len() % 5], n / addrs.len() / 5);
        let base = a.wrapping_sub(o as u32);
        let mut w = vec![];
        for v in &vals {
            w.extend(li(6, *v));
            for st in 0..3 { w.push(s(st, 5, 6, o)); for ld in [0, 1, 2, 4, 5] { w.push(i(3, ld, 7, 5, o)); } }
            w.push(i(3, 0, 0, 5, o));
        }
        let mut p = program(&w, vec![(5, base)]);
        let bytes: Vec<(u32, u8)> = (0..6u32).map(|k| (a.wrapping_sub(1).wrapping_add(k), 0x81 + k as u8)).collect();
        if kind == 1 { p.rw = bytes; } else if kind == 2 { p.rw = bytes.into_iter().step_by(2).collect(); }
        run(ctx, sys, "memory", || format!("{a:#x}:{o}:{kind}"), &p, l);
    });
    // loads from initialised read-only memory
    ctx.par("memory-ro", addrs.len() * 5, |n, l| {
        let (a, ld) = (addrs[n / 5], [0u32, 1, 2, 4, 5][n % 5]);
        for shape in 0..4u32 {
            let mut p = program(&[i(3, ld, 7, 5, 0), i(3, ld, 5, 5, 0)], vec![(5, a)]);
            let bytes: Vec<(u32, u8)> = (0..4u32).map(|k| (a.wrapping_add(k), 0x7E + k as u8)).collect();
            p.ro = bytes.iter().copied().filter(|(x, _)| shape & 1 == 0 || x & 1 == 0).collect();
            if shape & 2 != 0 { p.rw = bytes.iter().copied().filter(|(x, _)| !p.ro.iter().any(|(y, _)| x == y)).collect(); }
            run(ctx, sys, "memory-ro", || format!("{a:#x}:{ld}:{shape}"), &p, l);
        }
    });
}

fn ecalls(ctx: &Ctx, sys: &Sys) {
    let fixed = [std::array::from_fn(|i| i as u8 * 7 + 3), std::array::from_fn(|i| 255 - i as u8), std::array::from_fn(|i| i as u8 ^ 0x5A)];
    let ids = [2u32, 4, 5, 6, 7, 8, 9];
    let tape: Vec<u8> = (0..80).map(|i| (i * 37 + 11) as u8).collect();
    let call = |id: u32, addr: u32, len: u32| -> Vec<u32> { [li(10, id), li(11, addr), li(12, len)].concat().into_iter().chain([ECALL]).collect() };
    let lens = [0u32, 1, 2, 3, 7, 8, 31, 32, 33, 64, 79, 80, 81, 200, 0x7FFF_FFFF, u32::MAX];
    let addrs = [0u32, 0x400, 0x401, 0x7FFF_FFF0, 0xFFFF_FF00, 0xFFFF_FFE0, 0xFFFF_FFF0, 0xFFFF_FFFF];
    // a single read
    ctx.par("io", 7 * lens.len() * addrs.len(), |n, l| {
        let (id, len, a) = (ids[n % 7], lens[n / 7 % lens.len()], addrs[n / 7 / lens.len()]);
        for fill in 0..3 {
            let mut p = program(&call(id, a, len), vec![]);
            p.fixed = fixed;
            p.tapes = std::array::from_fn(|k| match fill { 0 => tape.clone(), 1 => vec![], _ => tape[..1 + k].to_vec() });
            run(ctx, sys, "io", || format!("{id}:{len:#x}:{a:#x}:{fill}"), &p, l);
        }
    });
    // two and three reads, same or different tapes, overlapping buffers
    let small = [0u32, 1, 3];
    let q: Vec<(u32, u32)> = ids.iter().flat_map(|i| small.iter().map(move |n| (*i, *n))).collect();
    ctx.par("io-pairs", q.len() * q.len(), |n, l| {
        let (x, y) = (q[n % q.len()], q[n / q.len()]);
        for shift in [0u32, 1] {
            let mut w = call(x.0, 0x400, x.1); w.extend(call(y.0, 0x400 + shift, y.1));
            w.push(i(3, 2, 7, 0, 0x400)); w.extend(call(x.0, 0x402, 2));
            let mut p = program(&w, vec![]);
            p.fixed = fixed; p.tapes = std::array::from_fn(|k| tape[k..20].to_vec());
            run(ctx, sys, "io-pairs", || format!("{x:?}:{y:?}:{shift}"), &p, l);
        }
    });
    // hashing
    let hlens: Vec<u32> = ctx.pick(vec![8, 16, 24, 64], (1..=40).map(|k| 8 * k).collect());
    let places = [(0x400u32, 0x500u32), (0x400, 0x400), (0x404, 0x400), (0x400, 0x408), (0x400, 0x41F), (0, 0x100), (0x400, 0xFFFF_FFE0), (0xFFFF_FFF8, 0x400), (0xFFFF_FFFC, 0x400), (0x400, 0xFFFF_FFF0), (0x7FFF_FFFC, 0x8000_0000)];
    ctx.par("hash", hlens.len() * places.len(), |n, l| {
        let (len, (src, dst)) = (hlens[n % hlens.len()], places[n / hlens.len()]);
        for twice in 0..3 {
            let mut w = [li(10, 3), li(11, src), li(12, len), li(13, dst)].concat();
            w.push(ECALL);
            if twice == 1 { w.push(ECALL); }
            if twice == 2 { w.extend(li(11, dst)); w.extend(li(12, 32)); w.push(ECALL); }
            let mut p = program(&w, vec![]);
            p.rw = (0..len).step_by(1).map(|k| (src.wrapping_add(k), (k * 29 + 1) as u8)).collect();
            run(ctx, sys, "hash", || format!("{len}:{src:#x}:{dst:#x}:{twice}"), &p, l);
        }
    });
    // halting with any register contents; unused call numbers
    ctx.par("halt", 32, |n, l| {
        let v = small32()[n];
        run(ctx, sys, "halt", || format!("{v:#x}"), &program(&[], vec![(11, v), (12, !v), (1, v), (31, v)]), l);
    });
    ctx.par("ecall-none", 8, |n, l| {
        let id = [10u32, 11, 12, 100, 0x7FFF_FFFF, 0x8000_0000, u32::MAX, 10][n];
        let mut w: Vec<u32> = li(10, id).to_vec();
        w.push(ECALL);
        let mut p = program(&w, vec![(11, 0x400), (12, if n == 7 { 3 } else { 0 })]);
        p.rw = vec![(0x400, b'a'), (0x401, b'b'), (0x402, b'c')];
        run(ctx, sys, "ecall-none", || format!("{id:#x}:{n}"), &p, l);
    });
}

/// All sequences of memory-touching operations at overlapping addresses.
fn histories(ctx: &Ctx, sys: &Sys) {
    // x5 = 0x400, x6, x7 values; x28.. scratch
    let hash = [addi(10, 0, 3), addi(11, 0, 0x400), addi(12, 0, 8), addi(13, 0, 0x404), ECALL];
    let io = |id: i32, n: i32| vec![addi(10, 0, id), addi(11, 0, 0x401), addi(12, 0, n), ECALL];
    let alpha: Vec<Vec<u32>> = vec![
        vec![s(0, 5, 6, 0)], vec![s(0, 5, 7, 1)], vec![s(1, 5, 6, 1)], vec![s(2, 5, 7, 0)], vec![s(2, 5, 6, 2)],
        vec![i(3, 0, 28, 5, 0)], vec![i(3, 4, 6, 5, 1)], vec![i(3, 5, 28, 5, 1)], vec![i(3, 2, 7, 5, 0)], vec![i(3, 2, 28, 5, 2)],
        hash.to_vec(), io(2, 2), io(6, 1), io(9, 3),
    ];
    let depth = ctx.pick(3, 4);
    let na = alpha.len();
    let total: usize = (1..=depth).map(|d| na.pow(d as u32)).sum();
    ctx.par("history", total, |n, l| {
        let (mut n, mut d) = (n, 1);
        while n >= na.pow(d) { n -= na.pow(d); d += 1; }
        let mut w = vec![];
        let mut k = n;
        for _ in 0..d { w.extend(&alpha[k % na]); k /= na; }
        for init in 0..2 {
            let mut p = program(&w, vec![(5, 0x400), (6, 0x80FF_7F81), (7, 0x0102_0304)]);
            p.tapes = std::array::from_fn(|k| vec![k as u8 + 1, 0xFF, 3]);
            p.fixed = [[1; 32], [2; 32], [0xEE; 32]];
            if init == 1 { p.rw = vec![(0x401, 0x80), (0x403, 7)]; p.ro = vec![(0x3FF, 9), (0x480, 1)]; }
            run(ctx, sys, "history", || format!("{d}:{n}:{init}"), &p, l);
        }
    });
}

/// Programs with n uses of one table, for all n, so that every padding amount occurs.
fn sizes(ctx: &Ctx, sys: &Sys) {
    let max = ctx.pick(70, 300);
    let kinds: Vec<(&str, Vec<u32>)> = vec![
        ("nop", vec![addi(0, 0, 0)]), ("add", vec![r(0, 0, 7, 5, 6)]), ("mul", vec![r(1, 0, 7, 5, 6)]), ("div", vec![r(1, 4, 7, 5, 6)]), ("xor", vec![r(0, 4, 7, 5, 6)]),
        ("sll", vec![r(0, 1, 7, 5, 6)]), ("blt", vec![b(4, 5, 6, 4)]), ("sb", vec![s(0, 8, 5, 0)]), ("lb", vec![i(3, 0, 7, 8, 0)]), ("sh", vec![s(1, 8, 5, 0), addi(8, 8, 2)]),
        ("lw", vec![i(3, 2, 7, 8, 0), addi(8, 8, 1)]), ("io0", vec![addi(10, 0, 2), addi(12, 0, 0), ECALL]), ("io1", vec![addi(10, 0, 4), addi(11, 8, 0), addi(12, 0, 1), ECALL]),
        ("hash", vec![addi(10, 0, 3), addi(11, 0, 0x600), addi(12, 0, 8), addi(13, 0, 0x600), ECALL]), ("x31", vec![addi(31, 31, 1)]), ("beq", vec![b(0, 5, 6, 4)]),
    ];
    ctx.par("size", kinds.len() * (max + 1), |n, l| {
        let (name, body) = &kinds[n / (max + 1)];
        let k = n % (max + 1);
        if *name == "hash" && k > 70 { return; }
        let w: Vec<u32> = (0..k).flat_map(|_| body.clone()).collect();
        let mut p = program(&w, vec![(5, 0xFFFF_0003), (6, 0x1_0005), (8, 0x1000)]);
        p.tapes[1] = vec![5; 400];
        run(ctx, sys, "size", || format!("{name}:{k}"), &p, l);
    });
    // io of n bytes; n bytes of initialised memory
    ctx.par("size-io", 7 * max, |n, l| {
        let (id, k) = ([2, 4, 5, 6, 7, 8, 9][n % 7], n / 7);
        let w = [li(10, id), li(11, 0x800), li(12, k as u32)].concat().into_iter().chain([ECALL]).collect::<Vec<_>>();
        let mut p = program(&w, vec![]);
        p.tapes = std::array::from_fn(|_| vec![7; 400]);
        p.rw = (0..k as u32 / 2).map(|a| (0x900 + a, 1)).collect();
        p.ro = (0..k as u32 / 3).map(|a| (0xA00 + a, 2)).collect();
        run(ctx, sys, "size-io", || format!("{id}:{k}"), &p, l);
    });
}
