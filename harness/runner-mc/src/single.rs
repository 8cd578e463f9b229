//! R02: one-instruction semantics over operand, immediate, register-alias and address grids.
use std::collections::HashMap;

use mc::{boundary32, guard, small32, Ctx, Local};
use mozak_runner::vm::Row;
use serde_json::json;

use crate::bridge::{diff, row_diff, Setup, St};
use crate::refvm::{enc, Effect, RefVm, Stop};

/// Registers and memory bytes set before a step.
pub struct Preset { regs: Vec<(u8, u32)>, mem: Vec<(u32, u8)> }
impl From<Vec<(u8, u32)>> for Preset { fn from(regs: Vec<(u8, u32)>) -> Self { Preset { regs, mem: vec![] } } }

pub struct Grid<'a> { pub ctx: &'a Ctx, pub rows: bool }

impl Grid<'_> {
    /// Runs the instruction `w` at `pc` from each register assignment.
    pub fn run(&self, l: &mut Local, w: u32, pc: u32, base: &Setup, assigns: impl Iterator<Item = impl Into<Preset>>, with_mem: bool) {
        let mut setup = base.clone();
        setup.entry = pc;
        setup.code = vec![(pc, w)];
        let p = setup.program();
        let s0 = setup.state(&p);
        let r0 = setup.reference();
        l.add("traces_validated_against_impl", 1);
        for a in assigns {
            let mut s: St = s0.clone();
            let mut r: RefVm = r0.clone();
            let Preset { regs: a, mem } = a.into();
            for (q, v) in mem { s.memory.data.insert(q, v); r.mem.insert(q, v); }
            for (i, v) in &a { if *i != 0 { s.registers[*i as usize] = *v; r.x[*i as usize] = *v; } }
            let before = if self.rows { Some((s.clone(), r.clone())) } else { None };
            let got = guard(|| s.execute_instruction(&p));
            let want = r.step();
            l.add("states", 1);
            let bad: Option<String> = match (&want, &got) {
                (Err(Stop::Any(_)), _) => None,
                (Err(Stop::Refuse(_)), Ok(Err(_)) | Err(_)) => { l.add("refused_as_required", 1); None }
                (Err(Stop::Refuse(why)), Ok(Ok(_))) => Some(format!("accepted, but must be refused: {why}")),
                (Ok(_), Ok(Err(e))) => Some(format!("refused: {e}")),
                (Ok(_), Err(e)) => Some(format!("panicked: {e}")),
                (Ok(e), Ok(Ok((aux, inst, ns)))) => { l.add("transitions", 1); diff(ns, &r, with_mem).or_else(|| {
                    if ns.clk != s0.clk + 1 { return Some(format!("clk {} after one step from {}", ns.clk, s0.clk)); }
                    let (bs, br) = before?;
                    row_diff(&Row { state: bs, aux: aux.clone(), instruction: *inst }, &br, &r, e)
                }) }
            };
            if let Some(b) = bad {
                self.ctx.violation(format!("step:{w:08x}@{pc:08x}"), json!({"word": format!("{w:#010x}"), "pc": format!("{pc:#x}"),
                    "registers": a.iter().map(|(i, v)| format!("x{i}={v:#x}")).collect::<Vec<_>>(), "what": b}));
                return;
            }
            if let Ok(Effect { rd: Some((d, v)), .. }) = want { if *l.counts.get("states").unwrap() % 4099 == 0 { l.outcome(format!("op {:02x}/{} x{d} {v:#x}", w & 0x7f, w >> 12 & 7)); } }
        }
    }
}

const PATS: [(u32, u32, u32); 12] = [(5, 6, 7), (5, 5, 6), (5, 6, 5), (5, 6, 6), (5, 5, 5), (0, 6, 7), (5, 0, 7), (5, 6, 0), (0, 0, 0), (31, 30, 29), (10, 11, 12), (1, 31, 2)];

pub fn grids(ctx: &Ctx, rows: bool) {
    let g = Grid { ctx, rows };
    let b = if rows { small32() } else { boundary32() };
    let sm = small32();
    let rops: Vec<(u32, u32)> = vec![(0, 0), (0x20, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0x20, 5), (0, 6), (0, 7),
        (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)];
    // Register-register
    let np = ctx.pick(if rows { 4 } else { 8 }, PATS.len());
    ctx.par("reg-reg", rops.len() * np, |i, l| {
        let ((f7, f3), (rd, rs1, rs2)) = (rops[i / np], PATS[i % np]);
        let w = enc::r(f7, f3, rd, rs1, rs2);
        if rs1 == rs2 {
            g.run(l, w, 0x400, &Setup::default(), &mut b.iter().map(|x| vec![(rs1 as u8, *x)]), false);
        } else {
            g.run(l, w, 0x400, &Setup::default(), &mut b.iter().flat_map(|x| b.iter().map(move |y| vec![(rs1 as u8, *x), (rs2 as u8, *y)])), false);
        }
    });
    // thorough: dense products of small and negative operands, and of one dense operand with the boundary grid
    if !ctx.quick() && !rows {
        let dense: Vec<u32> = (0..2048u32).chain((1..=2048).map(u32::wrapping_neg)).chain((0..256).map(|k| 0x8000_0000u32.wrapping_add(k).wrapping_sub(128))).collect();
        ctx.par("reg-reg-dense", rops.len() * dense.len(), |i, l| {
            let ((f7, f3), x) = (rops[i / dense.len()], dense[i % dense.len()]);
            g.run(l, enc::r(f7, f3, 5, 6, 7), 0x400, &Setup::default(), &mut dense.iter().chain(&b).map(|y| vec![(6u8, x), (7u8, *y)]), false);
            g.run(l, enc::r(f7, f3, 5, 6, 7), 0x400, &Setup::default(), &mut b.iter().map(|y| vec![(6u8, *y), (7u8, x)]), false);
        });
    }
    // every register number in every role
    ctx.par("registers", 32 * 3, |i, l| {
        let r = (i / 3) as u32;
        let (rd, rs1, rs2) = match i % 3 { 0 => (r, 3, 4), 1 => (3, r, 4), _ => (3, 4, r) };
        for &(f7, f3) in &rops {
            g.run(l, enc::r(f7, f3, rd, rs1, rs2), 0x400, &Setup::default(),
                &mut [(7u32, 2u32), (0x8000_0001, 3), (2, 0xFFFF_FFF9)].iter().map(|(x, y)| vec![(rs1 as u8, *x), (rs2 as u8, *y)]), false);
        }
    });
    // words that are no instruction stop the machine
    ctx.par("refused", 8, |i, l| {
        for w in [0u32, 0xFFFF_FFFF, 0x0000_2067, 0x0200_1013, 0x0000_3003, 0x0000_3023, 0x8000_0033, 0x0000_2063].iter().skip(i).take(1) {
            g.run(l, *w, 0x400, &Setup::default(), &mut sm.iter().map(|x| vec![(6u8, *x)]), false);
        }
    });
    // Register-immediate: every immediate
    let iops = [0u32, 2, 3, 4, 6, 7];
    ctx.par("reg-imm", iops.len() * 64, |i, l| {
        let f3 = iops[i / 64];
        for imm in (0..64).map(|k| -2048 + (i as i32 % 64) * 64 + k) {
            for (rd, rs1) in [(5, 6), (5, 5), (0, 6), (5, 0)] {
                g.run(l, enc::i(0x13, f3, rd, rs1, imm), 0x400, &Setup::default(), &mut sm.iter().map(|x| vec![(rs1 as u8, *x)]), false);
            }
        }
    });
    ctx.par("shift-imm", 3 * 32, |i, l| {
        let (f7, f3) = [(0u32, 1u32), (0, 5), (0x20, 5)][i / 32];
        let imm = ((f7 << 5) | (i as u32 % 32)) as i32;
        for (rd, rs1) in [(5, 6), (5, 5), (0, 6), (5, 0)] {
            g.run(l, enc::i(0x13, f3, rd, rs1, imm), 0x400, &Setup::default(), &mut b.iter().map(|x| vec![(rs1 as u8, *x)]), false);
        }
    });
    // Upper immediates, jumps, branches at many pcs
    let pcs = [0u32, 4, 0x400, 0x0FFF_FFFC, 0x7FFF_FFFC, 0x8000_0000, 0xFFFF_F000, 0xFFFF_FFFC];
    ctx.par("upper", pcs.len() * 2, |i, l| {
        let (pc, op) = (pcs[i / 2], if i % 2 == 0 { 0x37 } else { 0x17 });
        for m in b.iter().map(|x| x & 0xFFFF_F000).chain((0..256).map(|k| k << 12)).chain((0..256).map(|k| k << 24)) {
            for rd in [0, 1, 5, 31] { g.run(l, enc::u(op, rd, m), pc, &Setup::default(), &mut std::iter::once(vec![]), false); }
        }
    });
    ctx.par("jal", pcs.len(), |i, l| {
        let pc = pcs[i];
        for off in (0..20).flat_map(|k| [1i32 << k, -(1i32 << k), (1 << k) + 4, (1 << k) - 2]).chain([-0x10_0000, 0xF_FFFE]).map(|o| o & !1) {
            for rd in [0, 1, 5] { g.run(l, enc::j(rd, off), pc, &Setup::default(), &mut std::iter::once(vec![]), false); }
        }
    });
    ctx.par("jalr", pcs.len() * 5, |i, l| {
        let (pc, (rd, rs1)) = (pcs[i / 5], [(1, 5), (5, 5), (0, 5), (1, 0), (0, 1)][i % 5]);
        for imm in [-2048, -2047, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 100, 2047] {
            g.run(l, enc::i(0x67, 0, rd, rs1, imm), pc, &Setup::default(), &mut b.iter().map(|x| vec![(rs1 as u8, *x)]), false);
        }
    });
    ctx.par("branch", 6 * 5, |i, l| {
        let f3 = [0u32, 1, 4, 5, 6, 7][i / 5];
        let (rs1, rs2) = [(5, 6), (5, 5), (0, 6), (5, 0), (31, 1)][i % 5];
        for pc in pcs {
            for off in [-4096, -8, -4, 4, 8, 2, 0x7fe, 4094] {
                let full = pc == 0x400 && off == 8;
                let v = if full { &b } else { &sm };
                let step = if full || !ctx.quick() { 1 } else { 5 };
                if rs1 == rs2 {
                    g.run(l, enc::b(f3, rs1, rs2, off), pc, &Setup::default(), &mut v.iter().map(|x| vec![(rs1 as u8, *x)]), false);
                } else {
                    g.run(l, enc::b(f3, rs1, rs2, off), pc, &Setup::default(), &mut v.iter().flat_map(|x| v.iter().step_by(step).map(move |y| vec![(rs1 as u8, *x), (rs2 as u8, *y)])), false);
                }
                // nearly equal operands
                g.run(l, enc::b(f3, rs1, rs2, off), pc, &Setup::default(), &mut v.iter().map(|x| vec![(rs1 as u8, *x), (rs2 as u8, *x)]), false);
            }
        }
    });
    // Loads: every byte value at every position; every half-word value; unaligned and wrapping addresses
    let addrs = [0x1000u32, 0x1001, 0x1002, 0x1003, 0xFFFF_FFFC, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF, 0];
    ctx.par("load", 5 * addrs.len(), |i, l| {
        let (f3, addr) = ([0u32, 1, 2, 4, 5][i / addrs.len()], addrs[i % addrs.len()]);
        let vals: Vec<u32> = if f3 % 4 == 2 { b.clone() } else if addr == 0x1001 || addr == 0xFFFF_FFFF {
            (0..0x1_0000u32).step_by(if rows { 17 } else { 1 }).map(|x| x | 0xA500_0000).collect()
        } else { (0..256).map(|x| x * 0x0101_0001 ^ 0x0080_0000).collect() };
        let base = Setup { rw: (0..6u32).map(|k| (addr.wrapping_sub(1).wrapping_add(k), 0xD8 + k as u8)).collect(), ..Default::default() };
        for (rd, rs1, imm) in [(5, 6, 0), (6, 6, 0), (0, 6, 4), (5, 6, -2048), (7, 6, 2047), (5, 0, addr as i32)] {
            if rs1 == 0 && !(-2048..2048).contains(&imm) { continue; }
            let ptr = addr.wrapping_sub(imm as u32);
            g.run(l, enc::i(0x03, f3, rd, rs1, imm), 0x400, &base, vals.iter().map(|v| Preset { regs: vec![(rs1 as u8, ptr)],
                mem: v.to_le_bytes().iter().enumerate().map(|(k, b)| (addr.wrapping_add(k as u32), *b)).collect() }), true);
        }
    });
    // Stores: neighbours keep their value
    ctx.par("store", 3 * addrs.len(), |i, l| {
        let (f3, addr) = ([0u32, 1, 2][i / addrs.len()], addrs[i % addrs.len()]);
        let mut base = Setup { rw: (0..12u32).map(|k| (addr.wrapping_sub(4).wrapping_add(k), 0x30 + k as u8)).collect(), ..Default::default() };
        for fresh in [false, true] {
            if fresh { base.rw.clear(); }
            for (rs1, rs2, imm) in [(6, 5, 0), (6, 5, -2048), (6, 5, 2047), (6, 0, 0)] {
                let ptr = addr.wrapping_sub(imm as u32);
                g.run(l, enc::s(f3, rs1, rs2, imm), 0x400, &base, b.iter().copied().chain((0..256).map(|x| x * 0x0101_0101)).map(|v| vec![(rs1 as u8, ptr), (rs2 as u8, v)]), true);
            }
            // address and data in the same register
            g.run(l, enc::s(f3, 6, 6, 0), 0x400, &base, &mut std::iter::once(vec![(6, addr)]), true);
            g.run(l, enc::s(f3, 0, 6, 16), 0x400, &base, &mut std::iter::once(vec![(6, addr)]), true);
        }
    });
    let _: HashMap<u32, u32> = HashMap::new();
}

pub fn r02(ctx: &Ctx) {
    grids(ctx, false);
    ctx.info("bounds", "18 register-register ops x register-alias patterns x 216^2 boundary operand pairs; every 12-bit immediate; all shift amounts; jumps/branches at 8 pcs; loads of every byte and half-word value; stores with checked neighbours; addresses up to the wrap-around point");
    ctx.info("oracle", "lockstep with an independent RV32IM reference machine; all 32 registers, pc, tapes and memory compared after the step");
    ctx.info("exhaustive", true);
    ctx.sample(json!({"word": "0x025342b3 (div x5,x6,x5)", "checked": "all boundary pairs incl. i32::MIN / -1 and division by zero"}));
    ctx.assume("operand values outside the boundary grid are not enumerated for two-operand instructions");
}
