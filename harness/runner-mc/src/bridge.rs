//! Lockstep comparison of the real VM with the reference machine.
use std::collections::BTreeMap;

use mc::guard;
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::state::{RawTapes, State, StorageDeviceOpcode};
use mozak_runner::vm::{step, ExecutionRecord, Row};
use plonky2::field::goldilocks_field::GoldilocksField;

use crate::refvm::{Effect, RefVm, Stop};

pub type F = GoldilocksField;
pub type St = State<F>;

pub fn bytes_of(words: &[(u32, u32)]) -> im::HashMap<u32, u8> {
    words.iter().flat_map(|(a, w)| w.to_le_bytes().into_iter().enumerate().map(move |(i, b)| (a.wrapping_add(i as u32), b))).collect()
}

/// A program together with its reference machine, from code words, memory images and tapes.
#[derive(Clone, Default)]
pub struct Setup {
    pub entry: u32,
    pub code: Vec<(u32, u32)>,
    pub ro: Vec<(u32, u8)>,
    pub rw: Vec<(u32, u8)>,
    pub regs: Vec<(u8, u32)>,
    pub tapes: [Vec<u8>; 4],
    pub fixed: [[u8; 32]; 3],
}

impl Setup {
    pub fn program(&self) -> Program {
        Program {
            entry_point: self.entry,
            ro_memory: Data(self.ro.iter().copied().collect()),
            rw_memory: Data(self.rw.iter().copied().collect()),
            ro_code: Code::from(&bytes_of(&self.code)),
        }
    }
    pub fn raw_tapes(&self) -> RawTapes {
        RawTapes {
            private_tape: self.tapes[0].clone(),
            public_tape: self.tapes[1].clone(),
            call_tape: self.tapes[2].clone(),
            event_tape: self.tapes[3].clone(),
            events_commitment_tape: self.fixed[0],
            cast_list_commitment_tape: self.fixed[1],
            self_prog_id_tape: self.fixed[2],
        }
    }
    pub fn state(&self, p: &Program) -> St {
        let s = St::new(p.clone(), self.raw_tapes());
        self.regs.iter().fold(s, |s, (r, v)| s.set_register_value(*r, *v))
    }
    pub fn reference(&self) -> RefVm {
        let mut r = RefVm { pc: self.entry, tapes: self.tapes.clone(), fixed: self.fixed, ..Default::default() };
        r.mem = self.rw.iter().copied().collect();
        for (a, v) in &self.ro { r.mem.insert(*a, *v); r.ro.insert(*a); }
        r.code = self.code.iter().copied().collect();
        for (i, v) in &self.regs { if *i != 0 { r.x[*i as usize] = *v; } }
        r
    }
}

fn mem_diff(s: &St, r: &RefVm) -> Option<String> {
    for (a, v) in s.memory.data.iter() { if r.rd8(*a) != *v { return Some(format!("mem[{a:#x}] = {v:#x}, expected {:#x}", r.rd8(*a))); } }
    for (a, v) in &r.mem { if s.load_u8(*a) != *v { return Some(format!("mem[{a:#x}] = {:#x}, expected {v:#x}", s.load_u8(*a))); } }
    None
}

/// First difference between the real and the reference state.
pub fn diff(s: &St, r: &RefVm, with_mem: bool) -> Option<String> {
    if s.registers != r.x {
        let i = (0..32).find(|&i| s.registers[i] != r.x[i]).unwrap();
        return Some(format!("x{i} = {:#x}, expected {:#x}", s.registers[i], r.x[i]));
    }
    if s.pc != r.pc { return Some(format!("pc = {:#x}, expected {:#x}", s.pc, r.pc)); }
    if s.halted != r.halted { return Some(format!("halted = {}, expected {}", s.halted, r.halted)); }
    let c = [s.private_tape.read_index, s.public_tape.read_index, s.call_tape.read_index, s.event_tape.read_index];
    if c != r.cursor { return Some(format!("tape cursors {c:?}, expected {:?}", r.cursor)); }
    let d = [&s.private_tape.data, &s.public_tape.data, &s.call_tape.data, &s.event_tape.data];
    if (0..4).any(|i| d[i][..] != r.tapes[i][..]) { return Some("tape contents changed".into()); }
    if s.events_commitment_tape.0 != r.fixed[0] || s.cast_list_commitment_tape.0 != r.fixed[1] || s.self_prog_id_tape != r.fixed[2] {
        return Some("commitment tapes changed".into());
    }
    if with_mem { return mem_diff(s, r); }
    None
}

#[derive(Debug)]
pub enum StepOut { Same(Effect), Refused, Unspecified, Differs(String) }

/// One step of both machines. The real state is consumed and replaced.
pub fn lockstep(p: &Program, s: &mut St, r: &mut RefVm, with_mem: bool) -> StepOut {
    let clk = s.clk;
    let want = r.step();
    if let Err(Stop::Any(_)) = want { return StepOut::Unspecified; }
    let got = guard(|| s.clone().execute_instruction(p));
    match (want, got) {
        (Err(Stop::Any(_)), _) => StepOut::Unspecified,
        (Err(Stop::Refuse(_)), Ok(Err(_)) | Err(_)) => StepOut::Refused,
        (Err(Stop::Refuse(why)), Ok(Ok(_))) => StepOut::Differs(format!("accepted, but must be refused: {why}")),
        (Ok(_), Ok(Err(e))) => StepOut::Differs(format!("refused: {e}")),
        (Ok(_), Err(e)) => StepOut::Differs(format!("panicked: {e}")),
        (Ok(e), Ok(Ok((_, _, ns)))) => {
            *s = ns;
            if s.clk != clk + 1 { return StepOut::Differs(format!("clk went from {clk} to {}", s.clk)); }
            match diff(s, r, with_mem) { Some(d) => StepOut::Differs(d), None => StepOut::Same(e) }
        }
    }
}

/// Does a row of the record describe what the reference step did?
pub fn row_diff(row: &Row<F>, before: &RefVm, after: &RefVm, e: &Effect) -> Option<String> {
    if let Some(d) = diff(&row.state, before, false) { return Some(format!("state before: {d}")); }
    let aux = &row.aux;
    if aux.new_pc != after.pc { return Some(format!("new_pc {:#x}, expected {:#x}", aux.new_pc, after.pc)); }
    if aux.will_halt != after.halted { return Some(format!("will_halt {}", aux.will_halt)); }
    let a = &row.instruction.args;
    let (v1, v2) = (before.x[a.rs1 as usize & 31], before.x[a.rs2 as usize & 31]);
    use mozak_runner::instruction::Op;
    let v2i = match row.instruction.op {
        Op::BEQ | Op::BNE | Op::BLT | Op::BLTU | Op::BGE | Op::BGEU => v2,
        Op::SRL | Op::SLL | Op::SRA => 1u32 << (v2.wrapping_add(a.imm) & 31),
        _ => v2.wrapping_add(a.imm),
    };
    if (aux.op1, aux.op2_raw, aux.op2) != (v1, v2, v2i) {
        return Some(format!("operands {:#x} {:#x} {:#x}, expected {v1:#x} {v2:#x} {v2i:#x}", aux.op1, aux.op2_raw, aux.op2));
    }
    if let Some((_, v)) = e.rd { if aux.dst_val != v { return Some(format!("dst_val {:#x}, expected {v:#x}", aux.dst_val)); } }
    let want: Vec<u32> = e.reads.iter().copied().chain(e.writes.iter().map(|w| w.0)).collect();
    if aux.mem_addresses_used != want { return Some(format!("addresses used {:x?}, expected {want:x?}", aux.mem_addresses_used)); }
    if e.tape.is_none() && e.hashed.is_none() && !want.is_empty() {
        let raw = if e.writes.is_empty() {
            e.reads.iter().enumerate().fold(0u32, |v, (k, a)| v | u32::from(before.rd8(*a)) << (8 * k))
        } else { e.writes.iter().enumerate().fold(0u32, |v, (k, w)| v | u32::from(w.1) << (8 * k)) };
        match aux.mem {
            Some(m) if m.addr == want[0] && m.raw_value == raw => {}
            m => return Some(format!("memory entry {m:?}, expected addr {:#x} raw {raw:#x}", want[0])),
        }
    } else if aux.mem.is_some() { return Some("spurious memory entry".into()); }
    match (&e.tape, &aux.storage_device_entry) {
        (None, None) => {}
        (Some((t, data)), Some(s)) => {
            use StorageDeviceOpcode::*;
            let op = [StorePrivate, StorePublic, StoreCallTape, StoreEventTape, StoreEventsCommitmentTape, StoreCastListCommitmentTape, StoreSelfProgIdTape][*t];
            if s.op != op || s.data != *data || s.addr != before.x[11] || aux.dst_val as usize != data.len() {
                return Some(format!("storage entry {s:?} dst {}, expected tape {t} data {data:?}", aux.dst_val));
            }
        }
        (a, b) => return Some(format!("storage entry {b:?}, expected {a:?}")),
    }
    match (&e.hashed, &aux.poseidon2) {
        (None, None) => {}
        (Some((i, n, o)), Some(p)) => {
            if p.addr != *i || p.output_addr != *o || p.len != *n || p.sponge_data.len() != (*n as usize) / 8 {
                return Some(format!("hash entry addr {:#x} out {:#x} len {} blocks {}, expected {i:#x} {o:#x} {n}", p.addr, p.output_addr, p.len, p.sponge_data.len()));
            }
        }
        (a, b) => return Some(format!("hash entry {}, expected {a:?}", b.is_some())),
    }
    None
}

pub enum RunOut { Halted(u64), Refused(u64), Unspecified, StillRunning, Differs(String) }

/// Runs both machines to the end (or to `cap` steps) and compares every state.
/// When the reference halts, the real `step` loop is run too and its whole
/// record is compared row by row.
pub fn run_both(setup: &Setup, cap: u64, check_rows: bool) -> (RunOut, u64) {
    let p = match guard(|| setup.program()) { Ok(p) => p, Err(e) => return (RunOut::Differs(format!("building the program panicked: {e}")), 0) };
    let s0 = setup.state(&p);
    let mut r = setup.reference();
    if let Some(d) = diff(&s0, &r, true) { return (RunOut::Differs(format!("initial state: {d}")), 0); }
    let mut trace: Vec<(RefVm, Effect)> = vec![];
    let mut end = None;
    let mut n = 0;
    while !r.halted && n < cap {
        let before = if check_rows { r.clone() } else { RefVm::default() };
        match r.step() {
            Ok(e) => { trace.push((before, e)); }
            Err(st) => { end = Some(st); break; }
        }
        n += 1;
    }
    if let Some(Stop::Any(_)) = end { return (RunOut::Unspecified, n); }
    if r.halted || end.is_some() {
        // The real machine must stop too; `step` is bounded by its own loop limit in debug builds,
        // so drive it by hand first for as many steps as the reference took.
        let (mut s, mut q) = (s0.clone(), setup.reference());
        for k in 0..n {
            match lockstep(&p, &mut s, &mut q, false) {
                StepOut::Same(_) => {}
                o => return (RunOut::Differs(format!("step {k}: {o:?}")), n),
            }
        }
        if let Some(d) = mem_diff(&s, &r) { return (RunOut::Differs(format!("final memory: {d}")), n); }
        if end.is_some() {
            return (match lockstep(&p, &mut s, &mut q, false) {
                StepOut::Refused => RunOut::Refused(n),
                o => RunOut::Differs(format!("step {n}: {o:?}")),
            }, n);
        }
        let rec: ExecutionRecord<F> = match guard(|| step(&p, s0)) {
            Ok(Ok(rec)) => rec,
            Ok(Err(e)) => return (RunOut::Differs(format!("step() refused: {e}")), n),
            Err(e) => return (RunOut::Differs(format!("step() panicked: {e}")), n),
        };
        if rec.executed.len() as u64 != n { return (RunOut::Differs(format!("record has {} rows, expected {n}", rec.executed.len())), n); }
        if let Some(d) = diff(&rec.last_state, &r, true) { return (RunOut::Differs(format!("last state: {d}")), n); }
        if check_rows && rec.executed.len() > 1 && diff(rec.state_before_final(), &trace[trace.len() - 2].0, true).is_some() { return (RunOut::Differs("state before the final one".into()), n); }
        if check_rows {
            for k in 0..trace.len() {
                let after = if k + 1 < trace.len() { &trace[k + 1].0 } else { &r };
                if let Some(d) = row_diff(&rec.executed[k], &trace[k].0, after, &trace[k].1) {
                    return (RunOut::Differs(format!("record row {k}: {d}")), n);
                }
            }
        }
        return (RunOut::Halted(n), n);
    }
    // not halted within the cap: compare stepwise only
    let (mut s, mut q) = (s0, setup.reference());
    for k in 0..n {
        match lockstep(&p, &mut s, &mut q, k + 1 == n) {
            StepOut::Same(_) => {}
            o => return (RunOut::Differs(format!("step {k}: {o:?}")), n),
        }
    }
    (RunOut::StillRunning, n)
}

#[allow(dead_code)]
pub type Map = BTreeMap<u32, u8>;
