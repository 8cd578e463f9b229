//! Runs guest programs, built from /repo's SDK for the VM's target, in /repo's VM.
use mc::guard;
use mozak_runner::elf::{Data, Program};
use mozak_runner::state::{RawTapes, State, StateMemory};
use plonky2::field::goldilocks_field::GoldilocksField as F;

pub const SCRIPT: u32 = 0xFD00_0000;
pub const LOG: u32 = 0xFE00_0000;

#[derive(Clone)]
pub struct Guest { pub p: Program, pub limit: u64, mem: StateMemory }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End { Halted, Refused(String), Limit }

pub struct Run { pub end: End, pub log: Vec<u8>, pub steps: u64, pub last: State<F> }
impl Run {
    pub fn halted(&self) -> bool { self.end == End::Halted }
    pub fn words(&self) -> Vec<u32> { self.log.chunks(4).map(|c| { let mut b = [0; 4]; b[..c.len()].copy_from_slice(c); u32::from_le_bytes(b) }).collect() }
}

pub fn guest(name: &str) -> Guest {
    let dir = std::env::var("GUEST_DIR").unwrap_or_else(|_| "/verif/guest/target/riscv32im-mozak-mozakvm-elf/mozak-release".into());
    let elf = std::fs::read(format!("{dir}/{name}")).unwrap_or_else(|e| panic!("guest {name}: {e}"));
    let p = Program::mozak_load_program(&elf).expect("guest loads");
    // building the initial memory takes longer than most runs: share it
    let mem = State::<F>::new(p.clone(), RawTapes::default()).memory;
    Guest { p, limit: 3_000_000, mem }
}

impl Guest {
    pub fn start(&self, script: &[u8], tapes: &RawTapes) -> State<F> {
        let bare = Program { rw_memory: Data::default(), ro_memory: Data::default(), ..self.p.clone() };
        let mut s = State::<F>::new(bare, tapes.clone());
        s.memory = self.mem.clone();
        for (i, b) in script.iter().enumerate() { s.memory.data.insert(SCRIPT + i as u32, *b); }
        s
    }
    pub fn run(&self, script: &[u8], tapes: &RawTapes) -> Run { self.resume(self.start(script, tapes)) }
    pub fn resume(&self, mut s: State<F>) -> Run {
        let mut steps = 0;
        // The step that is refused consumes the state: go back to a checkpoint and replay.
        let (mut mark, mut mark_steps) = (s.clone(), 0);
        let end = loop {
            if s.has_halted() { break End::Halted; }
            if steps == self.limit { break End::Limit; }
            if steps - mark_steps == 1024 { mark = s.clone(); mark_steps = steps; }
            let e = match guard(|| s.execute_instruction(&self.p)) {
                Ok(Ok((_, _, n))) => { s = n; steps += 1; continue; }
                Ok(Err(e)) => e.to_string(),
                Err(e) => format!("panic: {e}"),
            };
            s = mark;
            for _ in mark_steps..steps { s = s.execute_instruction(&self.p).unwrap().2; }
            break End::Refused(e);
        };
        let n = s.load_u32(LOG).min(1 << 20);
        let log = (0..n).map(|i| s.load_u8(LOG + 4 + i)).collect();
        Run { end, log, steps, last: s }
    }
}

/// Script assembler for the `driver` guest.
#[derive(Clone, Default)]
pub struct Script(pub Vec<u8>);
impl Script {
    pub fn b(mut self, x: u8) -> Self { self.0.push(x); self }
    pub fn w(mut self, x: u32) -> Self { self.0.extend(x.to_le_bytes()); self }
    pub fn d(mut self, x: u64) -> Self { self.0.extend(x.to_le_bytes()); self }
    pub fn raw(mut self, x: &[u8]) -> Self { self.0.extend(x); self }
    pub fn blob(self, x: &[u8]) -> Self { self.w(x.len() as u32).raw(x) }
}

pub fn prefixed(d: &[u8]) -> Vec<u8> { [&(d.len() as u32).to_le_bytes()[..], d].concat() }
/// Tapes of a program that neither calls nor emits anything.
pub fn plain_tapes(private: &[u8], public: &[u8]) -> RawTapes {
    RawTapes {
        private_tape: prefixed(private), public_tape: prefixed(public),
        call_tape: prefixed(&[0; 8]), event_tape: prefixed(&[0; 8]),
        self_prog_id_tape: [0x5E; 32], ..Default::default()
    }
}
