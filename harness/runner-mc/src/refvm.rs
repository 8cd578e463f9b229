//! Reference RV32IM machine, written from the ISA manual and the SDK's ecall
//! numbering; deliberately naive. No code shared with mozak-runner.
use std::collections::{HashMap, HashSet};

use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon2::Poseidon2;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[rustfmt::skip]
pub enum Mn {
    Lui, Auipc, Jal, Jalr, Beq, Bne, Blt, Bge, Bltu, Bgeu, Lb, Lh, Lw, Lbu, Lhu, Sb, Sh, Sw,
    Addi, Slti, Sltiu, Xori, Ori, Andi, Slli, Srli, Srai,
    Add, Sub, Sll, Slt, Sltu, Xor, Srl, Sra, Or, And,
    Mul, Mulh, Mulhsu, Mulhu, Div, Divu, Rem, Remu, Ecall, Nop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RInst { pub mn: Mn, pub rd: usize, pub rs1: usize, pub rs2: usize, pub imm: i32 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec {
    /// A valid instruction.
    Is(RInst),
    /// Not an RV32IM instruction (nor one of the documented no-ops): must be refused.
    Bad,
    /// Reserved encoding close to a valid one: may be refused or treated as given.
    Either(RInst),
}

fn bits(w: u32, hi: u32, lo: u32) -> u32 { (w >> lo) & ((1u32 << (hi - lo + 1)) - 1) }
fn sext(v: u32, n: u32) -> i32 { ((v << (32 - n)) as i32) >> (32 - n) }

pub fn ref_decode(w: u32) -> Dec {
    use Mn::*;
    let op = w & 0x7f;
    let rd = bits(w, 11, 7) as usize;
    let f3 = bits(w, 14, 12);
    let rs1 = bits(w, 19, 15) as usize;
    let rs2 = bits(w, 24, 20) as usize;
    let f7 = w >> 25;
    let imm_i = sext(w >> 20, 12);
    let imm_s = sext((f7 << 5) | rd as u32, 12);
    let imm_b = sext((bits(w, 31, 31) << 12) | (bits(w, 7, 7) << 11) | (bits(w, 30, 25) << 5) | (bits(w, 11, 8) << 1), 13);
    let imm_u = (w & 0xFFFF_F000) as i32;
    let imm_j = sext((bits(w, 31, 31) << 20) | (bits(w, 19, 12) << 12) | (bits(w, 20, 20) << 11) | (bits(w, 30, 21) << 1), 21);
    let i = |mn, rd, rs1, rs2, imm| Dec::Is(RInst { mn, rd, rs1, rs2, imm });
    match op {
        0x37 => i(Lui, rd, 0, 0, imm_u),
        0x17 => i(Auipc, rd, 0, 0, imm_u),
        0x6f => i(Jal, rd, 0, 0, imm_j),
        0x67 if f3 == 0 => i(Jalr, rd, rs1, 0, imm_i),
        0x63 => match f3 {
            0 => i(Beq, 0, rs1, rs2, imm_b),
            1 => i(Bne, 0, rs1, rs2, imm_b),
            4 => i(Blt, 0, rs1, rs2, imm_b),
            5 => i(Bge, 0, rs1, rs2, imm_b),
            6 => i(Bltu, 0, rs1, rs2, imm_b),
            7 => i(Bgeu, 0, rs1, rs2, imm_b),
            _ => Dec::Bad,
        },
        0x03 => match f3 {
            0 => i(Lb, rd, rs1, 0, imm_i),
            1 => i(Lh, rd, rs1, 0, imm_i),
            2 => i(Lw, rd, rs1, 0, imm_i),
            4 => i(Lbu, rd, rs1, 0, imm_i),
            5 => i(Lhu, rd, rs1, 0, imm_i),
            _ => Dec::Bad,
        },
        0x23 => match f3 {
            0 => i(Sb, 0, rs1, rs2, imm_s),
            1 => i(Sh, 0, rs1, rs2, imm_s),
            2 => i(Sw, 0, rs1, rs2, imm_s),
            _ => Dec::Bad,
        },
        0x13 => match f3 {
            0 => i(Addi, rd, rs1, 0, imm_i),
            2 => i(Slti, rd, rs1, 0, imm_i),
            3 => i(Sltiu, rd, rs1, 0, imm_i),
            4 => i(Xori, rd, rs1, 0, imm_i),
            6 => i(Ori, rd, rs1, 0, imm_i),
            7 => i(Andi, rd, rs1, 0, imm_i),
            1 if f7 == 0 => i(Slli, rd, rs1, 0, rs2 as i32),
            5 if f7 == 0 => i(Srli, rd, rs1, 0, rs2 as i32),
            5 if f7 == 0x20 => i(Srai, rd, rs1, 0, rs2 as i32),
            _ => Dec::Bad,
        },
        0x33 => {
            let mn = match (f7, f3) {
                (0, 0) => Add, (0x20, 0) => Sub, (0, 1) => Sll, (0, 2) => Slt, (0, 3) => Sltu, (0, 4) => Xor,
                (0, 5) => Srl, (0x20, 5) => Sra, (0, 6) => Or, (0, 7) => And,
                (1, 0) => Mul, (1, 1) => Mulh, (1, 2) => Mulhsu, (1, 3) => Mulhu,
                (1, 4) => Div, (1, 5) => Divu, (1, 6) => Rem, (1, 7) => Remu,
                _ => return Dec::Bad,
            };
            i(mn, rd, rs1, rs2, 0)
        }
        // FENCE is a no-op; the other MISC-MEM encodings are reserved / Zifencei.
        0x0f => {
            let n = RInst { mn: Nop, rd: 0, rs1: 0, rs2: 0, imm: 0 };
            if f3 == 0 { Dec::Is(n) } else { Dec::Either(n) }
        }
        0x73 => {
            let n = |mn| RInst { mn, rd: 0, rs1: 0, rs2: 0, imm: 0 };
            match f3 {
                0 => {
                    let mn = match w >> 20 { 0 => Ecall, 1 | 0x302 => Nop, _ => return Dec::Bad };
                    if rd == 0 && rs1 == 0 { Dec::Is(n(mn)) } else { Dec::Either(n(mn)) }
                }
                // Writes to read-only CSRs (csr[11:10] = 11) are illegal; `unimp`, the
                // compilers' trap, is one of them.
                1 | 5 if w >> 30 == 3 => Dec::Bad,
                2 if w >> 30 == 3 && rs1 != 0 => Dec::Bad,
                // Other CSRRW, CSRRS, CSRRWI: documented as no-ops.
                1 | 2 | 5 => Dec::Is(n(Nop)),
                _ => Dec::Bad,
            }
        }
        _ => Dec::Bad,
    }
}

pub fn alu(mn: Mn, a: u32, b: u32) -> u32 {
    use Mn::*;
    let (sa, sb) = (a as i32, b as i32);
    match mn {
        Add | Addi => (u64::from(a) + u64::from(b)) as u32,
        Sub => (u64::from(a) + (1u64 << 32) - u64::from(b)) as u32,
        Sll | Slli => ((u64::from(a)) << (b % 32)) as u32,
        Srl | Srli => (u64::from(a) / (1u64 << (b % 32))) as u32,
        Sra | Srai => i64::from(sa).div_euclid(1i64 << (b % 32)) as u32,
        Slt | Slti => u32::from(i64::from(sa) - i64::from(sb) < 0),
        Sltu | Sltiu => u32::from(i64::from(a) - i64::from(b) < 0),
        Xor | Xori => a ^ b,
        Or | Ori => a | b,
        And | Andi => a & b,
        Mul => (u128::from(a) * u128::from(b)) as u32,
        Mulh => ((i128::from(sa) * i128::from(sb)) >> 32) as u32,
        Mulhsu => ((i128::from(sa) * i128::from(b)) >> 32) as u32,
        Mulhu => ((u128::from(a) * u128::from(b)) >> 32) as u32,
        Div => if b == 0 { u32::MAX } else { (i64::from(sa) / i64::from(sb)) as u32 },
        Divu => if b == 0 { u32::MAX } else { a / b },
        Rem => if b == 0 { a } else { (i64::from(sa) % i64::from(sb)) as u32 },
        Remu => if b == 0 { a } else { a % b },
        _ => unreachable!(),
    }
}

#[derive(Clone, Default, Debug)]
pub struct RefVm {
    pub x: [u32; 32],
    pub pc: u32,
    pub mem: HashMap<u32, u8>,
    pub ro: HashSet<u32>,
    /// instruction words by address
    pub code: HashMap<u32, u32>,
    /// private, public, call, event
    pub tapes: [Vec<u8>; 4],
    pub cursor: [usize; 4],
    /// events commitment, cast list commitment, self program id
    pub fixed: [[u8; 32]; 3],
    pub halted: bool,
    pub steps: u64,
}

/// What one step did, as far as it is observable in the execution record.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Effect {
    pub reads: Vec<u32>,
    pub writes: Vec<(u32, u8)>,
    pub rd: Option<(usize, u32)>,
    /// data delivered from (tape number, bytes)
    pub tape: Option<(usize, Vec<u8>)>,
    pub hashed: Option<(u32, u32, u32)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// Must be refused (error or panic), with no further execution.
    Refuse(&'static str),
    /// Not specified.
    Any(&'static str),
}

pub const TAPE_IDS: [(u32, usize); 7] = [(2, 0), (4, 1), (5, 2), (6, 3), (7, 4), (8, 5), (9, 6)];

impl RefVm {
    pub fn rd8(&self, a: u32) -> u8 { self.mem.get(&a).copied().unwrap_or(0) }
    fn wr8(&mut self, a: u32, v: u8) { self.mem.insert(a, v); }
    fn set(&mut self, r: usize, v: u32) { if r != 0 { self.x[r] = v; } }

    pub fn step(&mut self) -> Result<Effect, Stop> {
        if self.pc % 4 != 0 { return Err(Stop::Refuse("misaligned pc")); }
        let Some(&w) = self.code.get(&self.pc) else { return Err(Stop::Refuse("no code at pc")) };
        match ref_decode(w) {
            Dec::Is(i) => self.exec(i),
            Dec::Bad => Err(Stop::Refuse("undecodable")),
            Dec::Either(_) => Err(Stop::Any("reserved encoding")),
        }
    }

    pub fn exec(&mut self, i: RInst) -> Result<Effect, Stop> {
        use Mn::*;
        let mut e = Effect::default();
        let a = self.x[i.rs1];
        let b = self.x[i.rs2];
        let imm = i.imm as u32;
        let mut next = self.pc.wrapping_add(4);
        let mut dst = None;
        match i.mn {
            Lui => dst = Some(imm),
            Auipc => dst = Some(self.pc.wrapping_add(imm)),
            Jal => { dst = Some(next); next = self.pc.wrapping_add(imm); }
            Jalr => { dst = Some(next); next = a.wrapping_add(imm) & 0xFFFF_FFFE; }
            Beq | Bne | Blt | Bge | Bltu | Bgeu => {
                let t = match i.mn {
                    Beq => a == b, Bne => a != b,
                    Blt => (a as i32) < (b as i32), Bge => (a as i32) >= (b as i32),
                    Bltu => a < b, _ => a >= b,
                };
                if t { next = self.pc.wrapping_add(imm); }
            }
            Lb | Lbu | Lh | Lhu | Lw => {
                let n = match i.mn { Lb | Lbu => 1, Lh | Lhu => 2, _ => 4 };
                let addr = a.wrapping_add(imm);
                let mut v = 0u32;
                for k in 0..n { let q = addr.wrapping_add(k); e.reads.push(q); v |= u32::from(self.rd8(q)) << (8 * k); }
                dst = Some(match i.mn { Lb => sext(v, 8) as u32, Lh => sext(v, 16) as u32, _ => v });
            }
            Sb | Sh | Sw => {
                let n = match i.mn { Sb => 1, Sh => 2, _ => 4 };
                let addr = a.wrapping_add(imm);
                for k in 0..n {
                    let q = addr.wrapping_add(k);
                    if self.ro.contains(&q) { return Err(Stop::Refuse("store to read-only memory")); }
                    e.writes.push((q, (b >> (8 * k)) as u8));
                }
                for &(q, v) in &e.writes { self.mem.insert(q, v); }
            }
            Addi | Slti | Sltiu | Xori | Ori | Andi | Slli | Srli | Srai => dst = Some(alu(i.mn, a, imm)),
            Nop => {}
            Ecall => return self.ecall(e),
            _ => dst = Some(alu(i.mn, a, b)),
        }
        if let Some(v) = dst { self.set(i.rd, v); e.rd = Some((i.rd, v)); }
        self.pc = next;
        self.steps += 1;
        Ok(e)
    }

    fn ecall(&mut self, mut e: Effect) -> Result<Effect, Stop> {
        let (id, a1, a2, a3) = (self.x[10], self.x[11], self.x[12], self.x[13]);
        match id {
            0 => { self.halted = true; self.steps += 1; return Ok(e); }
            1 if a2 > 1 << 16 => return Err(Stop::Any("message beyond the explored size")),
            1 => return Err(Stop::Refuse("guest panic")),
            3 => {
                if a2 > 1 << 16 { return Err(Stop::Any("hash input beyond the explored size")); }
                if a2 == 0 || a2 % 8 != 0 { return Err(Stop::Refuse("poseidon2 length not a positive multiple of 8")); }
                let input: Vec<u8> = (0..a2).map(|k| { let q = a1.wrapping_add(k); e.reads.push(q); self.rd8(q) }).collect();
                for (k, v) in ref_sponge(&input).into_iter().enumerate() {
                    let q = a3.wrapping_add(k as u32);
                    if self.ro.contains(&q) { return Err(Stop::Refuse("poseidon2 output in read-only memory")); }
                    e.writes.push((q, v));
                }
                for &(q, v) in &e.writes { self.mem.insert(q, v); }
                e.hashed = Some((a1, a2, a3));
            }
            10 => {
                if a2 > 1 << 16 { return Err(Stop::Any("message beyond the explored size")); }
                let m: Vec<u8> = (0..a2).map(|k| self.rd8(a1.wrapping_add(k))).collect();
                if std::str::from_utf8(&m).is_err() { return Err(Stop::Any("trace message is not utf-8")); }
            }
            _ => {
                if let Some(&(_, t)) = TAPE_IDS.iter().find(|(n, _)| *n == id) {
                    let data: Vec<u8> = if t < 4 {
                        let left = &self.tapes[t][self.cursor[t]..];
                        left[..left.len().min(a2 as usize)].to_vec()
                    } else { self.fixed[t - 4][..32.min(a2 as usize)].to_vec() };
                    for (k, v) in data.iter().enumerate() {
                        let q = a1.wrapping_add(k as u32);
                        if self.ro.contains(&q) { return Err(Stop::Refuse("tape read into read-only memory")); }
                        e.writes.push((q, *v));
                    }
                    for &(q, v) in &e.writes { self.mem.insert(q, v); }
                    if t < 4 { self.cursor[t] += data.len(); }
                    e.tape = Some((t, data));
                }
                // any other number: no effect
            }
        }
        let _ = Self::wr8;
        self.pc = self.pc.wrapping_add(4);
        self.steps += 1;
        Ok(e)
    }
}

/// Overwrite-mode sponge, rate 8, one byte per field element.
pub fn ref_sponge(input: &[u8]) -> [u8; 32] {
    let mut st = [GoldilocksField::ZERO; 12];
    for c in input.chunks(8) {
        for (s, b) in st.iter_mut().zip(c) { *s = GoldilocksField::from_canonical_u64(u64::from(*b)); }
        st = GoldilocksField::poseidon2(st);
    }
    let mut out = [0; 32];
    for i in 0..4 { out[8 * i..8 * i + 8].copy_from_slice(&st[i].to_canonical_u64().to_le_bytes()); }
    out
}

/// Encoders, used to build programs.
pub mod enc {
    pub fn r(f7: u32, f3: u32, rd: u32, rs1: u32, rs2: u32) -> u32 { (f7 << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | 0x33 }
    pub fn i(op: u32, f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 { ((imm as u32 & 0xfff) << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op }
    pub fn s(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
        let m = imm as u32;
        ((m >> 5 & 0x7f) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((m & 0x1f) << 7) | 0x23
    }
    pub fn b(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
        let m = imm as u32;
        ((m >> 12 & 1) << 31) | ((m >> 5 & 0x3f) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((m >> 1 & 0xf) << 8) | ((m >> 11 & 1) << 7) | 0x63
    }
    pub fn u(op: u32, rd: u32, imm: u32) -> u32 { (imm & 0xFFFF_F000) | (rd << 7) | op }
    pub fn j(rd: u32, imm: i32) -> u32 {
        let m = imm as u32;
        ((m >> 20 & 1) << 31) | ((m >> 1 & 0x3ff) << 21) | ((m >> 11 & 1) << 20) | ((m >> 12 & 0xff) << 12) | (rd << 7) | 0x6f
    }
    pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 { i(0x13, 0, rd, rs1, imm) }
    pub const ECALL: u32 = 0x73;
}
