//! S02: the row tables of the processor accept nothing but what the instruction does.
use std::collections::BTreeMap;

use mc::{guard, Ctx};
use mozak_circuits::stark::mozak_stark::TableKind;
use mozak_runner::vm::step;
use plonky2::field::types::{Field, Field64, PrimeField64};
use serde_json::json;

use crate::adv::*;
use crate::bridge::Setup;
use crate::honest::{li, program};
use crate::refvm::enc::*;
use crate::sys::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role { Range, Byte, Xor, Shift, Program, Register, Skeleton, Bytes, Half, Full, Storage, Sponge, Other }
/// What a lookup is for, by the tables that take part.
pub fn role(ends: &[mozak_circuits::verif::End]) -> Role {
    use TableKind as K;
    let has = |k: K| ends.iter().any(|e| e.kind as usize == k as usize);
    let cpu = has(K::Cpu);
    if has(K::CpuSkeleton) { Role::Skeleton }
    else if has(K::RegisterInit) { Role::Register }
    else if has(K::RangeCheckU8) { Role::Byte }
    else if has(K::Xor) { Role::Xor }
    else if has(K::Bitshift) { Role::Shift }
    else if has(K::ProgramMult) && cpu { Role::Program }
    else if cpu && has(K::RangeCheck) { Role::Range }
    else if cpu && has(K::Memory) { Role::Bytes }
    else if cpu && has(K::HalfWordMemory) { Role::Half }
    else if cpu && has(K::FullWordMemory) { Role::Full }
    else if cpu && has(K::StorageDevicePublic) { Role::Storage }
    else if cpu && has(K::Poseidon2Sponge) { Role::Sponge }
    else { Role::Other }
}

pub fn u(x: F) -> u64 { x.to_canonical_u64() }
pub fn is32(x: F) -> bool { u(x) < 1 << 32 }

pub struct Honest<'a> { pub roles: &'a [Role], pub regs: [u32; 32], pub msgs: Vec<Msg>, effects: BTreeMap<(usize, Vec<u64>), F> }
impl Honest<'_> {
    fn of(&self, r: Role) -> impl Iterator<Item = &Msg> { self.msgs.iter().filter(move |m| self.roles[m.bus] == r) }
    pub fn clk(&self) -> F { self.of(Role::Skeleton).next().unwrap().t[0] }
    fn effects_of(roles: &[Role], msgs: &[Msg]) -> Option<BTreeMap<(usize, Vec<u64>), F>> {
        let mut e: BTreeMap<(usize, Vec<u64>), F> = BTreeMap::new();
        for m in msgs {
            let t: Vec<u64> = m.t.iter().map(|x| u(*x)).collect();
            let t = match roles[m.bus] {
                Role::Range | Role::Byte | Role::Xor | Role::Shift | Role::Program => continue,
                Role::Register if t[1] == 1 => continue,
                Role::Register if t[1] == 2 && t[2] == 0 => continue,
                Role::Storage => t[..2].to_vec(),
                _ => t,
            };
            *e.entry((m.bus, t)).or_insert(F::ZERO) += m.f;
        }
        e.retain(|_, f| *f != F::ZERO);
        if e.is_empty() { return Some(e); }
        let k = e.iter().find(|((b, _), _)| roles[*b] == Role::Skeleton).map(|(_, f)| f.inverse())?;
        for f in e.values_mut() { *f *= k; }
        Some(e)
    }
    pub fn new(roles: &[Role], regs: [u32; 32], msgs: Vec<Msg>) -> Honest<'_> {
        let effects = Honest::effects_of(roles, &msgs).unwrap();
        Honest { roles, regs, msgs, effects }
    }
}
impl Rules for Honest<'_> {
    fn ok(&self, m: &Msg) -> bool {
        let t = &m.t;
        match self.roles[m.bus] {
            Role::Range => is32(t[0]),
            Role::Byte => u(t[0]) < 256,
            Role::Xor => t.iter().all(|x| is32(*x)) && u(t[0]) ^ u(t[1]) == u(t[2]),
            Role::Shift => u(t[0]) < 32 && u(t[1]) == 1 << u(t[0]),
            Role::Program => self.of(Role::Program).any(|h| h.t == *t),
            Role::Register => t[0] == self.clk() && u(t[2]) < 32 && match u(t[1]) { 1 => u(t[3]) == u64::from(self.regs[u(t[2]) as usize]), 2 => true, _ => false },
            Role::Skeleton => { let h = self.of(Role::Skeleton).next().unwrap(); t[..2] == h.t[..2] && is32(t[2]) && u(t[2]) % 4 == 0 }
            // a load from where the honest one loads has to deliver what is there
            r @ (Role::Bytes | Role::Half | Role::Full) => t[0] == self.clk() && is32(t[3]) && is32(t[4]) && match self.of(r).next() { Some(h) if u(t[2]) == 1 && t[..4] == h.t[..4] => t[4] == h.t[4], _ => true },
            Role::Storage => t[1] == self.clk() || t[0] == self.clk(),
            Role::Sponge => t[0] == self.clk(),
            Role::Other => false,
        }
    }
    fn wants(&self, m: &Msg) -> Vec<(usize, F)> {
        let t = &m.t;
        let honest = |r: Role| self.of(r).flat_map(|h| h.t.iter().copied().enumerate().collect::<Vec<_>>()).collect::<Vec<_>>();
        match self.roles[m.bus] {
            Role::Range => { let p = 1u64 << 32; [t[0] + f(p), t[0] - f(p), t[0] + f(p / 2), t[0] - f(p / 2), F::ZERO, F::ONE, f(p / 2), f(p - 1)].into_iter().filter(|x| is32(*x)).map(|x| (0, x)).collect() }
            Role::Byte => vec![(0, F::ZERO), (0, F::ONE), (0, f(255))],
            Role::Xor => (0..3).filter_map(|i| { let (a, b) = (t[(i + 1) % 3], t[(i + 2) % 3]); (is32(a) && is32(b)).then(|| (i, f(u(a) ^ u(b)))) }).collect(),
            Role::Shift => { let mut o = vec![]; if u(t[0]) < 32 { o.push((1, f(1 << u(t[0])))); } if is32(t[1]) && u(t[1]).is_power_of_two() { o.push((0, f(u64::from(u(t[1]).trailing_zeros())))); } o }
            Role::Program => honest(Role::Program),
            Role::Register => {
                let mut o = vec![];
                if u(t[2]) < 32 && u(t[1]) == 1 { o.push((3, F::from_canonical_u32(self.regs[u(t[2]) as usize]))); }
                for (i, v) in self.regs.iter().enumerate() { if u64::from(*v) == u(t[3]) || u(t[1]) == 2 { o.push((2, F::from_canonical_usize(i))); } }
                o
            }
            r @ (Role::Skeleton | Role::Bytes | Role::Half | Role::Full | Role::Storage | Role::Sponge) => honest(r),
            Role::Other => vec![],
        }
    }
    fn judge(&self, _s: &[F], msgs: &[Msg]) -> Option<String> {
        match Honest::effects_of(self.roles, msgs) {
            None => Some("effects without an instruction".into()),
            Some(e) if e.is_empty() => None,
            Some(e) if e == self.effects => None,
            Some(e) => {
                let show = |e: &BTreeMap<(usize, Vec<u64>), F>, o: &BTreeMap<(usize, Vec<u64>), F>| e.iter().filter(|(k, v)| o.get(*k) != Some(*v)).map(|((b, t), f)| format!("{:?}{t:?}x{}", self.roles[*b], f)).collect::<Vec<_>>().join(" ");
                Some(format!("accepted {} instead of {}", show(&e, &self.effects), show(&self.effects, &e)))
            }
        }
    }
}

pub struct RowCase { pub name: String, pub kind: TableKind, pub cells: Vec<F>, pub regs: [u32; 32], pub class: String, pub operands: String, pub first: bool }
impl RowCase {
    fn pc(&self) -> &str { self.name.split("@").nth(1).unwrap() }
    /// the same instruction with other operands, or another with the same ones
    fn akin(&self, o: &RowCase) -> bool { self.kind as usize == o.kind as usize && self.name != o.name && if self.class == o.class { self.regs[5] == o.regs[5] || self.regs[6] == o.regs[6] } else { self.operands == o.operands } }
}

/// The honest rows of one program, of the processor's row tables.
pub fn rows_of(sys: &Sys, name: &str, s: &Setup, only: &[u32]) -> Vec<RowCase> {
    let p = s.program();
    let rec = guard(|| step(&p, s.state(&p))).unwrap().unwrap();
    let t = guard(|| sys.traces(&p, &rec)).unwrap();
    let roles: Vec<Role> = sys.buses.iter().map(|b| role(b)).collect();
    let mut out = vec![];
    for (b, ends) in sys.buses.iter().enumerate() {
        if roles[b] != Role::Skeleton { continue; }
        for e in ends {
            if e.kind as usize == TableKind::CpuSkeleton as usize { continue; }
            for row in &t[e.kind as usize] {
                if e.filter.eval(row, row) != F::ONE { continue; }
                let clk = u(e.columns[0].eval(row, row)) as usize;
                let st = &rec.executed[clk - 2].state;
                let pc = st.get_pc();
                if !only.contains(&pc) { continue; }
                let (_, word) = s.code.iter().find(|c| c.0 == pc).unwrap();
                out.push(RowCase { name: format!("{name}@{pc:#x}:{word:#010x}"), operands: name.into(), first: !name.contains(':') || name.ends_with(":0x7:0x3") || name.starts_with("jump") || name.starts_with("far"), class: class(*word), kind: e.kind, cells: row.clone(), regs: std::array::from_fn(|i| st.get_register_value(i as u8)) });
            }
        }
    }
    out
}
fn class(w: u32) -> String {
    let (op, f3, f7) = (w & 0x7F, w >> 12 & 7, w >> 25);
    let f7 = if op == 0x33 || op == 0x13 && (f3 == 1 || f3 == 5) { f7 } else { 0 };
    let n = match (op, f3, f7) {
        (0x33, 0, 0) => "add", (0x33, 0, 32) => "sub", (0x33, 1, 0) => "sll", (0x33, 2, 0) => "slt", (0x33, 3, 0) => "sltu", (0x33, 4, 0) => "xor", (0x33, 5, 0) => "srl", (0x33, 5, 32) => "sra", (0x33, 6, 0) => "or", (0x33, 7, 0) => "and",
        (0x33, 0, 1) => "mul", (0x33, 1, 1) => "mulh", (0x33, 2, 1) => "mulhsu", (0x33, 3, 1) => "mulhu", (0x33, 4, 1) => "div", (0x33, 5, 1) => "divu", (0x33, 6, 1) => "rem", (0x33, 7, 1) => "remu",
        (0x13, 0, _) => "addi", (0x13, 1, _) => "slli", (0x13, 2, _) => "slti", (0x13, 3, _) => "sltiu", (0x13, 4, _) => "xori", (0x13, 5, 0) => "srli", (0x13, 5, _) => "srai", (0x13, 6, _) => "ori", (0x13, 7, _) => "andi",
        (0x03, 0, _) => "lb", (0x03, 1, _) => "lh", (0x03, 2, _) => "lw", (0x03, 4, _) => "lbu", (0x03, 5, _) => "lhu", (0x23, 0, _) => "sb", (0x23, 1, _) => "sh", (0x23, 2, _) => "sw",
        (0x63, 0, _) => "beq", (0x63, 1, _) => "bne", (0x63, 4, _) => "blt", (0x63, 5, _) => "bge", (0x63, 6, _) => "bltu", (0x63, 7, _) => "bgeu",
        (0x37, ..) => "lui", (0x17, ..) => "auipc", (0x6F, ..) => "jal", (0x67, ..) => "jalr", (0x73, ..) => "ecall", _ => "other",
    };
    n.into()
}

pub fn operand_pairs(quick: bool) -> Vec<(u32, u32)> {
    let mut v = vec![(7, 3), (1, 3), (0xFFFF_FFF9, 3), (0x8000_0000, 0xFFFF_FFFF), (7, 0), (0xFFFF_FFFF, 0xFFFF_FFFE), (33, 0x8000_0001), (3, 3)];
    if !quick {
        v.extend([(0, 0), (1, 0), (1, 1), (7, 0xFFFF_FFFD), (0x8000_0000, 1), (0x8000_0000, 0x8000_0000), (0x7FFF_FFFF, 0x8000_0000), (0x7FFF_FFFF, 2), (0x1234_5678, 0x9ABC_DEF0), (0xFFFF_FFFF, 0xFFFF_FFFF), (1, 0xFFFF_FFFF), (2, 31), (3, 7)]);
    }
    v
}

/// Programs with the addresses of the instructions of interest.
pub fn cases(quick: bool) -> Vec<(String, Setup, Vec<u32>)> {
    let mut out = vec![];
    let at = |w: &[u32], k: usize| { let _ = w; 0x200 + 4 * k as u32 };
    for (x, y) in operand_pairs(quick) {
        let regs = vec![(5u8, x), (6, y), (7, 0x55AA_1234), (8, 0x400), (9, x ^ y)];
        let mut w = vec![];
        for (f7, f3) in [(0u32, 0u32), (32, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (32, 5), (0, 6), (0, 7), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)] { w.push(r(f7, f3, 30, 5, 6)); }
        for f3 in [0, 2, 3, 4, 6, 7] { w.push(i(0x13, f3, 30, 5, (y as i32) << 20 >> 20)); }
        for (f3, hi) in [(1, 0), (5, 0), (5, 0x400)] { w.push(i(0x13, f3, 30, 5, (y & 31) as i32 | hi)); }
        w.push(u_(0x37, x)); w.push(u_(0x17, y));
        let pcs = (0..w.len()).map(|k| at(&w, k)).collect();
        out.push((format!("alu:{x:#x}:{y:#x}"), program(&w, regs.clone()), pcs));
        // loads and stores
        let mut w = li(4, x).to_vec();
        let first = w.len();
        for f3 in 0..3 { w.push(s(f3, 8, 5, 8)); w.push(s(f3, 8, 6, 12)); }
        for f3 in [0, 1, 2, 4, 5] { w.push(i(3, f3, 30, 8, 8)); w.push(i(3, f3, 30, 8, -3)); }
        let pcs = (first..w.len()).map(|k| at(&w, k)).collect();
        let mut p = program(&w, regs.clone());
        p.rw = (0..8).map(|k| (0x3FA + k, 0xF1 ^ (k as u8 * 21))).collect();
        out.push((format!("mem:{x:#x}:{y:#x}"), p, pcs));
        // branches, not falling through to anything different
        let mut w = vec![];
        for f3 in [0, 1, 4, 5, 6, 7] { w.push(b(f3, 5, 6, 8)); w.push(addi(0, 0, 0)); }
        let pcs = (0..w.len()).step_by(2).map(|k| at(&w, k)).collect();
        out.push((format!("branch:{x:#x}:{y:#x}"), program(&w, regs.clone()), pcs));
    }
    for (base, m) in [(0x210u32, 0i32), (0x211, 0), (0x20F, 1), (0x214, -4), (0x215, -4)] {
        let mut p = program(&[addi(0, 0, 0), i(0x67, 0, 1, 5, m), ECALL, ECALL, addi(0, 0, 0), j(1, 8), ECALL], vec![(5, base), (6, 3)]);
        p.entry = 0x200;
        out.push((format!("jump:{base:#x}:{m}"), p, vec![0x204, 0x214]));
    }
    // wrapping jumps
    let e = 0xFFFF_FF00u32;
    for (base, m) in [(0x8000_0100u32, 0x100i32), (0xFFFF_FFF0, 0x110), (0xFFFF_FFF1, 0x110)] {
        let t = base.wrapping_add(m as u32) & !1;
        out.push((format!("far:{base:#x}"), Setup { entry: e, code: vec![(e, i(0x67, 0, 1, 5, m)), (t, addi(10, 0, 0)), (t.wrapping_add(4), ECALL)], regs: vec![(5, base)], ..Default::default() }, vec![e]));
    }
    let mut w = vec![];
    let mut pcs = vec![];
    for id in [2, 3, 4, 5, 6, 7, 8, 9] {
        let len = if id == 6 || id == 7 || id == 9 { 32 } else { 8 };
        w.extend([addi(10, 0, id), addi(11, 0, 0x400), addi(12, 0, len), addi(13, 0, 0x440), ECALL]);
        pcs.push(0x200 + 4 * (w.len() as u32 - 1));
    }
    pcs.push(0x200 + 4 * (w.len() as u32 + 1));
    let mut p = program(&w, vec![]);
    p.tapes = std::array::from_fn(|k| vec![k as u8 + 1; 9]);
    p.fixed = [[1; 32], [2; 32], [3; 32]];
    out.push(("ecalls".into(), p, pcs));
    out
}
fn u_(op: u32, v: u32) -> u32 { crate::refvm::enc::u(op, 30, v) }

/// Values worth claiming: results other instructions would have had, and edge values.
pub fn values(h: &RowCase, quick: bool) -> Vec<F> {
    let (a, b) = (h.regs[5], h.regs[6]);
    if quick { return [0, 1, 2, 255, 1 << 31, (1 << 32) - 1, 0xFFFF_FF00, u64::from(a ^ b), u64::from(a), u64::from(b)].into_iter().map(f).chain([F::TWO.inverse()]).collect(); }
    let (sa, sb) = (a as i32, b as i32);
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 8, 31, 32, 255, 256, 0xFFFF, 0x1_0000, 1 << 30, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 0xFFFF_FF00, 0xFFFF_0000, 0xFFFF_FF80];
    for x in [a, b, a.wrapping_add(b), a.wrapping_sub(b), b.wrapping_sub(a), a.wrapping_mul(b), (u64::from(a) * u64::from(b) >> 32) as u32, (i64::from(sa) * i64::from(sb) >> 32) as u32, (i64::from(sa) * i64::from(b) >> 32) as u32, a ^ b, a & b, a | b, a << (b & 31), a >> (b & 31), (sa >> (b & 31)) as u32,
        a.checked_div(b).unwrap_or(0), a.checked_rem(b).unwrap_or(0), sa.checked_div(sb).unwrap_or(0) as u32, sa.checked_rem(sb).unwrap_or(0) as u32, !a, !b, a.wrapping_neg(), b.wrapping_neg()] { v.push(x.into()); }
    let mut o: Vec<F> = v.into_iter().map(F::from_canonical_u64).collect();
    o.extend([F::NEG_ONE, F::TWO.inverse(), -f(2), -f(1 << 32), f(3).inverse()]);
    o.sort_by_key(|x| u(*x)); o.dedup();
    o
}

/// Cells of one row that occur in a constraint or lookup.
fn tampers(row: &RowCase, quick: bool, cells: impl Iterator<Item = usize>) -> Vec<(usize, F)> {
    let vals = values(row, quick);
    let mut o = vec![];
    for c in cells {
        let mut vs = vals.clone();
        for d in [F::ONE, F::NEG_ONE, f(1 << 32), -f(1 << 32), f(4)] { vs.push(row.cells[c] + d); }
        vs.sort_by_key(|x| u(*x)); vs.dedup();
        for v in vs { if v != row.cells[c] { o.push((c, v)); } }
    }
    o
}
/// Honest rows of other instructions or operands dressed up as this one: cells that take
/// part in some of the lookups are this row's, the others are the other row's.
fn splices(sys: &Rows, roles: &[Role], row: &RowCase, other: &RowCase) -> Vec<Vec<(usize, F)>> {
    let w = row.cells.len();
    let of = |pick: &dyn Fn(&Port) -> Vec<u32>| { let mut m = vec![false; w]; for p in &sys.ports { for v in pick(p) { m[v as usize] = true; } } m };
    let context = of(&|p| if roles[p.bus] == Role::Skeleton { p.column_vars(0).into_iter().chain(p.column_vars(1)).collect() } else { vec![] });
    let program = of(&|p| if roles[p.bus] == Role::Program { p.vars().to_vec() } else { vec![] });
    let reads = of(&|p| if roles[p.bus] == Role::Register && p.column(1) == Some(F::ONE) { p.vars().to_vec() } else { vec![] });
    let effects = of(&|p| match roles[p.bus] { Role::Register if p.column(1) == Some(F::TWO) => p.column_vars(3), Role::Skeleton => p.column_vars(2), Role::Bytes | Role::Half | Role::Full | Role::Storage | Role::Sponge => p.vars().to_vec(), _ => vec![] });
    let mut out: Vec<Vec<(usize, F)>> = vec![];
    for k in 0..8u32 {
        let keep = |c: usize| context[c] || k & 1 != 0 && program[c] || k & 2 != 0 && reads[c] || k & 4 != 0 && effects[c];
        let t: Vec<(usize, F)> = (0..w).filter(|c| !keep(*c) && row.cells[*c] != other.cells[*c]).map(|c| (c, other.cells[c])).collect();
        if !t.is_empty() && !out.contains(&t) { out.push(t); }
    }
    out
}
pub struct Space { sys: Sys, roles: Vec<Role>, rows: Vec<RowCase>, systems: Vec<(TableKind, Rows, Rows)> }
impl Space {
    fn new(ctx: &Ctx) -> Space {
        let sys = Sys::new();
        let roles: Vec<Role> = sys.buses.iter().map(|b| role(b)).collect();
        let widths = mozak_circuits::verif::widths(&sys.stark);
        let progs = cases(ctx.quick());
        let rows = std::sync::Mutex::new(vec![]);
        ctx.par("rows", progs.len(), |n, _| { let (name, s, pcs) = &progs[n]; let r = rows_of(&sys, name, s, pcs); rows.lock().unwrap().extend(r); });
        let mut rows = rows.into_inner().unwrap();
        rows.sort_by(|a, b| a.name.cmp(&b.name));
        let kinds: Vec<TableKind> = sys.kinds.iter().copied().filter(|k| rows.iter().any(|r| r.kind as usize == *k as usize)).collect();
        let systems = kinds.iter().map(|k| (*k, Rows::new(&sys, *k, widths[*k as usize], 1, Where::Inside, &[]), Rows::new(&sys, *k, widths[*k as usize], 1, Where::Last, &[]))).collect();
        Space { sys, roles, rows, systems }
    }
    fn of(&self, k: TableKind) -> &(TableKind, Rows, Rows) { self.systems.iter().find(|s| s.0 as usize == k as usize).unwrap() }
}

/// Which of the constraints and lookups, if left out, would the search notice?
pub fn mutants(ctx: &Ctx) {
    let sp = Space::new(ctx);
    let mut jobs: Vec<(usize, Option<usize>, Option<(usize, usize)>)> = vec![];
    for (i, (_, r, _)) in sp.systems.iter().enumerate() {
        for p in r.poly_ids() { jobs.push((i, Some(p), None)); }
        for p in &r.ports { jobs.push((i, None, Some((p.bus, p.end)))); }
    }
    let out = std::sync::Mutex::new(vec![]);
    ctx.par("mutants", jobs.len(), |n, l| {
        let (i, p, q) = jobs[n];
        let (k, r, _) = &sp.systems[i];
        let vars: Vec<usize> = match (p, q) { (Some(p), _) => r.vars_of_poly(p), (_, Some(q)) => r.ports.iter().find(|x| (x.bus, x.end) == q).unwrap().vars().to_vec(), _ => vec![] }.into_iter().map(|v| v as usize).collect();
        let mut found = None;
        'all: for row in sp.rows.iter().filter(|x| x.kind as usize == *k as usize && (x.first || [":0x7:0x3", ":0xfffffff9:0x3", ":0x80000000:", ":0x21:"].iter().any(|o| x.operands.contains(o)))) {
            let h = Honest::new(&sp.roles, row.regs, r.msgs(&row.cells));
            let mut s = Search::new(r, &h);
            s.cap = 100; s.no_poly = p; s.no_port = q;
            let sp2 = sp.rows.iter().filter(|o| row.akin(o)).flat_map(|o| splices(r, &sp.roles, row, o));
            for t in sp2.chain(tampers(row, ctx.quick(), vars.iter().copied()).into_iter().map(|t| vec![t])) {
                if let Some((why, got)) = s.run(&row.cells, &t, 6) {
                    let changed: Vec<_> = (0..got.len()).filter(|i| got[*i] != row.cells[*i]).collect();
                    found = Some((row.name.clone(), changed, why)); break 'all;
                }
            }
        }
        l.add("mutants", 1);
        l.add(if found.is_some() { "mutants_noticed" } else { "mutants_unnoticed" }, 1);
        out.lock().unwrap().push((format!("{k:?}"), p, q, vars, found));
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| (x.0.clone(), x.1, x.2));
    for x in o { println!("MUT {x:?}"); }
}

pub fn s02(ctx: &Ctx) {
    let sp = Space::new(ctx);
    let depth = ctx.pick(6, 8);
    let cap = ctx.pick(100, 250);
    ctx.par("search", sp.rows.len(), |n, l| {
        let row = &sp.rows[n];
        let (_, inside, last) = sp.of(row.kind);
        let h = Honest::new(&sp.roles, row.regs, inside.msgs(&row.cells));
        for (w, sysr) in [("", inside), (" in the last row", last)] {
            let mut s = Search::new(sysr, &h);
            s.cap = cap;
            if let Err(e) = s.holds(&row.cells) { ctx.violation(format!("honest:{}", row.name), json!({"row": row.name, "fails": e})); continue; }
            let mut bad: BTreeMap<String, serde_json::Value> = BTreeMap::new();
            if ctx.quick() && !w.is_empty() && !row.first { continue; }
            let other = sp.rows.iter().filter(|o| row.akin(o)).flat_map(|o| splices(sysr, &sp.roles, row, o));
            for t in other.chain(tampers(row, ctx.quick() || !row.first, 0..row.cells.len()).into_iter().map(|t| vec![t])) {
                l.add("tampered_rows", 1);
                if let Some((why, got)) = s.run(&row.cells, &t, depth) {
                    let changed: Vec<usize> = (0..got.len()).filter(|i| got[*i] != row.cells[*i]).collect();
                    bad.entry(format!("{changed:?}")).or_insert_with(|| json!({"row": row.name, "why": why, "cells": changed.iter().map(|i| json!([i, u(row.cells[*i]), u(got[*i])])).collect::<Vec<_>>()}));
                }
            }
            l.add("states", s.stats.states); l.add("transitions", s.stats.steps); l.add("accepted_rows", s.stats.accepted); l.add("capped", s.stats.capped);
            l.outcome(format!("{:?}:{}", row.kind, row.class));
            // the same instruction in the other table that knows it
            for o in sp.rows.iter().filter(|o| o.kind as usize != row.kind as usize && o.class == row.class && o.pc() == row.pc()) {
                let (_, inside, last) = sp.of(o.kind);
                let mut s = Search::new(if w.is_empty() { inside } else { last }, &h);
                s.cap = 10 * cap;
                l.add("tampered_rows", 1);
                if let Some((why, got)) = s.run_from(&o.cells, depth) {
                    bad.entry(format!("as {:?}", o.kind)).or_insert_with(|| json!({"row": row.name, "as": o.name, "why": why, "cells": got.iter().map(|x| u(*x)).collect::<Vec<_>>()}));
                }
                l.add("states", s.stats.states); l.add("transitions", s.stats.steps); l.add("accepted_rows", s.stats.accepted); l.add("capped", s.stats.capped);
            }
            for (k, d) in bad { ctx.violation(format!("{:?} {}{w} {k}", row.kind, row.class), d); }
        }
    });
    conformance(ctx, &sp);
}

/// The polynomials that were searched over evaluate as the tables' own code does.
pub fn conformance(ctx: &Ctx, sp: &Space) {
    let sys = &sp.sys;
    let widths = mozak_circuits::verif::widths(&sys.stark);
    ctx.par("conformance", sys.kinds.len(), |n, l| {
        let k = sys.kinds[n];
        let w = widths[k as usize];
        let ps = mozak_circuits::verif::polys(&sys.stark, k);
        let mut base: Vec<Vec<F>> = sp.rows.iter().filter(|r| r.kind as usize == k as usize).step_by(if ctx.quick() { 40 } else { 5 }).map(|r| r.cells.clone()).collect();
        base.push((0..w as u64).map(|i| f(i * i + 3)).collect());
        base.push(vec![F::ZERO; w]);
        let npi = sys.pis[k as usize];
        let pis = vec![f(mozak_circuits::verif::PUBLIC_MARK); npi];
        for (bi, row) in base.iter().enumerate() {
            let other = &base[(bi + 1) % base.len()];
            for c in 0..=w {
                let mut lv = row.clone();
                if c < w { lv[c] += f(0x1234_5678_9ABC); }
                for (lv, nv) in [(&lv, other), (other, &lv)] {
                    for (first, last) in [(false, false), (true, false), (false, true), (true, true)] {
                        let got = mozak_circuits::verif::eval(&sys.stark, k, lv, nv, &pis, first, last);
                        let sel = [F::from_bool(!last), F::from_bool(first), F::from_bool(last)];
                        for (i, p) in ps.iter().enumerate() {
                            let v = p.terms.iter().fold(F::ZERO, |a, (m, c)| a + m.iter().fold(*c, |x, v| { let v = *v as usize; x * if v < w { lv[v] } else if v < 2 * w { nv[v - w] } else { sel[v - 2 * w - npi] } }));
                            if got.get(i) != Some(&v) { ctx.violation(format!("conformance:{k:?}"), json!({"constraint": i, "polynomial": u(v), "table": got.get(i).map(|x| u(*x)), "row": bi, "cell": c})); return; }
                        }
                        if got.len() != ps.len() { ctx.violation(format!("conformance:{k:?}"), json!({"constraints": got.len(), "polynomials": ps.len()})); return; }
                        l.add("traces_validated_against_impl", 1);
                    }
                }
            }
        }
    });
}
