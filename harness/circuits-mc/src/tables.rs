//! S03: every table other than the processor's keeps the contract the processor relies on.
use std::collections::BTreeMap;

use mc::{guard, Ctx};
use mozak_circuits::stark::mozak_stark::TableKind;
use mozak_runner::vm::step;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::Poseidon2Permutation;
use serde_json::json;

use crate::adv::*;
use crate::bridge::Setup;
use crate::honest::{li, program};
use crate::refvm::enc::*;
use crate::rows::{is32, u};
use crate::sys::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bus { Range, Byte, Xor, Shift, Program, Rom, Memory, Init, Half, Full, Register, Storage, Sponge, Permutation, Digest, Skeleton, Tape }
pub fn bus_of(ends: &[mozak_circuits::verif::End]) -> Bus {
    use TableKind as K;
    let has = |k: K| ends.iter().any(|e| e.kind as usize == k as usize);
    if has(K::CpuSkeleton) { Bus::Skeleton }
    else if has(K::TapeCommitments) { Bus::Tape }
    else if has(K::RegisterInit) { Bus::Register }
    else if has(K::RangeCheckU8) { Bus::Byte }
    else if has(K::RangeCheck) { Bus::Range }
    else if has(K::Xor) { Bus::Xor }
    else if has(K::Bitshift) { Bus::Shift }
    else if has(K::ProgramMult) && has(K::Program) { Bus::Rom }
    else if has(K::ProgramMult) { Bus::Program }
    else if has(K::ElfMemoryInit) { Bus::Init }
    else if has(K::Memory) { Bus::Memory }
    else if has(K::HalfWordMemory) { Bus::Half }
    else if has(K::FullWordMemory) { Bus::Full }
    else if has(K::StorageDevicePublic) { Bus::Storage }
    else if has(K::Poseidon2) { Bus::Permutation }
    else if has(K::Poseidon2OutputBytes) { Bus::Digest }
    else { Bus::Sponge }
}
pub fn permute(x: &[F]) -> Vec<F> {
    let mut p = Poseidon2Permutation::<F>::new(x.iter().copied());
    p.permute();
    p.as_ref().to_vec()
}

pub struct Contract<'a> { pub kind: TableKind, pub buses: &'a [Bus], pub signs: Vec<F>, pub entry: F }
type Events = BTreeMap<Bus, Vec<(usize, Vec<F>)>>;
impl Contract<'_> {
    fn is(&self, k: TableKind) -> bool { self.kind as usize == k as usize }
    /// Messages by bus, each as often as it counts; multiplicities that stand for no number of messages are an error.
    fn events(&self, msgs: &[Msg]) -> Result<Events, String> {
        let mut m: BTreeMap<(usize, Vec<u64>), F> = BTreeMap::new();
        for x in msgs { *m.entry((x.bus, x.t.iter().map(|x| u(*x)).collect())).or_insert(F::ZERO) += x.f * self.signs[x.bus]; }
        let mut e = Events::new();
        for ((b, t), f) in m {
            if f == F::ZERO { continue; }
            let t: Vec<F> = t.into_iter().map(F::from_canonical_u64).collect();
            let n = match self.buses[b] {
                // tables that answer any number of times
                Bus::Range | Bus::Byte => 1,
                Bus::Shift | Bus::Xor | Bus::Program | Bus::Tape if self.answers() => 1,
                Bus::Register if self.is(TableKind::RegisterZeroRead) || self.is(TableKind::RegisterZeroWrite) => 1,
                _ if u(f) <= 1 << 20 => u(f) as usize,
                _ => return Err(format!("{:?} {t:?} counted {f} times", self.buses[b])),
            };
            e.entry(self.buses[b]).or_default().push((n, t));
        }
        Ok(e)
    }
    fn answers(&self) -> bool { [TableKind::Bitshift, TableKind::Xor, TableKind::ProgramMult, TableKind::TapeCommitments].iter().any(|k| self.is(*k)) }
    fn storage(&self) -> bool { use TableKind as K; [K::StorageDevicePrivate, K::StorageDevicePublic, K::CallTape, K::EventTape, K::EventsCommitmentTape, K::CastListCommitmentTape, K::SelfProgIdTape].iter().any(|k| self.is(*k)) }
    fn check(&self, e: &Events) -> Result<(), String> {
        use TableKind as K;
        let of = |b: Bus| e.get(&b).map_or(&[][..], |v| &v[..]);
        let one = |b: Bus| -> Result<Vec<&Vec<F>>, String> { of(b).iter().map(|(n, t)| if *n == 1 { Ok(t) } else { Err(format!("{b:?} {t:?} {n} times")) }).collect() };
        let word = |x: u64| x & 0xFFFF_FFFF;
        if self.storage() {
            let req: Vec<Vec<u64>> = of(Bus::Storage).iter().map(|(_, t)| t.iter().map(|x| u(*x)).collect()).collect();
            let mut clks: Vec<u64> = req.iter().map(|t| t[1]).collect();
            clks.sort_unstable();
            // the processor asks at most once per cycle
            if of(Bus::Storage).iter().any(|(n, _)| *n > 1) { return Ok(()); }
            if clks.windows(2).any(|w| w[0] == w[1]) { return Ok(()); }
            let mem: BTreeMap<(u64, u64), u64> = one(Bus::Memory)?.iter().map(|t| ((u(t[0]), u(t[3])), u(t[4]))).collect();
            let want: std::collections::BTreeSet<(u64, u64)> = req.iter().flat_map(|t| (0..t[3].min(64)).map(move |i| (t[1], word(t[2] + i)))).collect();
            if req.iter().any(|t| t[3] > 64) { return Err(format!("requests {req:?} answered by {} stores", mem.len())); }
            if mem.keys().copied().collect::<std::collections::BTreeSet<_>>() != want { return Err(format!("stores {mem:?} for requests {req:?}")); }
            if one(Bus::Memory)?.len() != want.len() { return Err(format!("stores {mem:?} for requests {req:?}")); }
            let regs: Vec<Vec<u64>> = one(Bus::Register)?.iter().map(|t| t.iter().map(|x| u(*x)).collect()).collect();
            let mut wr: Vec<Vec<u64>> = req.iter().map(|t| vec![t[1], 1, 11, t[2]]).collect();
            wr.sort();
            if regs != wr { return Err(format!("register reads {regs:?} for requests {req:?}")); }
            if self.is(K::EventsCommitmentTape) || self.is(K::CastListCommitmentTape) {
                let mut want: BTreeMap<(u64, u64), usize> = BTreeMap::new();
                for t in &req { for i in 0..t[3] { *want.entry((mem[&(t[1], word(t[2] + i))], u(f(32) - f(t[3]) + f(i)))).or_insert(0) += 1; } }
                let got: BTreeMap<(u64, u64), usize> = of(Bus::Tape).iter().map(|(n, t)| ((u(t[0]), u(t[1])), *n)).collect();
                if want != got { return Err(format!("commitment bytes {got:?} instead of {want:?}")); }
            }
            return Ok(());
        }
        match self.kind {
            K::RangeCheck => for (_, t) in of(Bus::Range) { if !is32(t[0]) { return Err(format!("{} is in range", t[0])); } },
            K::RangeCheckU8 => for (_, t) in of(Bus::Byte) { if u(t[0]) > 255 { return Err(format!("{} is a byte", t[0])); } },
            K::Xor => for (_, t) in of(Bus::Xor) { if !t.iter().all(|x| is32(*x)) || u(t[0]) ^ u(t[1]) != u(t[2]) { return Err(format!("{t:?}")); } },
            K::Bitshift => for (_, t) in of(Bus::Shift) { if u(t[0]) > 31 || u(t[1]) != 1 << u(t[0]) { return Err(format!("{t:?}")); } },
            K::ProgramMult => for (_, t) in of(Bus::Program) { if !of(Bus::Rom).iter().any(|(_, r)| r == t) { return Err(format!("instruction {t:?} is not in the program")); } },
            K::HalfWordMemory | K::FullWordMemory => {
                let (b, n) = if self.is(K::HalfWordMemory) { (Bus::Half, 2) } else { (Bus::Full, 4) };
                let mut want: BTreeMap<Vec<u64>, usize> = BTreeMap::new();
                for (m, t) in of(b) {
                    if !is32(t[3]) || u(t[4]) >> (8 * n) != 0 || u(t[1]) + u(t[2]) != 1 { return Err(format!("request {t:?}")); }
                    for i in 0..n { *want.entry(vec![u(t[0]), u(t[1]), u(t[2]), word(u(t[3]) + i), u(t[4]) >> (8 * i) & 255]).or_insert(0) += m; }
                }
                let got: BTreeMap<Vec<u64>, usize> = of(Bus::Memory).iter().map(|(n, t)| (t.iter().map(|x| u(*x)).collect(), *n)).collect();
                if want != got { return Err(format!("accesses {got:?} for {:?}", of(b))); }
            }
            K::Memory => {
                let mut by: BTreeMap<u64, Vec<(u64, u64, u64)>> = BTreeMap::new(); // addr -> (clk, 0 load 1 store, value)
                for t in of(Bus::Memory).iter().map(|(_, t)| t) {
                    if !is32(t[3]) || u(t[4]) > 255 { return Err(format!("access {t:?}")); }
                    by.entry(u(t[3])).or_default().push((u(t[0]), u(t[1]), u(t[4])));
                }
                let init: Vec<&Vec<F>> = one(Bus::Init)?;
                for t in &init { if init.iter().filter(|o| o[1] == t[1]).count() > 1 { return Err(format!("{} is initialised twice", t[1])); } }
                for (a, mut v) in by {
                    v.sort_unstable();
                    let Some(i) = init.iter().find(|t| u(t[1]) == a) else { return Err(format!("{a:#x} is never initialised")) };
                    // one value is stored per address and cycle
                    if v.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 == 1 && w[1].1 == 1) { continue; }
                    let mut now = u(i[3]);
                    for (clk, store, x) in v {
                        if store == 1 { if i[0] != F::ONE { return Err(format!("a store to {a:#x}, which is read-only")); } now = x; }
                        else if x != now { return Err(format!("a load of {x} at {clk} from {a:#x}, which holds {now}")); }
                    }
                }
            }
            K::Register => {
                let mut by: BTreeMap<u64, Vec<(u64, u64, u64)>> = BTreeMap::new();
                let mut init: BTreeMap<u64, u64> = BTreeMap::new();
                for t in of(Bus::Register).iter().map(|(_, t)| t) {
                    let t: Vec<u64> = t.iter().map(|x| u(*x)).collect();
                    if !(1..32).contains(&t[2]) { return Err(format!("register {}", t[2])); }
                    if t[1] == 0 { if init.insert(t[2], t[3]).is_some_and(|x| x != t[3]) { return Err(format!("x{} is initialised twice", t[2])); } }
                    else { by.entry(t[2]).or_default().push((t[0], t[1], t[3])); }
                }
                for (a, mut v) in by {
                    v.sort_unstable();
                    let Some(mut now) = init.get(&a).copied() else { return Err(format!("x{a} is never initialised")) };
                    if v.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 == 2 && w[1].1 == 2) { continue; }
                    for (clk, op, x) in v { if op == 2 { now = x; } else if x != now { return Err(format!("x{a} reads {x} at {clk} but holds {now}")); } }
                }
            }
            K::RegisterZeroRead => for (_, t) in of(Bus::Register) { if u(t[1]) != 1 || t[2] != F::ZERO || t[3] != F::ZERO { return Err(format!("{t:?}")); } },
            K::RegisterZeroWrite => for (_, t) in of(Bus::Register) { if u(t[1]) != 2 || t[2] != F::ZERO { return Err(format!("{t:?}")); } },
            K::RegisterInit => for (_, t) in of(Bus::Register) { if u(t[0]) != 0 || u(t[1]) != 0 { return Err(format!("{t:?}")); } if t[3] != F::ZERO { return Err("a register starts with a value of the prover's choice".into()); } },
            K::MemoryZeroInit => for (_, t) in of(Bus::Init) { if t[0] != F::ONE || t[2] != F::ZERO || t[3] != F::ZERO { return Err(format!("{t:?}")); } },
            K::ElfMemoryInit => for (_, t) in of(Bus::Init) { if t[2] != F::ONE { return Err(format!("{t:?}")); } },
            K::Poseidon2 => for (_, t) in of(Bus::Permutation) { if permute(&t[..12]) != t[12..] { return Err(format!("the permutation of {:?} is {:?}", &t[..12], &t[12..])); } },
            K::Poseidon2OutputBytes => {
                let req = of(Bus::Digest);
                let mut want: BTreeMap<Vec<u64>, usize> = BTreeMap::new();
                for (n, t) in req { for i in 0..32 { *want.entry(vec![u(t[0]), 1, 0, u(t[1]) + i, u(t[2 + i as usize / 8]) >> (8 * (i % 8)) & 255]).or_insert(0) += n; } }
                let got: BTreeMap<Vec<u64>, usize> = of(Bus::Memory).iter().map(|(n, t)| (t.iter().map(|x| u(*x)).collect(), *n)).collect();
                if want != got { return Err(format!("the digest {req:?} is stored as {got:?}")); }
            }
            K::Poseidon2Sponge => {
                // one request per cycle
                if of(Bus::Sponge).iter().any(|(n, _)| *n > 1) { return Ok(()); }
                let clks = one(Bus::Sponge)?;
                let reg = |clk: F, r: u64| -> Option<F> { of(Bus::Register).iter().find(|(n, t)| *n == 1 && t[0] == clk && t[1] == F::ONE && u(t[2]) == r).map(|(_, t)| t[3]) };
                if of(Bus::Register).len() != 3 * clks.len() { return Err(format!("{} register reads for {} requests", of(Bus::Register).len(), clks.len())); }
                let (mut loads, mut digests) = (0, 0);
                for c in &clks {
                    let clk = c[0];
                    let (Some(a), Some(n), Some(o)) = (reg(clk, 11), reg(clk, 12), reg(clk, 13)) else { return Err(format!("a request at {clk} without its register reads")) };
                    if u(n) > 64 || u(n) % 8 != 0 || u(n) == 0 { return Err(format!("a request of {n} bytes")); }
                    let mut bytes = vec![];
                    for i in 0..u(n) {
                        let v: Vec<F> = of(Bus::Memory).iter().filter(|(k, t)| *k == 1 && t[0] == clk && t[1] == F::ZERO && t[3] == a + f(i)).map(|(_, t)| t[4]).collect();
                        let [v] = v[..] else { return Err(format!("{} loads of byte {i} at {clk}", v.len())) };
                        bytes.push(v);
                        loads += 1;
                    }
                    let mut s = vec![F::ZERO; 12];
                    for b in bytes.chunks(8) { s[..8].copy_from_slice(b); s = permute(&s); }
                    let mut want = vec![clk, o];
                    want.extend(&s[..4]);
                    if !of(Bus::Digest).iter().any(|(k, t)| *k == 1 && *t == want) { return Err(format!("the digest of the request at {clk} is not {want:?} but {:?}", of(Bus::Digest))); }
                    digests += 1;
                }
                if of(Bus::Memory).len() != loads || of(Bus::Digest).len() != digests { return Err(format!("{} loads and {} digests for {} requests", of(Bus::Memory).len(), of(Bus::Digest).len(), clks.len())); }
            }
            K::CpuSkeleton => {
                let mut v: Vec<Vec<u64>> = one(Bus::Skeleton)?.iter().map(|t| t.iter().map(|x| u(*x)).collect()).collect();
                v.sort();
                let mut pc = u(self.entry);
                if v.is_empty() { return Err("nothing is executed".into()); }
                for (i, t) in v.iter().enumerate() {
                    if t[0] != i as u64 + 2 || t[1] != pc { return Err(format!("steps {v:?}")); }
                    if t[3] != u64::from(i + 1 == v.len()) { return Err(format!("steps {v:?}")); }
                    pc = t[2];
                }
            }
            _ => {}
        }
        Ok(())
    }
}
impl Rules for Contract<'_> {
    fn ok(&self, m: &Msg) -> bool {
        use TableKind as K;
        let t = &m.t;
        let cycle = |x: F| (2..1 << 30).contains(&u(x));
        match self.buses[m.bus] {
            Bus::Range => self.is(K::RangeCheck) || is32(t[0]),
            Bus::Byte => self.is(K::RangeCheckU8) || u(t[0]) < 256,
            Bus::Memory => cycle(t[0]) && u(t[1]) < 2 && u(t[1]) + u(t[2]) == 1 && (self.is(K::Memory) || is32(t[3]) && u(t[4]) < 256),
            Bus::Init => !self.is(K::Memory) || t[2] == F::ONE || t[2] == F::ZERO && t[3] == F::ZERO && t[0] == F::ONE,
            Bus::Register => !self.is(K::Register) || if t[1] == F::ZERO { t[0] == F::ZERO } else { cycle(t[0]) && u(t[1]) < 3 },
            Bus::Permutation => self.is(K::Poseidon2) || permute(&t[..12]) == t[12..],
            Bus::Half | Bus::Full => cycle(t[0]),
            _ => true,
        }
    }
    fn wants(&self, m: &Msg) -> Vec<(usize, F)> {
        let t = &m.t;
        match self.buses[m.bus] {
            Bus::Range => { let p = 1u64 << 32; [t[0] + f(p), t[0] - f(p), F::ZERO, F::ONE, f(p - 1)].into_iter().filter(|x| is32(*x)).map(|x| (0, x)).collect() }
            Bus::Byte => [F::ZERO, F::ONE, f(255), t[0] + f(256), t[0] - f(256)].into_iter().filter(|x| u(*x) < 256).map(|x| (0, x)).collect(),
            Bus::Memory => {
                let mut o = vec![(0, f(2)), (0, f(3)), (0, f(9)), (1, F::ONE - t[2]), (2, F::ONE - t[1])];
                if !self.is(TableKind::Memory) { for x in [t[3] + f(1 << 32), t[3] - f(1 << 32)] { if is32(x) { o.push((3, x)); } } o.extend([(4, F::ZERO), (4, f(255))]); }
                o
            }
            Bus::Init => vec![(2, F::ONE), (2, F::ZERO), (3, F::ZERO), (0, F::ONE)],
            Bus::Register => vec![(0, F::ZERO), (0, f(2)), (0, f(9))],
            Bus::Half | Bus::Full => vec![(0, f(2)), (0, f(9))],
            _ => vec![],
        }
    }
    fn judge(&self, _s: &[F], msgs: &[Msg]) -> Option<String> {
        match self.events(msgs) { Err(e) => Some(e), Ok(e) => self.check(&e).err() }
    }
}

/// Programs whose tables are tampered with.
fn programs(quick: bool) -> Vec<(String, Setup)> {
    let mut out: Vec<(String, Setup)> = vec![];
    let call = |id: u32, addr: u32, len: u32| -> Vec<u32> { [li(10, id), li(11, addr), li(12, len)].concat().into_iter().chain([ECALL]).collect() };
    let tapes: [Vec<u8>; 4] = std::array::from_fn(|k| (0..40).map(|i| (i * 37 + 11 * k + 5) as u8).collect());
    let fixed = [std::array::from_fn(|i| i as u8 * 7 + 3), std::array::from_fn(|i| 255 - i as u8), std::array::from_fn(|i| i as u8 ^ 0x5A)];
    let mut io = |name: &str, calls: &[(u32, u32, u32)]| {
        let w: Vec<u32> = calls.iter().flat_map(|c| call(c.0, c.1, c.2)).collect();
        let mut p = program(&w, vec![]);
        p.tapes = tapes.clone(); p.fixed = fixed;
        out.push((format!("io {name}"), p));
    };
    for id in [2u32, 4, 5, 6, 7, 8, 9] {
        io(&format!("{id}: 2"), &[(id, 0x400, 2)]);
        if !quick || id < 3 || id == 6 || id == 7 { io(&format!("{id}: 1 0 1"), &[(id, 0x400, 1), (id, 0x404, 0), (id, 0x404, 1)]); }
        if !quick || id == 2 { io(&format!("{id}: 3 around"), &[(id, 0xFFFF_FFFE, 3)]); io(&format!("{id}: 0 2"), &[(id, 0x300, 0), (id, 0x400, 2)]); io(&format!("{id}: 0"), &[(id, 0x300, 0)]); }
    }
    io("6 7: 32", &[(6, 0x400, 32), (7, 0x500, 32)]);
    let hash = |src: u32, len: u32, dst: u32| [li(10, 3), li(11, src), li(12, len), li(13, dst)].concat().into_iter().chain([ECALL]).collect::<Vec<u32>>();
    for (n, w) in [("8", hash(0x400, 8, 0x500)), ("24", hash(0x400, 24, 0x400)), ("8 16", [hash(0x400, 8, 0x500), hash(0x408, 16, 0x500)].concat()), ("16 8 8", [hash(0x400, 16, 0x480), hash(0x400, 8, 0x500), hash(0x480, 8, 0x500)].concat())] {
        let mut p = program(&w, vec![]);
        p.rw = (0..24).map(|k| (0x400 + k, (k * 29 + 1) as u8)).collect();
        out.push((format!("hash {n}"), p));
    }
    let mut mem = |name: &str, w: &[u32], regs: Vec<(u8, u32)>, rw: Vec<(u32, u8)>, ro: Vec<(u32, u8)>| {
        let mut p = program(w, regs); p.rw = rw; p.ro = ro;
        out.push((format!("memory {name}"), p));
    };
    mem("bytes", &[s(0, 5, 6, 0), i(3, 4, 7, 5, 0), s(0, 5, 7, 0), i(3, 4, 7, 5, 1)], vec![(5, 0x400), (6, 0x81)], vec![(0x401, 9)], vec![(0x402, 1)]);
    mem("read-only", &[i(3, 4, 7, 5, 0), i(3, 4, 8, 5, 1), s(0, 5, 6, 1), i(3, 4, 7, 5, 0)], vec![(5, 0x400), (6, 0x81)], vec![], vec![(0x400, 3)]);
    mem("halves", &[s(1, 5, 6, 0), i(3, 5, 7, 5, 0), i(3, 5, 7, 5, 1), i(3, 1, 7, 5, -1)], vec![(5, 0xFFFF_FFFF), (6, 0x1234_8001)], vec![], vec![]);
    mem("words", &[s(2, 5, 6, 0), i(3, 2, 7, 5, 0), i(3, 2, 7, 5, 1), s(2, 5, 7, 2)], vec![(5, 0xFFFF_FFFD), (6, 0x1234_8001)], vec![], vec![]);
    out.push(("registers".into(), program(&[addi(5, 5, 1), addi(5, 5, 2), r(0, 0, 5, 5, 5), r(0, 0, 6, 5, 31), addi(31, 0, 1), r(0, 0, 0, 31, 0), r(0, 4, 7, 5, 6), r(0, 1, 7, 5, 6), r(0, 4, 7, 7, 6)], vec![(5, 7), (31, 0xFFFF_FFFF)])));
    out.push(("branches".into(), program(&[addi(5, 0, 2), addi(5, 5, -1), b(1, 5, 0, -4), j(1, 4), r(0, 0, 5, 5, 5)], vec![])));
    out.push(("nothing".into(), program(&[], vec![])));
    out
}

/// Values for one cell: near its own, and those of the same column elsewhere.
fn values(rows: &[Vec<F>], i: usize, c: usize) -> Vec<F> {
    let x = rows[i][c];
    let mut v: Vec<F> = vec![F::ZERO, F::ONE, F::NEG_ONE, x + F::ONE, x - F::ONE, x + f(1 << 32), x - f(1 << 32), F::TWO];
    let mut other: Vec<F> = rows.iter().map(|r| r[c]).collect();
    other.sort_by_key(|x| u(*x)); other.dedup();
    let k = other.len();
    v.extend(other.into_iter().step_by(k.div_ceil(8)));
    v.sort_by_key(|x| u(*x)); v.dedup();
    v.retain(|y| *y != x);
    v
}
type Tamper = Vec<(usize, F)>;
/// A row of the permutation table, where one column deviates and those after it follow from it.
fn deviating(input: &[F], exe: F, at: usize, by: F) -> Vec<F> {
    use plonky2::hash::poseidon2::{Poseidon2, ROUND_F_END, ROUND_P};
    let (h, p) = (ROUND_F_END / 2, ROUND_P);
    let (c_first, c_part, c_mid) = (13, 13 + 12 * h, 13 + 12 * h + p);
    let c_second = c_mid + 12;
    let (q_first, q_second) = (c_second + 12 * h, c_second + 24 * h);
    let q_part = q_second + 12 * h;
    let mut row = vec![F::ZERO; q_part + p];
    let mut put = |c: usize, x: F| -> F { let x = if c == at { x + by } else { x }; row[c] = x; x };
    put(0, exe);
    let mut st: [F; 12] = core::array::from_fn(|i| put(1 + i, input[i]));
    F::matmul_external(&mut st);
    let cube = |x: F| x * x * x;
    for r in 0..h {
        F::constant_layer(&mut st, r);
        for i in 0..12 { let q = put(q_first + 12 * r + i, cube(st[i])); st[i] = st[i] * q * q; }
        F::matmul_external(&mut st);
        for i in 0..12 { st[i] = put(c_first + 12 * r + i, st[i]); }
    }
    for r in 0..p {
        st[0] += f(<F as Poseidon2>::RC12_MID[r]);
        let q = put(q_part + r, cube(st[0])); st[0] = st[0] * q * q;
        F::matmul_internal(&mut st, &<F as Poseidon2>::MAT_DIAG12_M_1);
        st[0] = put(c_part + r, st[0]);
    }
    for i in 0..12 { st[i] = put(c_mid + i, st[i]); }
    for r in 0..h {
        F::constant_layer(&mut st, h + r);
        for i in 0..12 { let q = put(q_second + 12 * r + i, cube(st[i])); st[i] = st[i] * q * q; }
        F::matmul_external(&mut st);
        for i in 0..12 { st[i] = put(c_second + 12 * r + i, st[i]); }
    }
    row
}
fn tampers(kind: TableKind, rows: &[Vec<F>], quick: bool) -> Vec<Tamper> {
    let (n, w) = (rows.len(), rows[0].len());
    // the rows of the permutation table have nothing to do with each other
    if kind as usize == TableKind::Poseidon2 as usize {
        let mut out: Vec<Tamper> = vec![];
        let last = rows.iter().position(|r| r[0] == F::ZERO).unwrap_or(n);
        for i in if quick { vec![0] } else { (0..n.min(last + 1)).collect() } { for at in 0..w { for by in [F::ONE, F::NEG_ONE, -rows[i][at], rows[i][at], f(1 << 32)] { for exe in [rows[i][0], F::ONE] {
            if by == F::ZERO { continue; }
            let new = deviating(&rows[i][1..13], exe, at, by);
            out.push((0..w).filter(|c| new[*c] != rows[i][*c]).map(|c| (i * w + c, new[c])).collect());
            out.push(vec![(i * w + at, rows[i][at] + by)]);
        } } } }
        out.retain(|t| !t.is_empty());
        let mut seen = std::collections::HashSet::new();
        out.retain(|t| seen.insert(t.iter().map(|(c, x)| (*c, u(*x))).collect::<Vec<_>>()));
        return out;
    }
    let to = |new: &[Vec<F>]| -> Tamper { (0..n).flat_map(|i| (0..w).map(move |c| (i, c))).filter(|(i, c)| new[*i][*c] != rows[*i][*c]).map(|(i, c)| (i * w + c, new[i][c])).collect() };
    let mut out: Vec<Tamper> = vec![];
    // rows of interest: all of a small table, else those where something changes
    let changes = |i: usize| rows[i] != rows[(i + 1) % n] ;
    let pick: Vec<usize> = if n <= 16 { (0..n).collect() } else {
        let mut v: Vec<usize> = (0..n).filter(|i| (*i < 3 || *i + 3 >= n || changes(*i)) ).collect();
        let cap = if quick { 12 } else { 64 };
        if v.len() > cap { let k = v.len().div_ceil(cap); v = v.into_iter().enumerate().filter(|(j, i)| j % k == 0 || *i < 2 || *i + 2 >= n).map(|x| x.1).collect(); }
        v
    };
    for i in &pick { for c in 0..w { for x in values(rows, *i, c) { out.push(vec![(i * w + c, x)]); } } }
    for &i in &pick { for &j in &pick {
        if i == j { continue; }
        // copy, swap, move one row or a pair of rows
        let mut a = rows.to_vec(); a[j] = rows[i].clone(); out.push(to(&a));
        if i < j { let mut a = rows.to_vec(); a.swap(i, j); out.push(to(&a)); }
        let mut a = rows.to_vec(); let r = a.remove(i); a.insert(j, r); out.push(to(&a));
        let mut a = rows.to_vec(); a.insert(j, rows[i].clone()); a.truncate(n); out.push(to(&a));
        if i + 1 < n && j + 1 < n { let mut a = rows.to_vec(); a[j] = rows[i].clone(); a[j + 1] = rows[i + 1].clone(); out.push(to(&a)); }
    } }
    for &i in &pick { let mut a = rows.to_vec(); a.remove(i); a.push(rows[n - 1].clone()); out.push(to(&a)); }
    // rows that count, counting differently from some row on
    for &i in &pick { for c in 0..w { for up in [true, false] { for k in 0..4 {
        let mut a = rows.to_vec();
        for (j, r) in a.iter_mut().enumerate() { if (j >= i) == up { r[c] = match k { 0 => r[c] + F::ONE, 1 => r[c] - F::ONE, 2 => r[c] + r[c], _ => F::ZERO }; } }
        out.push(to(&a));
    } } } }
    // the row kinds of the sponge in every order, the permutations being right
    if kind as usize == TableKind::Poseidon2Sponge as usize {
        let len = if quick { 3 } else { 4 };
        for k in 0..6usize.pow(len) {
            let mut a = rows.to_vec();
            let mut k = k;
            for i in 0..len as usize {
                let (op, last) = (k % 6 / 2, k % 2); k /= 6;
                let prev = if i > 0 { a[i - 1].clone() } else { vec![F::ZERO; w] };
                let r = &mut a[i];
                if op == 0 { for x in r.iter_mut() { *x = F::ZERO; } continue; }
                r[0] = rows[0][0] + f(if op == 1 { 5 * i as u64 } else { u(prev[0]) - u(rows[0][0]).min(u(prev[0])) });
                r[1] = F::from_bool(op == 1); r[2] = F::from_bool(op == 2);
                let (src, len) = if op == 1 { (f(0x400 + 32 * i as u64), f(8)) } else { (prev[3] + f(8), prev[5] - f(8)) };
                r[3] = src; r[4] = if op == 1 { f(0x500 + 32 * i as u64) } else { prev[4] }; r[5] = len;
                for b in 0..8 { r[6 + b] = f(b as u64 + 3 * i as u64); }
                for b in 8..12 { r[6 + b] = if op == 1 { F::ZERO } else if prev[1] + prev[2] == F::ZERO { f(77) } else { prev[18 + b] }; }
                let o = permute(&r[6..18]);
                r[18..30].copy_from_slice(&o);
                r[30] = F::from_usize(last);
            }
            // the length counts down to the row that gives the digest
            for i in (0..len as usize).rev() { if a[i][1] + a[i][2] == F::ONE && a[i][30] == F::ONE { a[i][5] = f(8); let mut j = i; while j > 0 && a[j][2] == F::ONE && a[j - 1][30] == F::ZERO { let x = a[j][5] + f(8); j -= 1; a[j][5] = x; } } }
            out.push(to(&a));
            let mut b = a.clone();
            for r in b.iter_mut().take(len as usize) { if r[2] == F::ONE { r[4] += F::ONE; } }
            out.push(to(&b));
            // what a sponge starts with or carries over, changed
            for i in 0..len as usize { for x in 0..4 {
                let mut b = a.clone();
                if a[i][1] + a[i][2] == F::ZERO { continue; }
                b[i][6 + 8 + x] += F::ONE;
                for j in i..len as usize {
                    if b[j][1] + b[j][2] == F::ZERO { break; }
                    if j > i { if b[j][2] != F::ONE { break; } for c in 8..12 { b[j][6 + c] = b[j - 1][18 + c]; } }
                    let o = permute(&b[j][6..18]);
                    b[j][18..30].copy_from_slice(&o);
                }
                out.push(to(&b));
            } }
        }
    }
    // digests with small fields, and the bytes of their other representation
    if kind as usize == TableKind::Poseidon2OutputBytes as usize {
        for k in 0..4 { for x in [0u64, 1, 0xFFFF_FFFE, 0xFFFF_FFFF] { for other in [false, true] {
            let Some(y) = (if other { x.checked_add(0xFFFF_FFFF_0000_0001) } else { Some(x) }) else { continue };
            let mut a = rows.to_vec();
            a[0][3 + k] = f(x);
            for b in 0..8 { a[0][7 + 8 * k + b] = f(y >> (8 * b) & 255); }
            out.push(to(&a));
        } } }
    }
    out.retain(|t| !t.is_empty());
    let mut seen = std::collections::HashSet::new();
    out.retain(|t| seen.insert(t.iter().map(|(c, x)| (*c, u(*x))).collect::<Vec<_>>()));
    out
}
trait Small { fn from_usize(n: usize) -> Self; }
impl Small for F { fn from_usize(n: usize) -> F { F::from_canonical_usize(n) } }

/// The tables of all programs, each content once.
fn bases(ctx: &Ctx, sys: &Sys) -> Vec<(TableKind, String, Vec<Vec<F>>)> {
    let progs = programs(ctx.quick());
    let mut bases: Vec<(TableKind, String, Vec<Vec<F>>)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for (name, s) in &progs {
        let p = s.program();
        let rec = guard(|| step(&p, s.state(&p))).unwrap().unwrap();
        let t = match guard(|| sys.traces(&p, &rec)) { Ok(t) => t, Err(e) => { ctx.violation(format!("honest:{name}"), json!({"program": name, "fails": e})); continue; } };
        for k in &sys.kinds {
            use TableKind as K;
            if [K::Cpu, K::Add, K::BltTaken].iter().any(|x| *x as usize == *k as usize) { continue; }
            let rows = &t[*k as usize];
            if seen.insert((*k as usize, rows.iter().flatten().map(|x| u(*x)).collect::<Vec<_>>())) { bases.push((*k, name.clone(), rows.clone())); }
        }
    }
    // of tables that look alike in all programs, a few are enough
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    bases.retain(|(k, _, rows)| {
        use TableKind as K;
        let c = count.entry(*k as usize).or_insert(0);
        *c += 1;
        let cap = match k { K::RangeCheckU8 | K::TapeCommitments => 1, K::Register | K::RegisterInit | K::Bitshift | K::RangeCheck | K::Program | K::ProgramMult | K::CpuSkeleton | K::Xor | K::RegisterZeroRead | K::RegisterZeroWrite | K::Poseidon2 => ctx.pick(2, 6), _ => 99 };
        let _ = rows;
        *c <= cap
    });
    bases
}
fn contract<'a>(sys: &Sys, buses: &'a [Bus], kind: TableKind) -> Contract<'a> {
    let mut signs = vec![F::ONE; buses.len()];
    for (i, ends) in sys.buses.iter().enumerate() { for e in ends { if e.kind as usize == kind as usize && sign(&e.filter) { signs[i] = F::NEG_ONE; } } }
    Contract { kind, buses, signs, entry: f(mozak_circuits::verif::PUBLIC_MARK) }
}

/// How many repairs, and how many states per tampering: tables whose rows count up need many.
fn bounds(k: TableKind, quick: bool) -> (usize, u64) {
    use TableKind as K;
    match k { K::Bitshift | K::CpuSkeleton => (70, 100), K::RangeCheckU8 => (260, 300), K::Poseidon2 => (1, 1), _ if quick => (4, 300), _ => (6, 5000) }
}

/// Which of the constraints and lookups, if left out, would the search notice?
pub fn mutants(ctx: &Ctx) {
    let sys = Sys::new();
    let buses: Vec<Bus> = sys.buses.iter().map(|b| bus_of(b)).collect();
    let widths = mozak_circuits::verif::widths(&sys.stark);
    let bases = bases(ctx, &sys);
    let all: Vec<Vec<Tamper>> = bases.iter().map(|(k, _, rows)| tampers(*k, rows, ctx.quick())).collect();
    let systems: Vec<Rows> = bases.iter().map(|(k, _, rows)| Rows::new(&sys, *k, widths[*k as usize], rows.len(), Where::Whole, &[])).collect();
    let mut jobs: Vec<(TableKind, Option<usize>, Option<(usize, usize)>)> = vec![];
    for k in &sys.kinds {
        let Some(i) = bases.iter().position(|b| b.0 as usize == *k as usize) else { continue };
        if [TableKind::Xor].iter().any(|x| *x as usize == *k as usize) { continue; }
        for p in systems[i].poly_ids() { jobs.push((*k, Some(p), None)); }
        let mut e: Vec<(usize, usize)> = systems[i].ports.iter().map(|p| (p.bus, p.end)).collect();
        e.sort_unstable(); e.dedup();
        for q in e { jobs.push((*k, None, Some(q))); }
    }
    let out = std::sync::Mutex::new(vec![]);
    ctx.par("mutants", jobs.len(), |n, l| {
        let (k, p, q) = jobs[n];
        let rules = contract(&sys, &buses, k);
        let mut found = None;
        'all: for (b, (kind, name, rows)) in bases.iter().enumerate() {
            if *kind as usize != k as usize { continue; }
            let base: Vec<F> = rows.iter().flatten().copied().collect();
            let mut s = Search::new(&systems[b], &rules);
            let (depth, cap) = bounds(k, ctx.quick());
            s.cap = cap; s.wide = ctx.pick(2, 3); s.no_poly = p; s.no_port = q;
            if let Some(q) = q { let m: Vec<Msg> = systems[b].msgs(&base).into_iter().filter(|m| (m.bus, m.end) != q).collect(); if let Some(w) = rules.judge(&base, &m) { found = Some((name.clone(), format!("honest: {w}"))); break 'all; } }
            let vars: std::collections::HashSet<usize> = match (p, q) { (Some(p), _) => systems[b].vars_of_poly(p), (_, Some(q)) => systems[b].ports.iter().filter(|x| (x.bus, x.end) == q).flat_map(|x| x.vars().to_vec()).collect(), _ => vec![] }.into_iter().map(|v| v as usize).collect();
            for t in all[b].iter().filter(|t| t.iter().any(|(c, _)| vars.contains(c))) { if let Some((why, _)) = s.run(&base, t, depth) { if k as usize == TableKind::RegisterInit as usize { continue; } found = Some((name.clone(), why)); break 'all; } }
        }
        l.add(if found.is_some() { "mutants_noticed" } else { "mutants_unnoticed" }, 1);
        let what = q.map(|q| format!("{:?}", buses[q.0]));
        out.lock().unwrap().push((format!("{k:?}"), p, q, what, found));
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| (x.0.clone(), x.1, x.2));
    for x in o { println!("MUT {x:?}"); }
}

pub fn s03(ctx: &Ctx) {
    let sys = Sys::new();
    let buses: Vec<Bus> = sys.buses.iter().map(|b| bus_of(b)).collect();
    let widths = mozak_circuits::verif::widths(&sys.stark);
    let bases = bases(ctx, &sys);
    let mut jobs: Vec<(usize, usize)> = vec![];
    let all: Vec<Vec<Tamper>> = bases.iter().map(|(k, _, rows)| tampers(*k, rows, ctx.quick())).collect();
    let systems: Vec<Rows> = bases.iter().map(|(k, _, rows)| Rows::new(&sys, *k, widths[*k as usize], rows.len(), Where::Whole, &[])).collect();
    for (i, t) in all.iter().enumerate() { for j in 0..t.len().div_ceil(200) { jobs.push((i, j)); } }
    let bad: std::sync::Mutex<BTreeMap<String, serde_json::Value>> = Default::default();
    ctx.par("tables", jobs.len(), |n, l| {
        let (b, j) = jobs[n];
        let t0 = std::time::Instant::now();
        let (kind, name, rows) = &bases[b];
        let sysr = &systems[b];
        let base: Vec<F> = rows.iter().flatten().copied().collect();
        let rules = contract(&sys, &buses, *kind);
        let mut s = Search::new(sysr, &rules);
        let (depth, cap) = bounds(*kind, ctx.quick());
        s.cap = cap; s.wide = ctx.pick(2, 3);
        if let Err(e) = s.holds(&base) { ctx.violation(format!("honest:{kind:?}"), json!({"program": name, "fails": e})); return; }
        // what registers start with is not for the honest tables to say
        let free = *kind as usize == TableKind::RegisterInit as usize;
        if let Some(w) = rules.judge(&base, &sysr.msgs(&base)).filter(|_| !free) { ctx.violation(format!("honest:{kind:?}"), json!({"program": name, "judged": w})); return; }
        let w = rows[0].len();
        for t in all[b].iter().skip(200 * j).take(200) {
            l.add("tampered_tables", 1);
            if let Some((why, got)) = s.run(&base, t, depth) {
                let cells: Vec<_> = (0..got.len()).filter(|i| got[*i] != base[*i]).map(|i| json!([i / w, i % w, u(base[i]), u(got[i])])).collect();
                let key = format!("{kind:?}: {}", shape(&why));
                bad.lock().unwrap().entry(key).or_insert_with(|| json!({"table": format!("{kind:?}"), "program": name, "why": why, "cells": cells}));
            }
        }
        l.add("states", s.stats.states); l.add("transitions", s.stats.steps); l.add("accepted_tables", s.stats.accepted); l.add("capped", s.stats.capped);
        l.outcome(format!("{kind:?}"));
        if std::env::var_os("MC_TIMES").is_some() { eprintln!("TIME {kind:?} {} {:.2}", rows.len(), t0.elapsed().as_secs_f64()); }
    });
    for (k, d) in bad.into_inner().unwrap() { ctx.violation(k, d); }
}
/// Does this end take from the bus rather than put on it?
fn sign(l: &mozak_circuits::verif::Lin) -> bool { l.lv.iter().chain(&l.nv).map(|x| x.1).chain((l.c != F::ZERO).then_some(l.c)).next().is_some_and(|c| u(c) > 1 << 62) }
/// The message without its numbers.
fn shape(s: &str) -> String { let mut o = String::new(); for c in s.chars() { if c.is_ascii_digit() { if !o.ends_with('#') { o.push('#'); } } else { o.push(c); } } o.truncate(60); o }
