//! R09: the ELF loader against a reference loader.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use mc::{guard, Ctx, Local};
use mozak_runner::elf::{Data, Program};
use serde_json::json;

use crate::decode_check;
use crate::refvm::RefVm;

#[derive(Clone, Debug)]
pub struct Seg { pub ty: u32, pub flags: u32, pub off: u32, pub vaddr: u32, pub filesz: u32, pub memsz: u32 }

#[derive(Clone, Debug, Default)]
pub struct Image { pub entry: u32, pub ro: BTreeMap<u32, u8>, pub rw: BTreeMap<u32, u8>, pub code: BTreeMap<u32, u8>, pub unspecified: BTreeSet<u32> }

impl Image {
    pub fn machine(&self) -> RefVm {
        let mut r = RefVm { pc: self.entry, ..Default::default() };
        r.mem = self.rw.iter().map(|(a, v)| (*a, *v)).collect();
        for (a, v) in &self.ro { r.mem.insert(*a, *v); r.ro.insert(*a); }
        r.code = self.words();
        r
    }
    /// Instruction words at every aligned address that has at least one executable byte.
    pub fn words(&self) -> HashMap<u32, u32> {
        self.code.keys().map(|a| a & !3).collect::<BTreeSet<_>>().into_iter()
            .map(|a| (a, (0..4).fold(0u32, |w, k| w | u32::from(self.code.get(&(a | k)).copied().unwrap_or(0)) << (8 * k)))).collect()
    }
}

fn u16_at(b: &[u8], o: usize) -> Option<u32> { Some(u32::from(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?))) }
fn u32_at(b: &[u8], o: usize) -> Option<u32> { Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?)) }

/// ELF32 RISC-V executables only; None = must be refused.
pub fn ref_load(b: &[u8]) -> Option<Image> {
    if b.get(0..4)? != b"\x7fELF" || *b.get(4)? != 1 || *b.get(5)? != 1 || *b.get(6)? != 1 { return None; }
    if u16_at(b, 16)? != 2 || u16_at(b, 18)? != 243 { return None; }
    let entry = u32_at(b, 24)?;
    if entry % 4 != 0 { return None; }
    let (phoff, phentsize, phnum) = (u32_at(b, 28)? as usize, u16_at(b, 42)?, u16_at(b, 44)? as usize);
    if b.len() < 52 || phoff == 0 || (phnum > 0 && phentsize != 32) || phnum > 256 { return None; }
    let mut img = Image { entry, ..Default::default() };
    for k in 0..phnum {
        let o = phoff + 32 * k;
        let s = Seg { ty: u32_at(b, o)?, off: u32_at(b, o + 4)?, vaddr: u32_at(b, o + 8)?, filesz: u32_at(b, o + 16)?, memsz: u32_at(b, o + 20)?, flags: u32_at(b, o + 24)? };
        u32_at(b, o + 28)?;
        // without R and X nothing is loaded (write-only segments are unspecified)
        if s.ty != 1 || s.flags & 5 == 0 { if s.ty == 1 && s.flags & 2 != 0 { for j in 0..s.memsz.min(4096) { img.unspecified.insert(s.vaddr.wrapping_add(j)); } } continue; }
        if u64::from(s.vaddr) + u64::from(s.memsz) > 1 << 32 { return None; }
        let data = b.get(s.off as usize..s.off as usize + s.filesz.min(s.memsz) as usize)?;
        for j in 0..s.memsz {
            let (a, v) = (s.vaddr + j, data.get(j as usize).copied().unwrap_or(0));
            let (r, w, x) = (s.flags & 4 != 0, s.flags & 2 != 0, s.flags & 1 != 0);
            match (r, w) {
                (true, false) => { img.ro.insert(a, v); }
                (true, true) => { img.rw.insert(a, v); }
                (false, true) => { img.unspecified.insert(a); }
                _ => {}
            }
            if x { img.code.insert(a, v); }
        }
    }
    Some(img)
}

#[derive(Clone)]
pub struct Hdr { class: u8, data: u8, ver: u8, ty: u16, machine: u16, entry: u32, phoff: u32, phentsize: u16, magic: [u8; 4], phnum: Option<u16>, ehdr_version: u32 }
impl Default for Hdr {
    fn default() -> Self { Hdr { class: 1, data: 1, ver: 1, ty: 2, machine: 243, entry: 0x1_0000, phoff: 52, phentsize: 32, magic: *b"\x7fELF", phnum: None, ehdr_version: 1 } }
}

pub fn build(h: &Hdr, segs: &[Seg], body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    o.extend(h.magic); o.extend([h.class, h.data, h.ver, 0]); o.extend([0; 8]);
    o.extend(h.ty.to_le_bytes()); o.extend(h.machine.to_le_bytes()); o.extend(h.ehdr_version.to_le_bytes());
    o.extend(h.entry.to_le_bytes()); o.extend(h.phoff.to_le_bytes()); o.extend(0u32.to_le_bytes()); o.extend(0u32.to_le_bytes());
    o.extend(52u16.to_le_bytes()); o.extend(h.phentsize.to_le_bytes()); o.extend(h.phnum.unwrap_or(segs.len() as u16).to_le_bytes());
    o.extend(40u16.to_le_bytes()); o.extend(0u16.to_le_bytes()); o.extend(0u16.to_le_bytes());
    for s in segs { for v in [s.ty, s.off, s.vaddr, s.vaddr, s.filesz, s.memsz, s.flags, 4] { o.extend(v.to_le_bytes()); } }
    o.extend(body);
    o
}

fn compare(p: &Program, img: &Image) -> Option<String> {
    if p.entry_point != img.entry { return Some(format!("entry point {:#x}, expected {:#x}", p.entry_point, img.entry)); }
    for (what, got, want) in [("read-only", &p.ro_memory.0, &img.ro), ("writable", &p.rw_memory.0, &img.rw)] {
        for (a, v) in got.iter() { if !img.unspecified.contains(a) && want.get(a) != Some(v) { return Some(format!("{what} byte {a:#x} = {v:#x}, expected {:x?}", want.get(a))); } }
        for (a, v) in want { if got.get(a) != Some(v) { return Some(format!("{what} byte {a:#x} missing or {:x?}, expected {v:#x}", got.get(a))); } }
    }
    let words = img.words();
    if p.ro_code.0.len() != words.len() { return Some(format!("{} code words, expected {}", p.ro_code.0.len(), words.len())); }
    for (a, w) in &words {
        let Some(got) = p.ro_code.get_instruction(*a) else { return Some(format!("no code at {a:#x}")); };
        if let Some(d) = decode_check(*a, *w, *got) { return Some(format!("code at {a:#x}: {d}")); }
    }
    None
}

fn judge(ctx: &Ctx, l: &mut Local, key: impl Fn() -> String, bytes: &[u8]) {
    l.add("states", 1);
    let want = ref_load(bytes);
    for (name, got) in [("vanilla_load_elf", guard(|| Program::vanilla_load_elf(bytes))), ("mozak_load_program", guard(|| Program::mozak_load_program(bytes)))] {
        let d = match (&want, got) {
            (None, Ok(Err(_)) | Err(_)) => { l.add("refused_as_required", 1); l.outcome("refused"); None }
            (None, Ok(Ok(p))) => Some(format!("accepted an image that must be refused: entry {:#x}, {} ro, {} rw, {} code words", p.entry_point, p.ro_memory.0.len(), p.rw_memory.0.len(), p.ro_code.0.len())),
            (Some(img), Ok(Ok(p))) => { l.outcome(format!("{} ro {} rw {} code", img.ro.len(), img.rw.len(), img.code.len())); l.add("transitions", 1); compare(&p, img).or_else(|| { l.add("traces_validated_against_impl", u64::from(!img.code.is_empty())); None }) }
            (Some(_), Ok(Err(e))) => Some(format!("refused: {e}")),
            (Some(_), Err(e)) => Some(format!("panicked: {e}")),
        };
        if let Some(d) = d {
            ctx.violation(format!("elf:{}", key()), json!({"case": key(), "function": name, "what": d, "image_hex": if bytes.len() < 400 { bytes.iter().map(|b| format!("{b:02x}")).collect::<String>() } else { String::new() }}));
        }
    }
}

pub fn r09(ctx: &Ctx) {
    let body: Vec<u8> = (0..64u32).flat_map(|k| match k % 4 { 0 => 0x0010_0093u32 + (k << 20), 1 => 0x0000_0073, 2 => 0xFFFF_FFFF, _ => 0x00B5_0533 }.to_le_bytes()).collect();
    // 1. headers
    let base_seg = |n: usize| Seg { ty: 1, flags: 5, off: 52 + 32 * n as u32, vaddr: 0x1_0000, filesz: 16, memsz: 16 };
    let mut hdrs = vec![];
    for class in [0u8, 1, 2, 3] { for data in [0u8, 1, 2] { for ty in [0u16, 1, 2, 3, 4, 0x0200] { for machine in [0u16, 3, 40, 62, 242, 243, 0xF300] { for entry in [0u32, 1, 2, 3, 4, 0x1_0000, 0x1_0001, 0x1_0002, 0xFFFF_FFFC, 0xFFFF_FFFE] {
        hdrs.push(Hdr { class, data, ty, machine, entry, ..Default::default() });
    } } } } }
    for magic in [[0u8; 4], *b"\x7fELG", *b"ELF\x7f", *b"\x7felf"] { hdrs.push(Hdr { magic, ..Default::default() }); }
    for phentsize in [0u16, 31, 33, 56, 64] { hdrs.push(Hdr { phentsize, ..Default::default() }); }
    for phoff in [0u32, 53, 0x1000, 0xFFFF_FFFF] { hdrs.push(Hdr { phoff, phnum: if phoff == 53 { Some(200) } else { None }, ..Default::default() }); }
    for phnum in [0u16, 2, 3, 257, 1000, 0xFFFE] { hdrs.push(Hdr { phnum: Some(phnum), ..Default::default() }); }
    ctx.par("headers", hdrs.len(), |i, l| {
        let h = &hdrs[i];
        // 64-bit headers have a different layout: whatever is there, the image must be refused
        judge(ctx, l, || format!("header:{i}"), &build(h, &[base_seg(1)], &body));
    });
    // images that are right but for being 64-bit
    ctx.par("64-bit", 4 * 6, |i, l| {
        let (entry, n) = ([0x1_0000u64, 0, 0x1_0002, 1 << 32][i % 4], [0u64, 1, 2, 3, 4, 256][i / 4]);
        let mut o = b"\x7fELF\x02\x01\x01".to_vec();
        o.extend([0; 9]);
        o.extend(2u16.to_le_bytes()); o.extend(243u16.to_le_bytes()); o.extend(1u32.to_le_bytes());
        for v in [entry, 64, 0] { o.extend(v.to_le_bytes()); }
        o.extend(0u32.to_le_bytes());
        for v in [64u16, 56, n as u16, 64, 0, 0] { o.extend(v.to_le_bytes()); }
        for k in 0..n {
            o.extend(1u32.to_le_bytes()); o.extend(5u32.to_le_bytes());
            for v in [64 + 56 * n, 0x1_0000 + 0x100 * k, 0x1_0000 + 0x100 * k, 16, 16, 4] { o.extend(v.to_le_bytes()); }
        }
        o.extend(&body);
        judge(ctx, l, || format!("64-bit:{entry:#x}:{n}"), &o);
    });
    // program-header counts around the 256 limit
    ctx.par("segment-counts", 6, |i, l| {
        let n = [1usize, 2, 255, 256, 257, 300][i];
        let segs: Vec<Seg> = (0..n).map(|k| Seg { ty: 1, flags: 4, off: 52 + 32 * n as u32, vaddr: 0x1000 * k as u32, filesz: 1 + k as u32 % 3, memsz: 4 }).collect();
        judge(ctx, l, || format!("count:{n}"), &build(&Hdr::default(), &segs, &body));
    });
    // truncation at every length
    let whole = build(&Hdr::default(), &[base_seg(2), Seg { flags: 6, vaddr: 0x2_0000, off: 120, ..base_seg(2) }], &body[..32]);
    ctx.par("truncation", whole.len() + 1, |n, l| judge(ctx, l, || format!("truncated:{n}"), &whole[..n]));
    // 2. one segment: type x flags x placement x sizes x offset
    let vaddrs = [0u32, 1, 2, 3, 4, 0x1_0000, 0x1_0001, 0x7FFF_FFFE, 0xFFFF_FFF0, 0xFFFF_FFF7, 0xFFFF_FFF8, 0xFFFF_FFFC, 0xFFFF_FFFE, 0xFFFF_FFFF];
    let sizes = [(0u32, 0u32), (0, 5), (1, 1), (3, 3), (4, 4), (4, 9), (7, 8), (8, 8), (16, 16), (9, 40), (16, 17)];
    let types = [0u32, 1, 2, 3, 4, 6, 7, 0x6474_e551, 0x6474_e552, 0x7000_0003];
    ctx.par("one-segment", types.len() * 8 * vaddrs.len(), |i, l| {
        let (ty, flags, vaddr) = (types[i % types.len()], (i / types.len() % 8) as u32, vaddrs[i / types.len() / 8]);
        for (filesz, memsz) in sizes {
            for off in [0u32, 84, 85, 87, 100, 84 + 256 - 8, 84 + 256, 0x1_0000, 0xFFFF_FFFF] {
                let s = Seg { ty, flags, off, vaddr, filesz, memsz };
                // permission bits outside RWX are ignored
                judge(ctx, l, || format!("segment:{s:?}"), &build(&Hdr { entry: vaddr & !3, ..Default::default() }, &[s.clone()], &body));
            }
        }
    });
    ctx.par("os-flags", 8, |flags, l| {
        for extra in [0x0010_0000u32, 0x1000_0000, 8, 0x8000_0000] {
            let s = Seg { ty: 1, flags: flags as u32 | extra, off: 84, vaddr: 0x1_0000, filesz: 8, memsz: 12 };
            judge(ctx, l, || format!("os-flags:{s:?}"), &build(&Hdr::default(), &[s.clone()], &body));
        }
    });
    // 3. two and three segments: all flag/type combinations, disjoint, adjacent, and read-only/writable overlap
    let kinds: Vec<(u32, u32)> = vec![(1, 4), (1, 5), (1, 6), (1, 7), (1, 1), (4, 4), (0, 6), (2, 6), (1, 3)];
    let n = kinds.len();
    let k3 = ctx.pick(n * n * n, n * n * n);
    ctx.par("three-segments", k3, |i, l| {
        let ks = [kinds[i % n], kinds[i / n % n], kinds[i / n / n]];
        for place in [[0x1000u32, 0x2000, 0x3000], [0x1000, 0x1008, 0x1010], [0x1010, 0x1000, 0x1008], [0x1000, 0x1005, 0x100A], [0x1000, 0x1004, 0x3000]] {
            for (fs, ms) in [(8u32, 8u32), (5, 5), (3, 8), (0, 4)] {
                let segs: Vec<Seg> = (0..3).map(|k| Seg { ty: ks[k].0, flags: ks[k].1, off: 52 + 96 + 16 * k as u32 + k as u32, vaddr: place[k], filesz: fs, memsz: ms }).collect();
                // overlap is only specified between a read-only and a writable data segment
                let overlap = |a: &Seg, b: &Seg| a.vaddr < b.vaddr + b.memsz && b.vaddr < a.vaddr + a.memsz;
                let class = |s: &Seg| (s.flags & 4 != 0 && s.flags & 2 == 0, s.flags & 6 == 6, s.flags & 1 != 0);
                let mut amb = false;
                for a in 0..3 { for b in 0..a {
                    let (x, y) = (class(&segs[a]), class(&segs[b]));
                    if segs[a].ty == 1 && segs[b].ty == 1 && overlap(&segs[a], &segs[b]) && ((x.0 && y.0) || (x.1 && y.1) || (x.2 && y.2) || segs[a].flags & 6 == 2 || segs[b].flags & 6 == 2) { amb = true; }
                } }
                if amb { l.add("skipped_ambiguous_overlap", 1); continue; }
                let bytes = build(&Hdr { entry: 0x1000, ..Default::default() }, &segs, &body);
                judge(ctx, l, || format!("segments:{segs:?}"), &bytes);
                // what the machine then sees
                if let (Some(img), Ok(Ok(p))) = (ref_load(&bytes), guard(|| Program::vanilla_load_elf(&bytes))) {
                    if img.unspecified.is_empty() {
                        let st = crate::bridge::St::from(p);
                        if let Some(d) = crate::bridge::diff(&st, &img.machine(), true) { ctx.violation(format!("image:{i}:{place:x?}:{fs}:{ms}"), json!({"segments": format!("{segs:?}"), "what": d})); }
                    }
                }
            }
        }
    });
    // 4. byte images given as word maps
    let keys = [0u32, 1, 2, 3, 4, 5, 8, 0x1000, 0xFFFF_FFF8, 0xFFFF_FFFC];
    ctx.par("word-maps", 1 << keys.len(), |mask, l| {
        let ks: Vec<u32> = keys.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| *k).collect();
        if ks.len() > 4 { return; }
        let m: im::HashMap<u32, u32> = ks.iter().map(|k| (*k, k ^ 0xA1B2_C3D4)).collect();
        l.add("states", 1);
        let clash = ks.iter().any(|a| ks.iter().any(|b| a != b && b.wrapping_sub(*a) < 4));
        let want: BTreeMap<u32, u8> = ks.iter().flat_map(|k| (k ^ 0xA1B2_C3D4).to_le_bytes().into_iter().enumerate().map(move |(j, v)| (k.wrapping_add(j as u32), v))).collect();
        match (clash, guard(|| Data::from(m.clone()))) {
            (true, Err(_)) => l.outcome("overlap refused"),
            (false, Ok(d)) if d.0.len() == want.len() && want.iter().all(|(a, v)| d.0.get(a) == Some(v)) => l.outcome("bytes as given"),
            (c, g) => ctx.violation(format!("data:{ks:x?}"), json!({"keys": ks, "overlapping": c, "got": format!("{:?}", g.map(|d| d.0.len()))})),
        }
        let aligned = ks.iter().all(|k| k % 4 == 0);
        match (aligned, guard(|| Program::from(m.clone()))) {
            (false, Err(_)) => {}
            (true, Ok(p)) => {
                l.add("transitions", 1);
                let img = Image { entry: 0, rw: want.clone(), code: want.clone(), ..Default::default() };
                if let Some(d) = compare(&p, &img) { ctx.violation(format!("program-from:{ks:x?}"), json!({"keys": ks, "what": d})); }
            }
            (a, g) => ctx.violation(format!("program-from:{ks:x?}"), json!({"keys": ks, "aligned": a, "got": format!("{:?}", g.map(|_| "program"))})),
        }
    });
    ctx.info("bounds", "5044 header variants, every truncation of a 2-segment image, one segment over 10 types x 8 flags x 14 addresses x 11 sizes x 9 offsets, three segments over 9^3 kinds x 5 placements x 4 sizes, word maps over 10 keys");
    ctx.info("oracle", "independent ELF32 reader: PT_LOAD only; R without W is read-only data, R and W is writable data, X is code; bss zero-filled; anything outside file or address space refused");
    ctx.info("exhaustive", true);
    ctx.assume("segments that are writable but not readable, and overlaps within one class of memory, are unspecified and skipped");
    ctx.assume("the `elf` crate is replaced by an API-compatible reader in /verif/shims/elf (not available offline)");
    ctx.sample(json!({"segment": "PT_LOAD RWX vaddr 0x10000 filesz 4 memsz 9", "expected": "9 writable bytes, 3 code words, no read-only bytes"}));
}
