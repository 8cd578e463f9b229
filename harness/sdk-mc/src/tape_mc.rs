//! Guest-side input tapes, allocator and panics.
use mc::Ctx;
use serde_json::json;

use crate::vm::*;

#[derive(Clone, Copy, Debug)]
enum Op { Read(u32), Start(u64), End(i64), Current(i64) }

/// The tape as specified: a cursor over the first `hint` bytes.
struct Model<'a> { data: &'a [u8], pos: u64, out: Vec<u8> }
impl Model<'_> {
    fn op(&mut self, o: Op) {
        let size = self.data.len() as u64;
        match o {
            Op::Read(n) => {
                let k = u64::from(n).min(size - self.pos);
                self.out.push(0); self.out.extend(k.to_le_bytes()); self.out.extend(n.to_le_bytes());
                for i in 0..u64::from(n) { self.out.push(if i < k { self.data[(self.pos + i) as usize] } else { 0xEE }); }
                self.pos += k;
            }
            Op::Start(x) => self.to(Some(x)),
            Op::End(x) => self.to(size.checked_add_signed(x)),
            Op::Current(x) => self.to(self.pos.checked_add_signed(x)),
        }
    }
    fn to(&mut self, p: Option<u64>) {
        match p {
            None => self.out.push(1),
            Some(p) => { self.pos = p.min(self.data.len() as u64); self.out.push(0); self.out.extend(self.pos.to_le_bytes()); }
        }
    }
}
fn enc(s: Script, o: Op, t: u8) -> Script {
    match o {
        Op::Read(n) => s.b(3).b(t).w(n),
        Op::Start(x) => s.b(4).b(t).b(0).d(x),
        Op::End(x) => s.b(4).b(t).b(1).d(x as u64),
        Op::Current(x) => s.b(4).b(t).b(2).d(x as u64),
    }
}

pub fn k05(ctx: &Ctx) {
    let g = guest("driver");
    let depth = ctx.pick(3usize, 4);
    // A: every history of reads and seeks on one tape
    let sizes: Vec<u32> = ctx.pick(vec![0, 1, 5], vec![0, 1, 2, 3, 5, 9]);
    for size in sizes {
        let z = i64::from(size);
        let ops: Vec<Op> = vec![
            Op::Read(0), Op::Read(1), Op::Read(2), Op::Read(size + 3), Op::Start(0), Op::Start(2), Op::Start(size as u64 + 1), Op::Start(u64::MAX),
            Op::End(0), Op::End(-1), Op::End(-z), Op::End(-z - 1), Op::End(2), Op::Current(0), Op::Current(1), Op::Current(-1), Op::Current(-2), Op::Current(i64::MAX), Op::Current(i64::MIN),
        ];
        let n = ops.len().pow(depth as u32);
        ctx.par("seek", n, |i, l| {
            let mut k = i;
            let hist: Vec<Op> = (0..depth).map(|_| { let o = ops[k % ops.len()]; k /= ops.len(); o }).collect();
            let kind = (i % 2) as u8;
            let data: Vec<u8> = (0..size).map(|x| 0x40 + x as u8).collect();
            let other: Vec<u8> = (0..size).map(|x| 0x90 + x as u8).collect();
            let mut m = Model { data: &data, pos: 0, out: vec![] };
            let mut s = Script::default().b(2).b(kind).w(size);
            for o in &hist { s = enc(s, *o, 0); m.op(*o); }
            m.op(Op::Read(size + 1));
            s = enc(s, Op::Read(size + 1), 0).b(0);
            m.out.push(0xFF);
            // the tape object is our own: no size prefix on this one
            let mut t = plain_tapes(&other, &other);
            if kind == 0 { t.private_tape = data.clone(); t.public_tape = vec![0; 4]; } else { t.public_tape = data.clone(); t.private_tape = vec![0; 4]; }
            let r = g.run(&s.0, &t);
            l.add("states", 1 + depth as u64); l.add("transitions", 1 + depth as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
            l.outcome(format!("pos {}", m.pos));
            if r.log != m.out { ctx.violation(format!("tape:{size}:{kind}:{hist:?}"), json!({"tape_bytes": data, "history": format!("{hist:?}"), "log": r.log, "expected": m.out, "end": format!("{:?}", r.end)})); }
        });
    }
    // B: both global tapes interleaved, through mozak_sdk::read and input_tape_len
    let depth = ctx.pick(4usize, 5);
    let ops: Vec<(u8, u32)> = vec![(0, 1), (0, 2), (0, 7), (1, 1), (1, 3), (1, 0), (5, 0), (5, 1)];
    ctx.par("global", ops.len().pow(depth as u32), |i, l| {
        let mut k = i;
        let (a, b): (Vec<u8>, Vec<u8>) = ((0..5).map(|x| 0x10 + x).collect(), (0..4).map(|x| 0x20 + x).collect());
        let mut ms = [Model { data: &a, pos: 0, out: vec![] }, Model { data: &b, pos: 0, out: vec![] }];
        let (mut s, mut want, mut hist) = (Script::default(), vec![], vec![]);
        for _ in 0..depth {
            let (t, n) = ops[k % ops.len()]; k /= ops.len();
            hist.push((t, n));
            if t == 5 { s = s.b(5).b(n as u8); want.extend((ms[n as usize].data.len() as u32).to_le_bytes()); continue; }
            s = s.b(1).b(t).w(n);
            let m = &mut ms[t as usize];
            m.op(Op::Read(n)); want.append(&mut m.out);
        }
        want.push(0xFF);
        let r = g.run(&s.b(0).0, &plain_tapes(&a, &b));
        l.add("states", 1 + depth as u64); l.add("transitions", depth as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        if r.log != want || !r.halted() { ctx.violation(format!("global:{hist:?}"), json!({"history": format!("{hist:?}"), "log": r.log, "expected": want, "end": format!("{:?}", r.end)})); }
    });
    // C: larger tapes, around the sizes where lengths and places change representation
    let sizes: Vec<u32> = ctx.pick(vec![127, 128, 255, 256, 257, 1000], (1..=300).chain([1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537]).collect());
    ctx.par("large", sizes.len() * 2, |i, l| {
        let (n, own) = (sizes[i / 2], i % 2);
        let data: Vec<u8> = (0..n).map(|x| (x ^ x >> 8) as u8).collect();
        let mut m = Model { data: &data, pos: 0, out: vec![] };
        let mut s = Script::default();
        let ops = [Op::Read(n - 1), Op::Read(2), Op::Current(-2), Op::Read(5), Op::End(-i64::from(n)), Op::Read(1), Op::Start(u64::from(n / 2)), Op::Read(n)];
        for t in [0u8, 1] {
            if own == 1 { s = s.b(2).b(t).w(n); m.pos = 0; } else { s = s.b(5).b(t); m.out.extend(n.to_le_bytes()); m.pos = 0; }
            for o in ops {
                if own == 1 { s = enc(s, o, t); m.op(o); } else if let Op::Read(k) = o { s = s.b(1).b(t).w(k); m.op(o); }
            }
        }
        m.out.push(0xFF);
        let mut t = plain_tapes(&data, &data);
        if own == 1 { t.private_tape = data.clone(); t.public_tape = data.clone(); }
        let mut g = g.clone();
        g.limit = 60_000_000;
        let r = g.run(&s.b(0).0, &t);
        l.add("states", 8); l.add("transitions", 16); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        if r.log != m.out { ctx.violation(format!("large:{n}:{own}"), json!({"size": n, "own_tape": own, "what": "log differs", "at": r.log.iter().zip(&m.out).position(|(a, b)| a != b), "lengths": [r.log.len(), m.out.len()], "end": format!("{:?}", r.end)})); }
    });
    ctx.info("bounds", "every history of reads (0, 1, 2, more than there is) and seeks (from start, end and current position, inside, at and beyond both ends) up to the depth, for tape sizes 0..=5 (9 thorough), both tapes; interleavings of both global tapes");
    ctx.info("oracle", "a cursor over the tape's bytes, std::io::Read/Seek semantics with seeks beyond the end stopping there");
    ctx.info("exhaustive", true);
}

pub fn k06(ctx: &Ctx) {
    let g = guest("driver");
    let reqs: Vec<(u32, u32)> = {
        let mut v = vec![];
        for a in [1u32, 2, 4, 8, 16, 64, 4096] { for n in [0u32, 1, 3, 8, 13, 64, 4097, 1 << 20] { v.push((n, a)); } }
        for n in [0x7FFF_FFF0u32, 0x6000_0000, 0x3FFF_FFFF] { v.push((n, 1)); v.push((n, 16)); }
        v.push((1, 1 << 30));
        v
    };
    let tapes = plain_tapes(&[], &[]);
    // where the program's own memory ends
    let end = g.p.rw_memory.0.keys().chain(g.p.ro_memory.0.keys()).copied().filter(|a| *a < SCRIPT).max().unwrap();
    let depth = ctx.pick(2u32, 3);
    let n = reqs.len().pow(depth);
    ctx.par("alloc", n, |i, l| {
        let mut k = i;
        let hist: Vec<(u32, u32)> = (0..depth).map(|_| { let r = reqs[k % reqs.len()]; k /= reqs.len(); r }).chain([(5, 4)]).collect();
        let mut s = Script::default();
        for (n, a) in &hist { s = s.b(9).w(*n).w(*a); }
        let r = g.run(&s.b(0).0, &tapes);
        let ptrs = r.words();
        l.add("states", 1 + hist.len() as u64); l.add("transitions", hist.len() as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        let mut held: Vec<(u64, u64)> = vec![];
        let mut bad = String::new();
        for (j, (n, a)) in hist.iter().enumerate() {
            let Some(p) = ptrs.get(j).copied() else { bad = format!("no answer to request {j}: {:?}", r.end); break };
            if p == 0 {
                // refusing is right only if there is no room below the stack
                let used = held.iter().map(|h| h.1).max().unwrap_or(u64::from(end)) + 4096;
                if (used.next_multiple_of(u64::from(*a)) + u64::from(*n)) < 0xFC00_0000 { bad = format!("request {j} refused although there is room"); }
                l.outcome("null");
                continue;
            }
            let (lo, hi) = (u64::from(p), u64::from(p) + u64::from(*n));
            if p % a != 0 { bad = format!("request {j}: {p:#x} is not aligned to {a}"); }
            if hi > 1 << 32 { bad = format!("request {j}: {p:#x}+{n:#x} exceeds the address space"); }
            if p <= end { bad = format!("request {j}: {p:#x} lies in the program, which ends at {end:#x}"); }
            if *n > 0 {
                if let Some(h) = held.iter().find(|h| h.0 < hi && lo < h.1) { bad = format!("request {j}: {lo:#x}..{hi:#x} overlaps {h:x?}"); }
                held.push((lo, hi));
            }
            l.outcome("placed");
        }
        if !bad.is_empty() { ctx.violation(format!("alloc:{hist:?}"), json!({"requests (size, alignment)": hist, "answers": ptrs, "what": bad})); }
    });
    // allocating, reallocating and freeing: live blocks are disjoint and keep their contents
    let ops: Vec<(u8, u8, u32, u32)> = (0..2u8).flat_map(|t| [(0, t, 5, 1), (0, t, 24, 16), (1, t, 12, 4), (1, t, 0, 1), (2, t, 30, 0), (2, t, 3, 0), (3, t, 0, 0)]).collect();
    let depth2 = ctx.pick(4u32, 5);
    ctx.par("heap", ops.len().pow(depth2), |i, l| {
        let mut k = i;
        let mut live = [false; 2];
        let mut hist = vec![];
        for _ in 0..depth2 {
            let o = ops[k % ops.len()]; k /= ops.len();
            let t = o.1 as usize;
            // blocks that are overwritten in their slot, and operations on none, add nothing
            if (o.0 < 2) == live[t] || o.0 == 2 && o.2 == 0 { return; }
            if o.0 == 3 { live[t] = false; } else { live[t] = true; }
            hist.push(o);
        }
        let s = hist.iter().fold(Script::default().b(22).b(hist.len() as u8), |s, o| s.b(o.0).b(o.1).w(o.2).w(o.3));
        let r = g.run(&s.b(0).0, &tapes);
        l.add("states", 1 + hist.len() as u64); l.add("transitions", hist.len() as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        let mut blocks: [Option<(u64, u64, u64)>; 2] = [None; 2];
        let mut bad = String::new();
        if !r.halted() || r.log.len() != 5 * hist.len() + 1 { bad = format!("ends with {:?}", r.end); }
        for (j, o) in hist.iter().enumerate() {
            if !bad.is_empty() { break; }
            let c = &r.log[5 * j..5 * j + 5];
            let p = u64::from(u32::from_le_bytes(c[..4].try_into().unwrap()));
            let t = o.1 as usize;
            if c[4] != 1 { bad = format!("step {j}: contents of a block changed, or not zeroed"); }
            if o.0 == 3 { blocks[t] = None; continue; }
            let align = if o.0 == 2 { blocks[t].unwrap().2 } else { u64::from(o.3) };
            if p % align != 0 { bad = format!("step {j}: {p:#x} is not aligned to {align}"); }
            if o.2 > 0 && p <= u64::from(end) { bad = format!("step {j}: {p:#x} lies in the program"); }
            blocks[t] = Some((p, p + u64::from(o.2), align));
            if let [Some(a), Some(b)] = blocks { if a.0 < b.1 && b.0 < a.1 { bad = format!("step {j}: blocks overlap"); } }
            l.outcome(format!("kind {}", o.0));
        }
        if !bad.is_empty() { ctx.violation(format!("heap:{hist:?}"), json!({"operations (kind, slot, size, alignment)": hist, "log": r.log, "what": bad})); }
    });
    // values survive growth
    let upto = ctx.pick(60u32, 300);
    ctx.par("grow", upto as usize, |i, l| {
        let r = g.run(&Script::default().b(19).w(i as u32).b(0).0, &tapes);
        l.add("states", 1); l.add("transitions", 1); l.add("vm_steps", r.steps);
        if r.log != [1, 0, 0, 0, 0xFF] || !r.halted() { ctx.violation(format!("grow:{i}"), json!({"pushes": i, "what": "vectors growing side by side lost their contents", "log": r.log, "end": format!("{:?}", r.end)})); }
    });
    ctx.info("bounds", format!("every sequence of {depth} requests over {} size/alignment pairs up to 2^31, followed by a small one; every history of {depth2} allocations, zeroed allocations, reallocations and frees in two slots; growth of interleaved vectors to {upto} elements", reqs.len()));
    ctx.info("oracle", "placed blocks are aligned, above the program, inside the address space and pairwise disjoint; a request is refused only if there is no room");
    ctx.info("exhaustive", true);
}

pub fn k10(ctx: &Ctx) {
    let g = guest("driver");
    let ns = guest("nostd");
    // an ending operation, after a prefix of harmless ones: panics must stop, the rest must halt
    let fatal: Vec<(&str, Vec<u8>)> = vec![
        ("panic!", Script::default().b(15).0), ("index 3 of 3", Script::default().b(16).w(3).0), ("index max", Script::default().b(16).w(u32::MAX).0),
        ("unwrap None", Script::default().b(17).w(5).w(0).0), ("hash from short vector", Script::default().b(18).b(31).0), ("hash from long vector", Script::default().b(18).b(33).0),
        ("abort", Script::default().b(21).0), ("no_pad of 7 bytes", Script::default().b(11).blob(&[1; 7]).0), ("event off the tape", Script::default().b(8).b(0).raw(&[0; 40]).w(0).0),
        ("send off the tape", Script::default().b(6).b(0).raw(&[1; 32]).w(5).0), ("foreign object", Script::default().b(20).raw(&[1; 32]).b(2).raw(&[1; 32]).raw(&[2; 32]).0),
        ("division by zero layout", Script::default().b(9).w(1).w(3).0), ("bad opcode", vec![99]),
    ];
    let fine: Vec<(&str, Vec<u8>)> = vec![
        ("nothing", vec![]), ("index 0", Script::default().b(16).w(0).0), ("index 2", Script::default().b(16).w(2).0), ("divide", Script::default().b(17).w(7).w(2).0),
        ("hash from vector", Script::default().b(18).b(32).0), ("read", Script::default().b(1).b(0).w(3).0), ("receive nothing", Script::default().b(7).b(0).0),
        ("own objects", Script::default().b(20).raw(&[1; 32]).b(2).raw(&[1; 32]).raw(&[1; 32]).0), ("output", Script::default().b(14).blob(&[9, 8, 7]).0), ("hash", Script::default().b(10).blob(b"abc").0),
    ];
    let all: Vec<(bool, &str, &Vec<u8>)> = fatal.iter().map(|(n, s)| (true, *n, s)).chain(fine.iter().map(|(n, s)| (false, *n, s))).collect();
    let depth = ctx.pick(3u32, 4);
    let tapes = plain_tapes(&[1, 2, 3, 4, 5], &[6, 7]);
    ctx.par("panic", all.len().pow(depth), |i, l| {
        let mut k = i;
        let seq: Vec<_> = (0..depth).map(|_| { let o = all[k % all.len()]; k /= all.len(); o }).collect();
        // what comes after a fatal operation does not matter: explore one continuation each
        let first = seq.iter().position(|o| o.0);
        if let Some(f) = first { if seq[f + 1..].iter().any(|o| o.1 != "nothing") { return; } }
        let mut s = vec![];
        for o in &seq { s.extend(o.2); }
        s.push(0);
        let r = g.run(&s, &tapes);
        l.add("states", 1 + u64::from(depth)); l.add("transitions", u64::from(depth)); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        l.outcome(match &r.end { End::Halted => "halted".into(), End::Limit => "limit".to_string(), End::Refused(e) => format!("refused: {}", e.split(&[':', '/'][..]).next().unwrap_or("")) });
        let names: Vec<_> = seq.iter().map(|o| o.1).collect();
        // the first byte that was output is the exit code
        let code = if seq.iter().any(|o| o.1 == "output") { 9 } else { 0 };
        let ok = match first { Some(_) => matches!(r.end, End::Refused(_)), None => r.halted() && r.log.last() == Some(&0xFF) && r.last.get_register_value(11) == code };
        if !ok { ctx.violation(format!("panic:{names:?}"), json!({"operations": names, "expected": if first.is_some() { "the run is refused" } else { "the run halts" }, "end": format!("{:?}", r.end), "steps": r.steps})); }
    });
    // guests without std
    let cases: Vec<([u32; 3], bool)> = {
        let mut v = vec![];
        for n in 0..20u32 {
            v.push(([0, n, 0], true));
            v.push(([1, n, 0], n == 7));
            for x in [0, 1, 6, 7, 19, 20, u32::MAX] { v.push(([2, n, x], x < n)); v.push(([3, n, x], x != 0)); }
            if n > 0 { v.push(([4, n, 0], true)); v.push(([5, n, 3], true)); } else { v.push(([5, n, 3], false)); }
        }
        v
    };
    ctx.par("nostd", cases.len(), |i, l| {
        let (c, fine) = cases[i];
        let script: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
        let r = ns.run(&script, &tapes);
        l.add("states", 1); l.add("transitions", 1); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        let done = r.last.load_u32(LOG) == 2;
        let ok = if fine { r.halted() && done } else { matches!(r.end, End::Refused(_)) && !done };
        if !ok { ctx.violation(format!("nostd:{c:?}"), json!({"script": c, "expected": if fine {"halts"} else {"refused"}, "end": format!("{:?}", r.end)})); }
    });
    ctx.info("bounds", format!("every sequence of up to {depth} operations over {} harmless and {} panicking ones (std guest), plus {} runs of a guest without std", fine.len(), fatal.len(), cases.len()));
    ctx.info("oracle", "a run with a panicking operation is refused by the VM; any other halts and has executed to its end");
    ctx.info("exhaustive", true);
}
