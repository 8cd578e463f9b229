//! E02: the counter and the input tape example, and the examples without input.
use mc::{guard, Ctx};
use mozak_runner::state::RawTapes;
use serde_json::json;

use crate::native::*;
use crate::vm::{guest, prefixed, End};
use crate::world::*;

const KINDS: [&[u8]; 2] = [&[1, 2], &[6, 7]];

fn counter(start: u64, ups: &[bool]) -> World {
    let mut w = World::default();
    let mut n = start;
    for up in ups {
        let m = if *up { n.wrapping_add(1) } else { n.wrapping_sub(1) };
        let of = |n: u64| Obj { addr: 0x77, owner: 1, data: n.to_le_bytes().to_vec() };
        w.calls.push(Call { caller: 0, callee: 1, arg: Arg::Count { up: *up, obj: of(n) }, ret: Ret::Count { what: if *up { 1 } else { 2 }, obj: of(m) } });
        let e = w.events.entry(1).or_default();
        e.push((2, of(n)));
        e.push((0, of(m)));
        n = m;
    }
    w
}

pub fn e02(c: &Ctx) {
    c.assume("messages of another type than the callee expects are undefined (rkyv access is unchecked) and not used");
    let (count, input) = (guest("counter-mozakvm"), guest("inputtape-mozakvm"));
    let mut worlds: Vec<(String, World)> = vec![];
    for start in [0, 1, 2, 0xFF, 0xFFFF_FFFF, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX] {
        for len in 0..=c.pick(3u32, 5) { for ups in 0..1u32 << len {
            let ups: Vec<bool> = (0..len).map(|k| ups >> k & 1 == 1).collect();
            worlds.push((format!("counter from {start:#x}: {ups:?}"), counter(start, &ups)));
        } }
    }
    // natively: as in the VM, and where it ends in the VM
    {
        let _x = exclusive();
        for (name, w) in &worlds {
            reset();
            let r = guard(|| for call in &w.calls {
                let Arg::Count { up, obj } = &call.arg else { unreachable!() };
                let a = if *up { counter_core_logic::MethodArgs::IncreaseCounter(obj.sdk()) } else { counter_core_logic::MethodArgs::DecreaseCounter(obj.sdk()) };
                let _ = mozak_sdk::call_send(pid(1), a, counter_core_logic::dispatch);
            });
            c.add("states", 1); c.add("transitions", w.calls.len() as u64);
            let (got, want) = (tape(), w.tape());
            let ok = if w.accepts(1) { r.is_ok() && got.call_tape.writer == want.call_tape.writer && got.event_tape.writer.get(&pid(1)).map(|e| e.get_canonical_order_temporal_hints()) == want.event_tape.writer.get(&pid(1)).map(|e| e.get_canonical_order_temporal_hints()) } else { r.is_err() };
            c.check(ok, || format!("native:{name}"), || json!({"case": name, "panicked": r.err()}));
        }
    }
    for (n, m) in [(1usize, 32usize), (2, 32), (1, 0), (1, 31), (1, 33), (0, 32)] { for d in [0u8, 1, 255] {
        let mut w = World::default();
        for _ in 0..n { w.calls.push(Call { caller: 0, callee: 6, arg: Arg::Inputs, ret: Ret::Unit }); }
        let a: Vec<u8> = (0..m).map(|b| (b as u8).wrapping_mul(37).wrapping_add(d)).collect();
        w.private.insert(6, a.iter().map(|x| x.wrapping_add(1)).collect());
        w.public.insert(6, a);
        worlds.push((format!("{n} times {m} bytes of input from {d}"), w));
    } }
    c.par("transactions", worlds.len(), |i, l| {
        let (base_name, base) = &worlds[i];
        let mut all = vec![("as it is".to_string(), base.clone())];
        if base.calls.len() <= c.pick(2, 3) { all.extend(base.edits(&KINDS, !c.quick() || i < 2)); }
        for (name, w) in all {
            for me in [1u8, 6] {
                if !base.programs().contains(&me) && !w.programs().contains(&me) { continue; }
                let want = w.accepts(me);
                let (end, steps) = run(if me == 1 { &count } else { &input }, &w, me);
                l.add("states", 1); l.add("transitions", w.calls.len() as u64); l.add("vm_steps", steps); l.add("traces_validated_against_impl", 1);
                l.outcome(format!("{} {}", if me == 1 { "counter" } else { "inputtape" }, if want { "accepts" } else { "refuses" }));
                let ok = if want { end == End::Halted } else { matches!(end, End::Refused(_)) };
                if !ok { c.violation(format!("{base_name}:{name}:{me}"), json!({"case": base_name, "variation": name, "program": me, "expected": if want { "accepted" } else { "refused" }, "end": format!("{end:?}"), "calls": format!("{:?}", w.calls), "events": format!("{:?}", w.events)})); return; }
            }
        }
    });
    // programs without calls: they end well, whatever the tapes; only `panic` does not
    let plain = ["empty", "bss-tester", "min-max", "static-mem-access", "memory-access", "fibonacci", "rkyv-serialization", "vector-alloc", "panic"];
    let sizes: Vec<u32> = c.pick(vec![0, 1, 7, 256, 4096], (0..64).chain([255, 256, 1000, 1 << 14, 1 << 16, 1 << 18]).collect());
    c.par("plain", plain.len() * sizes.len(), |i, l| {
        let (name, n) = (plain[i / sizes.len()], sizes[i % sizes.len()]);
        // vector-alloc takes its size from the public tape; the others read nothing
        let t = RawTapes { public_tape: n.to_le_bytes().to_vec(), private_tape: vec![n as u8; (n % 5) as usize], call_tape: prefixed(&[0; 8]), event_tape: prefixed(&[0; 8]), ..Default::default() };
        let g = guest(&format!("{name}-mozakvm"));
        let r = g.run(&[], &t);
        l.add("states", 1); l.add("transitions", 1); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        l.outcome(format!("{name} {:?}", r.end == End::Halted));
        let ok = if name == "panic" { matches!(r.end, End::Refused(_)) } else { r.end == End::Halted };
        if !ok { c.violation(format!("plain:{name}:{n}"), json!({"program": name, "input": n, "end": format!("{:?}", r.end)})); }
    });
    c.info("bounds", "the counter from 9 edge values with all sequences of up to 3 (5) calls; the input tapes in all lengths around 32; each with every single change of a call, argument, return value, event and input; the examples without input, vector-alloc with several sizes");
    c.info("oracle", "what each program has to have done, from the calls, events and inputs on the tapes (world.rs)");
    c.info("exhaustive", true);
}
