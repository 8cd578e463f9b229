//! Event tapes: canonical order, hints, commitment; guest replay.
use mc::{guard, Ctx};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::*;
use serde_json::json;

use crate::native::*;
use crate::vm::*;

pub fn event(ty: u8, addr: u64, owner: u8, data: &[u8]) -> Event {
    let type_ = match ty { 0 => EventType::Write, 1 => EventType::Ensure, 2 => EventType::Read, 3 => EventType::GiveOwner, _ => EventType::TakeOwner };
    Event { type_, object: StateObject { address: StateAddress(addr.to_le_bytes()), constraint_owner: pid(owner), data: data.to_vec() } }
}
pub fn put_event(s: Script, e: &Event) -> Script {
    s.b(e.type_ as u8).raw(&e.object.address.0).raw(&e.object.constraint_owner.0 .0).blob(&e.object.data)
}
pub fn alphabet() -> Vec<Event> {
    vec![
        event(0, 1, 1, b""), event(1, 1, 1, b"x"), event(2, 1, 2, b""), event(3, 0x100, 1, b"abcdefg"), event(4, 0x100, 1, b"abcdefgh"),
        event(2, 1 << 63, 1, b"y"), event(0, u64::MAX, 1, &[7; 20]), event(0, 1, 1, b"x"), event(2, 0x0102_0304_0506_0708, 3, b"z"), event(1, 0x0801_0000_0000_0001, 3, b"z"),
    ]
}

pub fn k02(ctx: &Ctx) {
    let al = alphabet();
    let depth = ctx.pick(4usize, 5);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to { for a in 0..al.len() { let mut s = seqs[i].clone(); s.push(a); seqs.push(s); } }
        from = to;
    }
    // native: order, hints and commitment of every history
    ctx.par("order", seqs.len(), |i, l| {
        let evs: Vec<Event> = seqs[i].iter().map(|k| al[*k].clone()).collect();
        let canon: Vec<Canon> = evs.iter().map(Canon::of).collect();
        l.add("states", 1); l.add("transitions", evs.len() as u64);
        let fail = |what: String| ctx.violation(format!("order:{:?}", seqs[i]), json!({"events": format!("{evs:?}"), "what": what}));
        let r = guard(|| { let o = mozak_sdk_events(&evs); (o.get_canonical_order_temporal_hints(), o.get_temporal_order_canonical_hints(), o.canonical_hash()) });
        let (hints, temporal, hash) = match r { Ok(x) => x, Err(m) => { fail(m); return; } };
        let listed: Vec<Canon> = hints.iter().map(|h| Canon::from_sdk(&h.0)).collect();
        if !listed.windows(2).all(|w| w[0].addr <= w[1].addr) { fail("canonical order is not by ascending address".into()); return; }
        let (mut a, mut b) = (listed.clone(), canon.clone());
        a.sort(); b.sort();
        if a != b { fail("canonical list is not a permutation of the events".into()); return; }
        if listed != b { fail("canonical order depends on more than address, type and value".into()); return; }
        let mut seen = vec![false; canon.len()];
        for (t, h) in hints.iter().enumerate() {
            let k = h.1 as usize;
            if k >= listed.len() || seen[k] || listed[k] != canon[t] { fail(format!("hint of event {t} is {k}")); return; }
            seen[k] = true;
        }
        // the other direction: temporal order with, at each canonical place, where the event was
        let mut seen = vec![false; canon.len()];
        if temporal.len() != canon.len() || temporal.iter().enumerate().any(|(t, (e, _))| Canon::of(e) != canon[t] || *e != evs[t]) { fail("temporal order changed".into()); return; }
        for (c, (_, k)) in temporal.iter().enumerate() {
            let k = *k as usize;
            if k >= canon.len() || seen[k] || canon[k] != listed[c] { fail(format!("canonical hint at {c} is {k}")); return; }
            seen[k] = true;
        }
        if hash != event_commitment(canon) { fail("commitment is not the root of the address-keyed tree".into()); }
        l.outcome(format!("{:02x?}", &hash.0[..2]));
    });
    // long histories: many events, in every rotation of several orders
    let g = guest("driver");
    let lens: Vec<usize> = ctx.pick(vec![17, 255, 256, 257], (6..=64).chain([255, 256, 257, 511, 1000]).collect());
    let orders: [fn(usize, usize) -> u64; 5] = [|k, _| k as u64, |k, n| (n - k) as u64, |k, n| ((k * 7 + 3) % n) as u64, |k, _| (k as u64) << 56 | (k as u64 / 3), |k, _| (k % 4) as u64];
    ctx.par("long", lens.len() * orders.len(), |i, l| {
        let (n, f) = (lens[i / orders.len()], orders[i % orders.len()]);
        let evs: Vec<Event> = (0..n).map(|k| event((k % 5) as u8, f(k, n), 1 + (k % 3) as u8, &[k as u8; 3])).collect();
        let canon: Vec<Canon> = evs.iter().map(Canon::of).collect();
        let mut sorted = canon.clone();
        sorted.sort();
        let commit = event_commitment(canon.clone());
        l.add("states", n as u64); l.add("transitions", n as u64);
        let fail = |what: String| ctx.violation(format!("long:{n}:{}", i % orders.len()), json!({"events": n, "order": i % orders.len(), "what": what}));
        let (hints, hash) = match guard(|| { let o = mozak_sdk_events(&evs); (o.get_canonical_order_temporal_hints(), o.canonical_hash()) }) { Ok(x) => x, Err(m) => { fail(m); return; } };
        if hints.iter().map(|h| Canon::from_sdk(&h.0)).collect::<Vec<_>>() != sorted { fail("canonical order".into()); return; }
        if hints.iter().enumerate().any(|(t, h)| sorted.get(h.1 as usize) != Some(&canon[t])) { fail("hints".into()); return; }
        if hash != commit { fail("commitment".into()); return; }
        let s = evs.iter().fold(Script::default(), |s, e| put_event(s.b(8), e));
        let mut t = plain_tapes(&[], &[]);
        t.event_tape = prefixed(&bytes(&hints));
        t.events_commitment_tape = commit.0;
        let mut g = g.clone();
        g.limit = 100_000_000;
        for (want, t) in [(true, t.clone()), (false, { let mut t = t; t.events_commitment_tape[n % 32] ^= 1; t })] {
            let r = g.run(&s.clone().b(0).0, &t);
            l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
            if r.halted() != want || r.log.len() != n + 1 || r.end == End::Limit { fail(format!("guest: expected {}, got {:?} after {} of {n}", if want { "to halt" } else { "a refusal" }, r.end, r.log.len())); return; }
        }
    });
    // guest: every history replayed; every tampering with tape, hints, commitment or behaviour refused
    let gd = ctx.pick(3usize, 4);
    let short: Vec<&Vec<usize>> = seqs.iter().filter(|s| s.len() <= gd && s.iter().all(|k| *k < if s.len() == 4 { 5 } else if ctx.quick() { 7 } else { 10 })).collect();
    ctx.par("replay", short.len(), |i, l| {
        let evs: Vec<Event> = short[i].iter().map(|k| al[*k].clone()).collect();
        let n = evs.len();
        let hints = mozak_sdk_events(&evs).get_canonical_order_temporal_hints();
        let commit = event_commitment(evs.iter().map(Canon::of).collect()).0;
        let mut cases: Vec<(String, Vec<Event>, Vec<CanonicalOrderedTemporalHints>, [u8; 32])> = vec![("honest".into(), evs.clone(), hints.clone(), commit)];
        for k in 0..n {
            let mut e = evs.clone(); e.remove(k); cases.push((format!("guest omits {k}"), e, hints.clone(), commit));
            let mut e = evs.clone(); e.insert(k, evs[k].clone()); cases.push((format!("guest repeats {k}"), e, hints.clone(), commit));
            let mut e = evs.clone(); e[k].object.data.push(0); cases.push((format!("guest value {k}"), e, hints.clone(), commit));
            let mut e = evs.clone(); e[k].object.address.0[7] ^= 1; cases.push((format!("guest address {k}"), e, hints.clone(), commit));
            let mut e = evs.clone(); e[k].type_ = event((e[k].type_ as u8 + 1) % 5, 0, 0, &[]).type_; cases.push((format!("guest type {k}"), e, hints.clone(), commit));
            for j in k + 1..n { let mut e = evs.clone(); e.swap(k, j); cases.push((format!("guest order {k}{j}"), e, hints.clone(), commit)); }
            for j in 0..n { let mut h = hints.clone(); h[k].1 = j as u32; cases.push((format!("hint {k}={j}"), evs.clone(), h, commit)); }
            let mut h = hints.clone(); h[k].1 = n as u32; cases.push((format!("hint {k} out of range"), evs.clone(), h, commit));
            let mut h = hints.clone(); h[k].0.address.0[0] ^= 2; cases.push((format!("tape address {k}"), evs.clone(), h, commit));
            let mut h = hints.clone(); h[k].0.value.0[31] ^= 1; cases.push((format!("tape value {k}"), evs.clone(), h, commit));
            let mut h = hints.clone(); h.remove(k); cases.push((format!("tape omits {k}"), evs.clone(), h.clone(), commit));
            cases.push((format!("tape omits {k}, commitment follows"), evs.clone(), h.clone(), event_commitment(h.iter().map(|x| Canon::from_sdk(&x.0)).collect()).0));
            let mut h = hints.clone(); h.push(hints[k]); cases.push((format!("tape adds {k}"), evs.clone(), h.clone(), commit));
            cases.push((format!("tape adds {k}, commitment follows"), evs.clone(), h.clone(), event_commitment(h.iter().map(|x| Canon::from_sdk(&x.0)).collect()).0));
        }
        for b in [0usize, 31] { let mut c = commit; c[b] ^= 0x80; cases.push((format!("commitment byte {b}"), evs.clone(), hints.clone(), c)); }
        for (name, emits, tape, commit) in cases {
            let mut s = Script::default();
            for e in &emits { s = put_event(s.b(8), e); }
            let mut t = plain_tapes(&[], &[]);
            t.event_tape = prefixed(&bytes(&tape));
            t.events_commitment_tape = commit;
            let r = g.run(&s.b(0).0, &t);
            // expected: each emitted event is the hinted one, each place used once, nothing left, commitment of the list
            let list: Vec<Canon> = tape.iter().map(|h| Canon::from_sdk(&h.0)).collect();
            let mut seen = vec![false; list.len()];
            let mut served = 0;
            for (j, e) in emits.iter().enumerate() {
                let Some(h) = tape.get(j) else { break };
                let k = h.1 as usize;
                if k >= list.len() || seen[k] || list[k] != Canon::of(e) { break; }
                seen[k] = true;
                served += 1;
            }
            let root = guard(|| merkleize(list.iter().map(|c| (c.addr, c.hash())).collect()).0);
            let want = served == emits.len() && served == tape.len() && root == Ok(commit);
            l.add("states", 1 + emits.len() as u64); l.add("transitions", emits.len() as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
            l.outcome(if want { "accepted" } else { "refused" });
            let mut log = vec![8; served];
            if served == emits.len() { log.push(0xFF); }
            let ok = if want { r.halted() } else { matches!(r.end, End::Refused(_)) };
            if !ok || r.log != log { ctx.violation(format!("replay:{:?}:{name}", short[i]), json!({"events": format!("{evs:?}"), "case": name, "expected": if want { "accepted" } else { "refused" }, "end": format!("{:?}", r.end), "log": r.log})); return; }
        }
    });
    ctx.info("bounds", format!("every sequence of up to {depth} events over {} events (addresses that order differently as bytes and numbers, equal and duplicate events, all types); long histories (up to 1000) in 5 orders; guest replay of sequences up to {gd} with every single tampering of behaviour, tape, hints and commitment", al.len()));
    ctx.info("oracle", "sorting by numeric address, type, value; recursive definition of the address-keyed Merkle tree; independent sponge; replay accepted exactly when every event is the hinted one, each is used once and the commitment fits");
    ctx.info("exhaustive", true);
}

fn mozak_sdk_events(e: &[Event]) -> mozak_sdk::native::OrderedEvents {
    // pushed one by one, as `event_emit` does
    let mut o = mozak_sdk::native::OrderedEvents::default();
    for x in e { o.push_temporal(x.clone()); }
    o
}
