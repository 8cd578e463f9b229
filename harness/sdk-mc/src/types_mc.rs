//! Hashing and the SDK's types: conversions and encodings.
use std::io::Read;

use mc::{guard, Ctx};
use mozak_sdk::common::types::*;
use mozak_sdk::native::poseidon::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};
use serde_json::json;

use crate::events_mc::{alphabet, event, put_event};
use crate::native::*;
use crate::vm::*;

fn patterns() -> Vec<fn(usize) -> u8> { vec![|_| 0, |_| 0xFF, |k| k as u8 ^ 0x5A, |k| u8::from(k == 0), |k| u8::from(k % 8 == 7) * 0x80] }

pub fn k08(ctx: &Ctx) {
    let g = guest("driver");
    let maxlen = ctx.pick(130usize, 600);
    let pats = patterns();
    ctx.par("hash", (maxlen + 1) * pats.len(), |i, l| {
        let d: Vec<u8> = (0..i / pats.len()).map(pats[i % pats.len()]).collect();
        let want_pad = padded(&d);
        let want = (d.len() % 8 == 0).then(|| if d.is_empty() { Poseidon2Hash::default() } else { sponge(&d) });
        l.add("states", 2); l.add("transitions", 2); l.outcome(format!("{:02x?}", &want_pad.0[..2]));
        let key = || format!("hash:{}:{}", d.len(), i % pats.len());
        if guard(|| poseidon2_hash_with_pad(&d)) != Ok(want_pad) { ctx.violation(key(), json!({"bytes": d, "what": "native padded hash"})); }
        match (guard(|| poseidon2_hash_no_pad(&d)), want) {
            (Ok(h), Some(w)) if h == w => {}
            (Err(_), None) => {}
            (r, w) => ctx.violation(key(), json!({"bytes": d, "what": format!("native unpadded hash {r:?}, expected {w:?}")})),
        }
        // the guest agrees
        let r = g.run(&Script::default().b(10).blob(&d).b(0).0, &plain_tapes(&[], &[]));
        let mut exp = want_pad.0.to_vec(); exp.push(0xFF);
        if r.log != exp || !r.halted() { ctx.violation(key(), json!({"bytes": d, "what": "guest padded hash", "log": r.log, "end": format!("{:?}", r.end)})); }
        let r2 = g.run(&Script::default().b(11).blob(&d).b(0).0, &plain_tapes(&[], &[]));
        l.add("vm_steps", r.steps + r2.steps); l.add("traces_validated_against_impl", 2);
        let ok = match want {
            // hashing nothing: the VM has no permutation to do; refusing is as good as the empty sponge
            Some(_) if d.is_empty() => true,
            Some(w) => { let mut e = w.0.to_vec(); e.push(0xFF); r2.log == e && r2.halted() }
            None => matches!(r2.end, End::Refused(_)) && r2.log.is_empty(),
        };
        if !ok { ctx.violation(key(), json!({"bytes": d, "what": "guest unpadded hash", "log": r2.log, "end": format!("{:?}", r2.end)})); }
    });
    // canonical events: value and hash, natively and in the guest
    let mut evs = alphabet();
    for ty in 0..5 { for b in 0..8 { for d in [0usize, 1, 7, 8, 9, 31, 32] { evs.push(event(ty, 0xA5 << (8 * b), b as u8, &vec![ty + 1; d])); } } }
    ctx.par("canonical", evs.len(), |i, l| {
        let e = &evs[i];
        let (c, w) = (CanonicalEvent::from_event(e), Canon::of(e));
        l.add("states", 1); l.add("transitions", 1);
        let r = g.run(&put_event(Script::default().b(12), e).b(0).0, &plain_tapes(&[], &[]));
        l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        let want = [&w.value[..], &w.hash().0, &[0xFF]].concat();
        if Canon::from_sdk(&c) != w || c.canonical_hash() != w.hash() || r.log != want { ctx.violation(format!("canonical:{i}"), json!({"event": format!("{e:?}"), "what": "canonical form or hash", "native": format!("{c:?}"), "guest": r.log, "expected": want})); }
    });
    ctx.par("two_to_one", 64 * 8, |i, l| {
        let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
        if i % 64 < 32 { a[i % 64] = 1 << (i / 64) } else { b[i % 64 - 32] = 1 << (i / 64) }
        l.add("states", 1);
        if Poseidon2Hash::two_to_one(Poseidon2Hash(a), Poseidon2Hash(b)) != sponge(&[a, b].concat()) { ctx.violation(format!("two:{i}"), json!({"left": a, "right": b, "what": "two_to_one"})); }
    });
    ctx.info("bounds", format!("every length 0..={maxlen} x {} byte patterns, padded and unpadded, natively and in the guest; {} events over all types, address bytes and data lengths around the block size; every single bit of both sides of a node", pats.len(), evs.len()));
    ctx.info("oracle", "independent sponge over the permutation: bit padding (1, then zeros) to blocks of 8; event hash over type (u64), address and value in little endian");
    ctx.info("exhaustive", true);
    ctx.assume("the Poseidon2 permutation is the stand-in in /verif/shims/plonky2");
}

pub fn k07(ctx: &Ctx) {
    // hashes and identifiers: every byte position with every value
    ctx.par("bytes", 32 * 256, |i, l| {
        let mut b = [0x11u8; 32];
        b[i / 256] = i as u8;
        let h = Poseidon2Hash(b);
        l.add("states", 1); l.add("transitions", 9);
        let u: [u64; 4] = std::array::from_fn(|k| (0..8).map(|j| u64::from(b[8 * k + j]) << (8 * j)).sum());
        let p = ProgramIdentifier(h);
        let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
        let r = guard(|| {
            let mut bad = vec![];
            if h.to_u64s() != u { bad.push("to_u64s"); }
            if Poseidon2Hash::from_u64s(u) != h { bad.push("from_u64s"); }
            if Poseidon2Hash::from(u) != h { bad.push("from [u64; 4]"); }
            if Poseidon2Hash::from(b) != h || Poseidon2Hash::from(b.to_vec()) != h { bad.push("from bytes"); }
            if h.inner() != b || p.inner() != b { bad.push("inner"); }
            if format!("{p:?}") != format!("MZK-{hex}") { bad.push("identifier text"); }
            if ProgramIdentifier::from(format!("MZK-{hex}")) != p { bad.push("identifier from text"); }
            if p.is_null_program() { bad.push("null"); }
            let j = serde_json::to_string(&p).unwrap();
            if serde_json::from_str::<ProgramIdentifier>(&j).ok() != Some(p) { bad.push("json"); }
            bad
        });
        if r != Ok(vec![]) { ctx.violation(format!("bytes:{i}"), json!({"bytes": b, "what": format!("{r:?}")})); }
    });
    ctx.check(ProgramIdentifier::default().is_null_program(), || "null".into(), || json!({"what": "the default identifier is the null program"}));
    // malformed identifiers and lengths are refused
    for n in 0..80usize {
        ctx.add("states", 2);
        let r = guard(|| ProgramIdentifier::from(format!("MZK-{}", "a".repeat(n))));
        ctx.check(r.is_ok() == (n == 64), || format!("text:{n}"), || json!({"hex_digits": n, "what": "identifier text of this length"}));
        let r = guard(|| Poseidon2Hash::from(vec![1u8; n]));
        ctx.check(r.is_ok() == (n == 32), || format!("vec:{n}"), || json!({"bytes": n, "what": "hash from this many bytes"}));
    }
    for t in ["", "MZK", "MZK-", "mzk-1111111111111111111111111111111111111111111111111111111111111111", "MZK-1111-1111", "MZQ-1111111111111111111111111111111111111111111111111111111111111111", "MZK-g111111111111111111111111111111111111111111111111111111111111111"] {
        ctx.check(guard(|| ProgramIdentifier::from(t.to_string())).is_err(), || format!("text:{t}"), || json!({"text": t, "what": "accepted as identifier"}));
    }
    // owners
    for n in 0..=3usize { for m in 0..1usize << n {
        let os: Vec<StateObject> = (0..n).map(|k| event(0, 1, if m >> k & 1 == 1 { 1 } else { 2 }, b"").object).collect();
        ctx.add("states", 1);
        ctx.check(guard(|| pid(1).ensure_constraint_owner_similarity(os.iter())).is_ok() == (m == (1 << n) - 1), || format!("owner:{n}:{m}"), || json!({"what": "owner similarity"}));
    } }
    // the whole system tape: written to disk by the SDK, read back, same tapes for every program
    let al = alphabet();
    let d = std::env::temp_dir().join(format!("k07-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let back = std::env::current_dir().unwrap();
    std::env::set_current_dir(&d).unwrap();
    let res = guard(|| {
        let n = ctx.pick(3usize, 4);
        for i in 0..al.len().pow(n as u32).min(ctx.pick(1000, 10000)) {
            let _x = exclusive();
            let mut k = i;
            for j in 0..n {
                let e = k % al.len(); k /= al.len();
                mozak_sdk::add_identity(pid((e % 3) as u8 + 1));
                mozak_sdk::event_emit(al[e].clone());
                mozak_sdk::write(&mozak_sdk::InputTapeType::PrivateTape, &al[e].object.data).unwrap();
                mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[j as u8; 3][..e % 4]).unwrap();
                let _: u32 = mozak_sdk::call_send(pid(4), e as u32, |x: u32| x + 1);
                mozak_sdk::rm_identity();
            }
            mozak_sdk::native::dump_proving_files();
            let mut s = String::new();
            std::fs::File::open("out/tape.json").unwrap().read_to_string(&mut s).unwrap();
            ctx.add("states", 1); ctx.add("transitions", 1);
            let orig = tape();
            let Ok(read) = serde_json::from_str::<SystemTape>(&s) else { ctx.violation(format!("json:{i}"), json!({"what": "cannot be read back", "json": s})); return };
            for p in 0..=4 {
                let (a, b) = (raw_tapes(&orig, pid(p)), raw_tapes(&read, pid(p)));
                if (a.private_tape, a.public_tape, a.call_tape, a.event_tape, a.events_commitment_tape, a.cast_list_commitment_tape) != (b.private_tape, b.public_tape, b.call_tape, b.event_tape, b.events_commitment_tape, b.cast_list_commitment_tape) {
                    ctx.violation(format!("json:{i}:{p}"), json!({"what": "tapes of this program differ after writing and reading", "json": s})); return;
                }
            }
        }
    });
    std::env::set_current_dir(back).unwrap();
    let _ = std::fs::remove_dir_all(&d);
    if let Err(m) = res { ctx.violation("json:panic", json!({"what": m})); }
    // archived forms: what the host serialises is what is read back
    for e in &al {
        let c = CanonicalEvent::from_event(e);
        let v = vec![CanonicalOrderedTemporalHints(c, 7), CanonicalOrderedTemporalHints(CanonicalEvent::default(), u32::MAX)];
        let b = bytes(&v);
        let a = unsafe { rkyv::access_unchecked::<Vec<CanonicalOrderedTemporalHints>>(&b) };
        let r: Vec<CanonicalOrderedTemporalHints> = rkyv::Deserialize::deserialize(a, rkyv::rancor::Strategy::<_, rkyv::rancor::Panic>::wrap(&mut ())).unwrap();
        ctx.add("states", 1);
        ctx.check(r == v, || format!("rkyv:{c:?}"), || json!({"what": "archived hints differ"}));
    }
    ctx.info("bounds", "every value of every byte of hashes and identifiers; every text length below 80; owner patterns of up to 3 objects; system tapes of up to 3 (4) groups of event, input and call written to disk and read back");
    ctx.info("oracle", "little-endian words, lower-case hex with the MZK- prefix, identity of encode and decode");
    ctx.info("exhaustive", true);
}
