//! E01: a token moves with its owner's key, and exactly as it is told.
use mc::{guard, Ctx};
use serde_json::json;

use crate::native::*;
use crate::vm::{guest, End};
use crate::world::*;

pub const KINDS: [&[u8]; 2] = [&[1, 2], &[3, 4, 5]];
fn secret(i: u8) -> Key { std::array::from_fn(|b| (b as u8).wrapping_mul(31) ^ i.wrapping_mul(77) ^ 0x80) }
fn public(i: u8) -> Key { sponge(&secret(i)).0 }

/// One transfer: of which token program, which object, through which wallets, to whose key.
#[derive(Clone, Copy, Debug)]
struct Step { token: u8, obj: usize, from: u8, to: u8, key: u8 }

/// The transaction as it has to be, and the private keys left with the wallets.
fn world(amounts: &[u64], steps: &[Step]) -> World {
    let mut w = World::default();
    let mut state: Vec<(u8, u64)> = amounts.iter().enumerate().map(|(i, a)| (i as u8, *a)).collect();
    for s in steps {
        let (owner, amount) = state[s.obj];
        let tok = Tok { pk: public(owner), amount };
        let obj = Obj::of(0x100 + (s.obj as u64) * 0x8000_0000_0000_0001, s.token, tok);
        w.calls.push(Call { caller: 0, callee: s.token, arg: Arg::Transfer { obj: obj.clone(), from: s.from, to: s.to, pk: public(s.key) }, ret: Ret::Unit });
        w.calls.push(Call { caller: s.token, callee: s.from, arg: Arg::Approve { pk: public(owner), from: s.from, to: s.to, tok }, ret: Ret::Unit });
        w.private.entry(s.from).or_default().extend(secret(owner));
        let e = w.events.entry(s.token).or_default();
        e.push((2, obj.clone()));
        e.push((0, Obj::of(obj.addr, obj.owner, Tok { pk: public(s.key), amount })));
        state[s.obj].0 = s.key;
    }
    w
}

pub fn e01(c: &Ctx) {
    c.assume("messages of another type than the callee expects are undefined (rkyv access is unchecked) and not used");
    let (token, wallet) = (guest("token-mozakvm"), guest("wallet-mozakvm"));
    let mut txs: Vec<(Vec<u64>, Vec<Step>)> = vec![];
    let st = |token, obj, from, to, key| Step { token, obj, from, to, key };
    for a in [0, 1, 100, u64::MAX, 1 << 63, 0x0102_0304_0506_0708] { for from in [3, 4] { txs.push((vec![a], vec![st(1, 0, from, 5, 2)])); } }
    txs.push((vec![7], vec![st(1, 0, 3, 3, 0)])); // to oneself
    // two and three transfers: of one object or two, by one token program or two, through one wallet or two
    let mut one = vec![];
    for token in [1, 2] { for obj in [0, 1] { for from in [3, 4] { one.push(st(token, obj, from, 7 - from, 0)); } } }
    for x in &one { for y in &one { txs.push((vec![5, 6], vec![Step { key: 2, ..*x }, Step { key: 3, ..*y }])); } }
    let longer = c.pick(2, 1);
    for (i, x) in one.iter().enumerate() { for (j, y) in one.iter().enumerate() { for (k, z) in one.iter().enumerate() {
        if (i * 64 + j * 8 + k) % (longer * 4 - 3) == 0 { txs.push((vec![5, 6], vec![Step { key: 2, ..*x }, Step { key: 1, ..*y }, Step { key: 0, ..*z }])); }
    } } }
    // natively: the calls and events are those, and anyone may sign
    {
        let _x = exclusive();
        for (amounts, steps) in &txs {
            reset();
            let w = world(amounts, steps);
            let r = guard(|| for call in w.calls.iter().filter(|c| c.caller == 0) {
                let Arg::Transfer { obj, from, to, pk: k } = &call.arg else { unreachable!() };
                let r = mozak_sdk::call_send(pid(call.callee), token_core_logic::MethodArgs::Transfer(obj.sdk(), pid(*from), pid(*to), pk(*k)), token_core_logic::dispatch);
                assert!(r == token_core_logic::MethodReturns::Transfer);
            });
            c.add("states", 1 + w.calls.len() as u64); c.add("transitions", w.calls.len() as u64);
            let (got, want) = (tape(), w.tape());
            let events = |t: &mozak_sdk::common::types::SystemTape| { let mut v: Vec<_> = t.event_tape.writer.iter().map(|(p, e)| (*p, e.get_canonical_order_temporal_hints())).collect(); v.sort_by_key(|x| x.0); v };
            c.check(r.is_ok() && got.call_tape.writer == want.call_tape.writer && events(&got) == events(&want), || format!("native:{steps:?}"), || json!({"transfers": format!("{steps:?}"), "panicked": r.err(), "calls": format!("{:?}", got.call_tape.writer)}));
        }
    }
    let full = c.pick(10usize, 120);
    c.par("transactions", txs.len(), |i, l| {
        let (amounts, steps) = &txs[i];
        let base = world(amounts, steps);
        // one transfer, and some of each length, in every variation
        let mut all = vec![("as it is".to_string(), base.clone())];
        if i < 2 || i % (txs.len() / full).max(1) == 0 { all.extend(base.edits(&KINDS, !c.quick() && steps.len() == 1)); }
        for (name, w) in all {
            let mut everyone = true;
            for me in 1..=5u8 {
                // a program that is not part of it has nothing to prove
                if !base.programs().contains(&me) && !w.programs().contains(&me) { continue; }
                let want = w.accepts(me);
                let (end, steps_) = run(if KINDS[0].contains(&me) { &token } else { &wallet }, &w, me);
                l.add("states", 1); l.add("transitions", w.calls.len() as u64); l.add("vm_steps", steps_); l.add("traces_validated_against_impl", 1);
                l.outcome(format!("{} {}", if KINDS[0].contains(&me) { "token" } else { "wallet" }, if want { "accepts" } else { "refuses" }));
                everyone &= want;
                let ok = if want { end == End::Halted } else { matches!(end, End::Refused(_)) };
                if !ok { c.violation(format!("tx:{i}:{name}:{me}"), json!({"transfers": format!("{steps:?}"), "variation": name, "program": me, "expected": if want { "accepted" } else { "refused" }, "end": format!("{end:?}"), "calls": format!("{:?}", w.calls)})); return; }
            }
            // what it is all for: no transfer of a wallet's token without the key
            if everyone {
                l.add("transactions accepted by all", 1);
                for (p, es) in &w.events { for k in 0..es.len() { if es[k].0 == 0 && KINDS[0].contains(p) {
                    let before = es[k - 1].1.token();
                    let signed = w.private.values().any(|d| d.chunks(32).any(|s| s.len() == 32 && sponge(s).0 == before.pk));
                    if es[k].1.token().amount != before.amount || !signed { c.violation(format!("soundness:{i}:{name}"), json!({"transfers": format!("{steps:?}"), "variation": name, "what": "a token changed without its owner"})); return; }
                } } }
            }
        }
    });
    c.info("bounds", format!("{} transactions of one to three transfers of two objects by two token programs through two wallets; {full} of them with every single change of a call, argument, event and private input", txs.len()));
    c.info("oracle", "what each program has to have done, from the calls and events on the tapes (world.rs); owner keys by the Poseidon2 sponge");
    c.info("exhaustive", true);
}
