//! C01: the tapes a program is run and proved with are its own part of the transaction.
use mc::{guard, Ctx};
use mozak_cli::runner::{deserialize_system_tape, raw_tapes_from_system_tape};
use mozak_runner::state::RawTapes;
use mozak_sdk::common::types::*;
use mozak_sdk::native::OrderedEvents;
use serde_json::json;

use crate::events_mc::alphabet;
use crate::native::{pid, raw_tapes};

/// A tape; it holds an `Rc` of its own, and is only looked at by the thread
/// that has its number.
struct One(SystemTape);
unsafe impl Sync for One {}
impl One { fn get(&self) -> &SystemTape { &self.0 } }

fn parts(t: &RawTapes) -> [(&'static str, Vec<u8>); 7] {
    [
        ("private", t.private_tape.clone()), ("public", t.public_tape.clone()), ("calls", t.call_tape.clone()), ("events", t.event_tape.clone()),
        ("own id", t.self_prog_id_tape.to_vec()), ("event commitment", t.events_commitment_tape.to_vec()), ("cast commitment", t.cast_list_commitment_tape.to_vec()),
    ]
}

fn differs(a: &RawTapes, b: &RawTapes) -> Option<&'static str> {
    parts(a).iter().zip(parts(b)).find(|(x, y)| x.1 != y.1).map(|(x, _)| x.0)
}

fn events(es: &[usize]) -> OrderedEvents {
    let al = alphabet();
    let mut o = OrderedEvents::default();
    for e in es { o.push_temporal(al[*e].clone()); }
    o
}

fn call(caller: u8, callee: u8, n: usize) -> CrossProgramCall {
    CrossProgramCall { caller: pid(caller), callee: pid(callee), argument: RawMessage(vec![n as u8; n % 5]), return_: RawMessage((0..n as u8).collect()) }
}

pub fn c01(c: &Ctx) {
    c.assume("the command line itself (argument parsing, files) is left out: the library function gets the bytes of the file");
    let mut all: Vec<(String, One)> = vec![];
    // calls: every sequence over caller and callee
    let pairs: Vec<(u8, u8)> = (0..=3).flat_map(|a| (1..=3).map(move |b| (a, b))).collect();
    let depth = c.pick(3usize, 4);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth { let to = seqs.len(); for i in from..to { for a in 0..pairs.len() { let mut s = seqs[i].clone(); s.push(a); seqs.push(s); } } from = to; }
    for s in &seqs {
        let mut t = SystemTape::default();
        t.call_tape.writer = s.iter().enumerate().map(|(n, k)| call(pairs[*k].0, pairs[*k].1, n)).collect();
        all.push((format!("calls {:?}", s.iter().map(|k| pairs[*k]).collect::<Vec<_>>()), One(t)));
    }
    // many participants
    for n in [4u8, 7, 8, 9, 16, 17, 33] {
        for down in [false, true] {
            let mut t = SystemTape::default();
            t.call_tape.writer = (1..=n).map(|i| if down { n + 1 - i } else { i }).map(|i| call(0, i, i as usize)).collect();
            all.push((format!("cast of {n}, {down}"), One(t)));
        }
    }
    // events: every sequence of one program, beside some of another
    let al = alphabet().len();
    let mut es: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..c.pick(3usize, 4) { let to = es.len(); for i in from..to { for a in 0..al { let mut s = es[i].clone(); s.push(a); es.push(s); } } from = to; }
    for s in &es {
        for other in [None, Some(vec![]), Some(vec![2, 0])] {
            let mut t = SystemTape::default();
            t.call_tape.writer = vec![call(0, 2, 1)];
            t.event_tape.writer.insert(pid(1), events(s));
            if let Some(o) = &other { t.event_tape.writer.insert(pid(2), events(o)); }
            all.push((format!("events {s:?} beside {other:?}"), One(t)));
        }
    }
    // inputs: every combination for two programs
    let ins: Vec<Option<Vec<u8>>> = [None, Some(0), Some(1), Some(3), Some(255), Some(256), Some(70_000)].iter().map(|n| n.map(|n: usize| (0..n).map(|k| (k * 7 + n) as u8).collect())).collect();
    for a in 0..ins.len() { for b in 0..ins.len() { for o in 0..4usize {
        let mut t = SystemTape::default();
        let put = |m: &mut std::collections::HashMap<ProgramIdentifier, RawMessage>, p: u8, v: &Option<Vec<u8>>| if let Some(v) = v { m.insert(pid(p), RawMessage(v.clone())); };
        put(&mut t.private_input_tape.writer, 1, &ins[a]);
        put(&mut t.public_input_tape.writer, 1, &ins[b]);
        put(&mut t.private_input_tape.writer, 2, &ins[o]);
        put(&mut t.public_input_tape.writer, 2, &ins[3 - o]);
        all.push((format!("inputs {a} {b} {o}"), One(t)));
    } } }
    c.info("system tapes", all.len());
    c.par("tapes", all.len(), |i, l| {
        let (name, t) = (&all[i].0, all[i].1.get());
        let text = serde_json::to_vec(t).unwrap();
        l.add("transitions", 1);
        for me in [0u8, 1, 2, 3, 40] {
            l.add("states", 1);
            let want = raw_tapes(t, pid(me));
            match guard(|| raw_tapes_from_system_tape(Some(&text[..]), pid(me))) {
                Err(e) => { c.violation(format!("tapes:{name}:{me}"), json!({"system tape": name, "program": me, "error": e})); return; }
                Ok(got) => if let Some(d) = differs(&got, &want) { c.violation(format!("tapes:{name}:{me}"), json!({"system tape": name, "program": me, "differs": d})); return; }
            }
            l.outcome(format!("{} {}", want.call_tape.len(), want.event_tape.len()));
        }
        // a tape that is cut off is refused
        if i % c.pick(16, 1) == 0 || text.len() < 400 { if text.len() < 2000 {
            for n in 0..text.len() {
                l.add("cut off tapes", 1);
                if deserialize_system_tape(&text[..n]).is_ok() { c.violation("a part of a system tape is accepted", json!({"system tape": name, "bytes": n})); return; }
            }
        } }
    });
    // without a system tape there is nothing to read
    for me in 0..4 {
        let r = guard(|| raw_tapes_from_system_tape(None::<&[u8]>, pid(me)));
        c.add("states", 1);
        c.check(matches!(&r, Ok(t) if differs(t, &RawTapes::default()).is_none()), || "no system tape".into(), || json!({"program": me, "got": r.err()}));
    }
    c.info("bounds", format!("all sequences of up to {depth} calls among 3 programs and the null program; casts of up to 33; all sequences of up to {} of {al} events beside another program's; all combinations of 7 inputs; each tape for 5 programs, and cut off at every byte", c.pick(3, 4)));
    c.info("oracle", "the tapes as the guest side of the SDK reads them (K09 replays guests on tapes laid out by this reference), commitments by definition");
    c.info("exhaustive", true);
}
