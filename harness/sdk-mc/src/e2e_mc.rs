//! Whole transactions: natively executed, then each program replayed in the VM.
use mc::{guard, Ctx};
use serde_json::json;

use crate::calls_mc::*;
use crate::events_mc::{alphabet, put_event};
use crate::native::*;
use crate::vm::*;

/// What program `p` does when called for the n-th time: events, input, and further calls.
#[derive(Clone, Debug)]
struct Job { events: Vec<usize>, private: Vec<u8>, public: Vec<u8>, calls: Vec<(u8, usize)> }

pub fn k09(ctx: &Ctx) {
    let g = guest("driver");
    let al = alphabet();
    // jobs 0..n: job k may call jobs with a higher number
    let evs: Vec<Vec<usize>> = vec![vec![], vec![3], vec![5, 0], vec![1, 1]];
    let ins: Vec<(Vec<u8>, Vec<u8>)> = vec![(vec![], vec![]), (vec![9, 8, 7], vec![1]), ((0..300u32).map(|x| x as u8).collect(), vec![])];
    let progs = 3u8;
    let mut jobs1: Vec<Job> = vec![]; // leaf jobs
    for e in &evs { for (a, b) in &ins { jobs1.push(Job { events: e.clone(), private: a.clone(), public: b.clone(), calls: vec![] }); } }
    // a transaction: the root calls programs (p, leaf or nested leaf)
    let mut txs: Vec<Vec<(u8, Job, Option<(u8, Job)>)>> = vec![];
    let few: Vec<&Job> = jobs1.iter().step_by(ctx.pick(3, 1)).collect();
    for p in 1..=progs { for j in &jobs1 {
        txs.push(vec![(p, j.clone(), None)]);
        for q in 1..=progs { if q != p { for k in &few {
            txs.push(vec![(p, j.clone(), Some((q, (*k).clone())))]);
            txs.push(vec![(p, j.clone(), None), (q, (*k).clone(), None)]);
            txs.push(vec![(p, j.clone(), Some((q, (*k).clone()))), (p, (*k).clone(), None)]);
        } } }
    } }
    // native, one after the other
    let mut all = vec![];
    {
        let _x = exclusive();
        for tx in &txs {
            reset();
            let r = guard(|| for (p, j, nested) in tx {
                let mut n = 0u32;
                let _ = &mut n;
                let _: u32 = mozak_sdk::call_send(pid(*p), 5u32, |x: u32| {
                    job(j, &al);
                    if let Some((q, k)) = nested { let r: Vec<u8> = mozak_sdk::call_send(pid(*q), vec![1u8, 2], |v: Vec<u8>| { job(k, &al); v }); assert!(r == [1, 2]); }
                    x + 1
                });
            });
            if let Err(m) = r { ctx.violation(format!("native:{tx:?}"), json!({"transaction": format!("{tx:?}"), "what": m})); return; }
            let text = serde_json::to_string(&tape()).unwrap();
            all.push(text);
        }
    }
    ctx.par("prove", txs.len(), |i, l| {
        let tx = &txs[i];
        let sys = serde_json::from_str(&all[i]).expect("tape reads back");
        for me in 0..=progs {
            // what the program does, in order; with the log it leaves
            let (mut s, mut want, mut involved) = (Script::default(), Script::default(), me == 0);
            let mut acts = 0;
            for (p, j, nested) in tx {
                if me == 0 { s = s.b(6).b(0).raw(&pid(*p).0 .0).w(5); want = want.w(6); acts += 1; }
                if me == *p {
                    involved = true;
                    s = s.b(7).b(0); want = want.b(1).raw(&pid(0).0 .0).w(5).w(6);
                    (s, want) = replay(j, &al, s, want);
                    if let Some((q, _)) = nested { s = s.b(6).b(2).raw(&pid(*q).0 .0).blob(&[1, 2]); want = want.blob(&[1, 2]); }
                    acts += 1;
                }
                if let Some((q, k)) = nested { if me == *q {
                    involved = true;
                    s = s.b(7).b(2); want = want.b(1).raw(&pid(*p).0 .0).blob(&[1, 2]).blob(&[1, 2]);
                    (s, want) = replay(k, &al, s, want);
                    acts += 1;
                } }
            }
            if !involved { continue; }
            let t = raw_tapes(&sys, pid(me));
            let want = want.b(0xFF);
            let r = g.run(&s.clone().b(0).0, &t);
            l.add("states", 1 + acts); l.add("transitions", acts); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
            l.outcome(format!("{} log bytes", want.0.len()));
            if !r.halted() || r.log != want.0 { ctx.violation(format!("prove:{i}:{me}"), json!({"transaction": format!("{tx:?}"), "program": me, "what": "an honest replay is not accepted", "log": r.log, "expected": want.0, "end": format!("{:?}", r.end)})); return; }
            // as another program, or with a wrong commitment: refused
            let mut wrong = vec![];
            for b in [0usize, 8, 31] {
                let mut t2 = t.clone(); t2.events_commitment_tape[b] ^= 4; wrong.push(("events commitment", t2));
                let mut t2 = t.clone(); t2.cast_list_commitment_tape[b] ^= 4; wrong.push(("cast list commitment", t2));
            }
            let other = 9;
            let mut t2 = t.clone(); t2.self_prog_id_tape = pid(other).0 .0; wrong.push(("identity", t2));
            for (what, t2) in wrong {
                let r = g.run(&s.clone().b(0).0, &t2);
                l.add("states", 1); l.add("transitions", 1); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
                // under another identity the calls made to this program must not be received
                if !(matches!(r.end, End::Refused(_)) || what == "identity" && me != 0 && r.halted() && r.log.first() == Some(&0)) {
                    ctx.violation(format!("prove:{i}:{me}:{what}"), json!({"transaction": format!("{tx:?}"), "program": me, "what": format!("accepted with a wrong {what}"), "end": format!("{:?}", r.end)})); return;
                }
            }
        }
    });
    let _: Option<Val> = None;
    ctx.info("bounds", format!("{} transactions: one to three calls among {progs} programs, nested or in sequence, every combination of event and input patterns; every participant replayed, with right and wrong identity and commitments", txs.len()));
    ctx.info("oracle", "each program's part of the native run, and its log; wrong identity or commitment is refused");
    ctx.info("exhaustive", true);
}
fn job(j: &Job, al: &[mozak_sdk::common::types::Event]) {
    for e in &j.events { mozak_sdk::event_emit(al[*e].clone()); }
    mozak_sdk::write(&mozak_sdk::InputTapeType::PrivateTape, &j.private).unwrap();
    mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &j.public).unwrap();
    assert!(j.calls.is_empty());
}
fn replay(j: &Job, al: &[mozak_sdk::common::types::Event], mut s: Script, mut want: Script) -> (Script, Script) {
    for e in &j.events { s = put_event(s.b(8), &al[*e]); want = want.b(8); }
    for (k, d) in [(0, &j.private), (1, &j.public)] {
        if !d.is_empty() { s = s.b(1).b(k).w(d.len() as u32); want = want.b(0).d(d.len() as u64).blob(d); }
    }
    (s, want)
}
