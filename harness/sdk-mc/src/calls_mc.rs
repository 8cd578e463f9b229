//! Cross-program calls: native recording, guest replay; identities.
use std::collections::BTreeSet;

use mc::{guard, Ctx};
use mozak_runner::state::RawTapes;
use mozak_sdk::common::types::*;
use serde_json::json;

use crate::native::*;
use crate::vm::*;

#[derive(Clone, Default, PartialEq, Debug, rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)]
pub enum Msg { #[default] Nil, Pair(u8, u64), Text(Vec<u8>), List(Vec<(u32, bool)>), Many(Vec<Vec<u8>>) }

/// An argument or return value of one of the three types the guest knows.
#[derive(Clone, PartialEq, Debug)]
pub enum Val { Word(u32), Msg(Msg), Raw(Vec<u8>) }
impl Val {
    pub fn kind(&self) -> u8 { match self { Val::Word(_) => 0, Val::Msg(_) => 1, Val::Raw(_) => 2 } }
    pub fn rkyv(&self) -> Vec<u8> { match self { Val::Word(w) => bytes(w), Val::Msg(m) => bytes(m), Val::Raw(r) => bytes(r) } }
    /// as the guest's script has it and as its log shows it
    pub fn put(&self, s: Script) -> Script {
        match self {
            Val::Word(w) => s.w(*w),
            Val::Raw(r) => s.blob(r),
            Val::Msg(Msg::Nil) => s.b(0),
            Val::Msg(Msg::Pair(a, b)) => s.b(1).b(*a).d(*b),
            Val::Msg(Msg::Text(t)) => s.b(2).blob(t),
            Val::Msg(Msg::Many(l)) => l.iter().fold(s.b(4).b(l.len() as u8), |s, b| s.blob(b)),
            Val::Msg(Msg::List(l)) => l.iter().fold(s.b(3).b(l.len() as u8), |s, (a, b)| s.w(*a).b(u8::from(*b))),
        }
    }
    pub fn other(&self) -> Val {
        match self {
            Val::Word(w) => Val::Word(w ^ 0x8000_0000),
            Val::Raw(r) => { let mut r = r.clone(); r.push(0); Val::Raw(r) }
            Val::Msg(Msg::Pair(a, b)) => Val::Msg(Msg::Pair(*a, b ^ 1 << 40)),
            Val::Msg(_) => Val::Msg(Msg::Pair(1, 1)),
        }
    }
}
pub fn val(k: usize, salt: u32) -> Val {
    match k % 7 {
        6 => Val::Msg(Msg::Many((0..40u8).map(|i| vec![i; (salt as usize + i as usize) % 3]).collect())),
        0 => Val::Word(7 + salt),
        1 => Val::Msg(Msg::Pair(salt as u8, 1 << 33)),
        2 => Val::Raw(vec![salt as u8; 5]),
        3 => Val::Msg(Msg::List(vec![(salt, true), (u32::MAX, false)])),
        4 => Val::Msg(Msg::Text(b"hello".to_vec())),
        _ => Val::Raw(vec![]),
    }
}

#[derive(Clone, Debug)]
pub struct Node { pub callee: u8, pub arg: Val, pub ret: Val, pub kids: Vec<Node> }
#[derive(Clone, Debug, PartialEq)]
pub struct Entry { pub caller: u8, pub callee: u8, pub arg: Val, pub ret: Val }

/// All ordered forests of `n` calls; callee different from caller.
pub fn forests(n: usize, caller: u8, programs: u8) -> Vec<Vec<Node>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for k in 0..n {
        for callee in 1..=programs {
            if callee == caller { continue; }
            let kids = forests(k, callee, programs);
            let rest = forests(n - 1 - k, caller, programs);
            for a in &kids { for b in &rest {
                let mut f = vec![Node { callee, arg: Val::Word(0), ret: Val::Word(0), kids: a.clone() }];
                f.extend(b.iter().cloned());
                out.push(f);
            } }
        }
    }
    out
}
fn fill(f: &mut [Node], k: &mut usize, rot: usize) {
    for n in f {
        let v = *k + rot;
        *k += 1;
        n.arg = val(v, v as u32 * 3);
        // the return type goes with the argument type
        n.ret = match n.arg.kind() { 0 => Val::Word(100 + v as u32), 1 => val([1, 3, 4][v % 3], v as u32), _ => Val::Raw(vec![v as u8; v % 4]) };
        fill(&mut n.kids, k, rot);
    }
}
fn preorder(f: &[Node], caller: u8, out: &mut Vec<Entry>) {
    for n in f {
        out.push(Entry { caller, callee: n.callee, arg: n.arg.clone(), ret: n.ret.clone() });
        preorder(&n.kids, n.callee, out);
    }
}
fn perform(n: &Node, errs: &std::cell::RefCell<Vec<String>>) {
    let inner = |same: bool| { if !same { errs.borrow_mut().push("resolver got another argument".into()); } for k in &n.kids { perform(k, errs); } };
    let ok = match (&n.arg, &n.ret) {
        (Val::Word(a), Val::Word(r)) => mozak_sdk::call_send(pid(n.callee), *a, |x: u32| { inner(x == *a); *r }) == *r,
        (Val::Msg(a), Val::Msg(r)) => mozak_sdk::call_send(pid(n.callee), a.clone(), |x: Msg| { inner(x == *a); r.clone() }) == *r,
        (Val::Raw(a), Val::Raw(r)) => mozak_sdk::call_send(pid(n.callee), a.clone(), |x: Vec<u8>| { inner(x == *a); r.clone() }) == *r,
        _ => unreachable!(),
    };
    if !ok { errs.borrow_mut().push("sender got another return value".into()); }
}

/// What a guest does.
#[derive(Clone, Debug)]
pub enum Act { Send(u8, Val), Recv(u8) }
pub fn natural(tape: &[Entry], me: u8) -> Vec<Act> {
    tape.iter().filter_map(|e| if e.caller == me { Some(Act::Send(e.callee, e.arg.clone())) } else if e.callee == me { Some(Act::Recv(e.arg.kind())) } else { None }).collect()
}
/// The guest side by its rules; the log it leaves and whether it ends well.
pub fn model(tape: &[Entry], cast: &BTreeSet<ProgramIdentifier>, me: u8, acts: &[Act]) -> (Vec<u8>, bool) {
    let mut log = Script::default();
    let mut i = 0;
    let unrelated = |e: &Entry| e.caller != me && e.callee != me;
    let casted = |p: u8| p == 0 || cast.contains(&pid(p));
    for a in acts {
        match a {
            Act::Send(to, v) => {
                while i < tape.len() && unrelated(&tape[i]) { i += 1; }
                let Some(e) = tape.get(i) else { return (log.0, false) };
                if e.caller != me || e.callee != *to || !casted(*to) || e.arg != *v { return (log.0, false); }
                log = e.ret.put(log);
                i += 1;
            }
            Act::Recv(_) => {
                // a call of one's own that is not claimed is not passed over
                while i < tape.len() && unrelated(&tape[i]) { i += 1; }
                let Some(e) = tape.get(i) else { log = log.b(0); continue };
                if e.caller == me || !casted(e.caller) { return (log.0, false); }
                log = e.ret.put(e.arg.put(log.b(1).raw(&pid(e.caller).0 .0)));
                i += 1;
            }
        }
    }
    log = log.b(0xFF);
    while i < tape.len() && unrelated(&tape[i]) { i += 1; }
    let ok = i == tape.len();
    (log.0, ok)
}
pub fn script(acts: &[Act]) -> Script {
    acts.iter().fold(Script::default(), |s, a| match a {
        Act::Send(to, v) => v.put(s.b(6).b(v.kind()).raw(&pid(*to).0 .0)),
        Act::Recv(k) => s.b(7).b(*k),
    })
}
pub fn tapes_of(tape: &[Entry], me: u8) -> (RawTapes, BTreeSet<ProgramIdentifier>) {
    let calls: Vec<CrossProgramCall> = tape.iter().map(|e| CrossProgramCall { caller: pid(e.caller), callee: pid(e.callee), argument: RawMessage(e.arg.rkyv()), return_: RawMessage(e.ret.rkyv()) }).collect();
    let cast: BTreeSet<_> = calls.iter().map(|c| c.callee).collect();
    let mut t = plain_tapes(&[], &[]);
    t.call_tape = prefixed(&bytes(&calls));
    t.self_prog_id_tape = pid(me).0 .0;
    t.cast_list_commitment_tape = cast_commitment(&cast.iter().copied().collect::<Vec<_>>()).0;
    (t, cast)
}

pub fn k03(ctx: &Ctx) {
    let g = guest("driver");
    let maxcalls = ctx.pick(3usize, 4);
    let programs = 3;
    let mut all = vec![];
    for n in 0..=maxcalls { for rot in 0..3 { for mut f in forests(n, 0, programs) { fill(&mut f, &mut 0, rot); all.push(f); } } }
    // native: what the calls leave on the tape
    ctx.par("record", 1, |_, l| {
        let _x = exclusive();
        let chain = (0..60usize).rev().fold(vec![], |kids, k| vec![Node { callee: (k % 3) as u8 + 1, arg: val(k, k as u32), ret: val(k, k as u32 + 1), kids }]);
        let row: Vec<Node> = (0..300usize).map(|k| Node { callee: (k % 3) as u8 + 1, arg: val(k, k as u32), ret: val(k, k as u32 + 1), kids: vec![] }).collect();
        for f in all.iter().chain([&chain, &row]) {
            for root in [0u8, 4] {
                reset();
                if root != 0 { mozak_sdk::add_identity(pid(root)); }
                let errs = std::cell::RefCell::new(vec![]);
                let r = guard(|| for n in f { perform(n, &errs) });
                let mut want = vec![];
                preorder(f, root, &mut want);
                l.add("states", 1 + want.len() as u64); l.add("transitions", want.len() as u64); l.add("traces_validated_against_impl", 1);
                let sys = tape();
                let got: Vec<_> = sys.call_tape.writer.iter().map(|c| (c.caller, c.callee, c.argument.0.clone(), c.return_.0.clone())).collect();
                let exp: Vec<_> = want.iter().map(|e| (pid(e.caller), pid(e.callee), e.arg.rkyv(), e.ret.rkyv())).collect();
                let mut what = errs.take();
                if let Err(m) = r { what.push(m); }
                if got != exp { what.push(format!("tape is {got:?}")); }
                if !what.is_empty() { ctx.violation(format!("record:{root}:{f:?}"), json!({"calls": format!("{want:?}"), "what": what})); return; }
            }
        }
    });
    // long and deep: chains of n calls, and n calls in a row; each participant replays its part
    let lens: Vec<usize> = ctx.pick(vec![5, 16, 40], (5..=40).chain([100, 255, 256, 257, 300]).collect());
    ctx.par("long", lens.len() * 3, |i, l| {
        let (n, shape) = (lens[i / 3], i % 3);
        // 0: a chain 0 -> 1 -> 2 -> 3 -> 1 ..., 1: the root calls them in turn, 2: pairs of a call and a nested one
        let tape: Vec<Entry> = (0..n).map(|k| {
            let (caller, callee) = match shape { 0 => (if k == 0 { 0 } else { ((k - 1) % 3) as u8 + 1 }, (k % 3) as u8 + 1), 1 => (0, (k % 3) as u8 + 1), _ => if k % 2 == 0 { (0, 1) } else { (1, 2) } };
            Entry { caller, callee, arg: val(k, k as u32), ret: val(k, k as u32 + 1000) }
        }).collect();
        for me in 0..=3u8 {
            let acts = natural(&tape, me);
            for drop in [None, Some(0), Some(acts.len().saturating_sub(1))] {
                let mut acts = acts.clone();
                if let Some(d) = drop { if d < acts.len() { acts.remove(d); } }
                let (raw, cast) = tapes_of(&tape, me);
                if type_confused(&tape, me, &acts) { continue; }
                let (log, want) = model(&tape, &cast, me, &acts);
                let mut g = g.clone();
                g.limit = 50_000_000;
                let r = g.run(&script(&acts).b(0).0, &raw);
                l.add("states", 1 + acts.len() as u64); l.add("transitions", acts.len() as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
                if r.halted() != want || r.end == End::Limit || r.log != log { ctx.violation(format!("long:{n}:{shape}:{me}:{drop:?}"), json!({"calls": n, "shape": shape, "program": me, "omits": drop, "expected": if want { "accepted" } else { "refused" }, "end": format!("{:?}", r.end)})); return; }
            }
        }
    });
    // guest: each program of each history replays its part, and variations of tape and behaviour
    ctx.par("replay", all.len(), |i, l| {
        let mut tape = vec![];
        preorder(&all[i], 0, &mut tape);
        for me in 0..=programs {
            let acts = natural(&tape, me);
            if acts.is_empty() && me != 1 { continue; }
            let mut cases: Vec<(String, Vec<Entry>, Vec<Act>)> = vec![];
            let with = |a: &Vec<Act>, x: Act| { let mut a = a.clone(); a.push(x); a };
            cases.push(("ends with its last call".into(), tape.clone(), acts.clone()));
            cases.push(("drains".into(), tape.clone(), with(&acts, Act::Recv(0))));
            for k in 0..acts.len() {
                let mut a = acts.clone(); a.remove(k); cases.push((format!("omits its {k}"), tape.clone(), a.clone()));
                cases.push((format!("omits its {k}, drains"), tape.clone(), with(&a, Act::Recv(0))));
                let mut a = acts.clone(); a.insert(k, acts[k].clone()); cases.push((format!("repeats its {k}"), tape.clone(), a));
                if let Act::Send(to, v) = &acts[k] {
                    let mut a = acts.clone(); a[k] = Act::Send(*to, v.other()); cases.push((format!("other argument {k}"), tape.clone(), a));
                    for p in 1..=4 { if p != *to { let mut a = acts.clone(); a[k] = Act::Send(p, v.clone()); cases.push((format!("calls {p} instead in {k}"), tape.clone(), a)); } }
                }
                if k + 1 < acts.len() { let mut a = acts.clone(); a.swap(k, k + 1); cases.push((format!("swaps {k}"), tape.clone(), a)); }
            }
            for k in 0..tape.len() {
                let mut t = tape.clone(); t[k].arg = t[k].arg.other(); cases.push((format!("tape argument {k}"), t, acts.clone()));
                let mut t = tape.clone(); t[k].ret = t[k].ret.other(); cases.push((format!("tape return {k}"), t, acts.clone()));
                for p in 0..=4 {
                    if p != tape[k].caller { let mut t = tape.clone(); t[k].caller = p; cases.push((format!("tape caller {k} is {p}"), t, acts.clone())); }
                    if p != tape[k].callee { let mut t = tape.clone(); t[k].callee = p; cases.push((format!("tape callee {k} is {p}"), t, acts.clone())); }
                }
                let mut t = tape.clone(); t.remove(k); cases.push((format!("tape omits {k}"), t, acts.clone()));
                let mut t = tape.clone(); t.insert(k, tape[k].clone()); cases.push((format!("tape repeats {k}"), t, acts.clone()));
                if k + 1 < tape.len() { let mut t = tape.clone(); t.swap(k, k + 1); cases.push((format!("tape swaps {k}"), t, acts.clone())); }
            }
            for (name, tape, acts) in cases {
                let (raw, cast) = tapes_of(&tape, me);
                let (log, want) = model(&tape, &cast, me, &acts);
                // the model delivers values as they are on the tape; a receive of another type is not defined
                if type_confused(&tape, me, &acts) { l.add("skipped_undefined_type", 1); continue; }
                let r = g.run(&script(&acts).b(0).0, &raw);
                l.add("states", 1 + acts.len() as u64); l.add("transitions", acts.len() as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
                l.outcome(format!("{} after {}", if want { "accepted" } else { "refused" }, log.len()));
                let ok = if want { r.halted() } else { matches!(r.end, End::Refused(_)) };
                if !ok || r.log != log { ctx.violation(format!("replay:{i}:{me}:{name}"), json!({"tape": format!("{tape:?}"), "program": me, "does": format!("{acts:?}"), "case": name, "expected": if want { "accepted" } else { "refused" }, "expected_log": log, "log": r.log, "end": format!("{:?}", r.end)})); return; }
                if want && name == "drains" {
                    for b in [0usize, 15, 31] {
                        let mut raw = raw.clone(); raw.cast_list_commitment_tape[b] ^= 1;
                        let r = g.run(&script(&acts).b(0).0, &raw);
                        l.add("states", 1); l.add("transitions", 1); l.add("traces_validated_against_impl", 1);
                        if !matches!(r.end, End::Refused(_)) { ctx.violation(format!("cast:{i}:{me}:{b}"), json!({"tape": format!("{tape:?}"), "what": "a wrong cast list commitment was accepted", "end": format!("{:?}", r.end)})); return; }
                    }
                }
            }
        }
    });
    ctx.info("bounds", format!("every ordered forest of up to {maxcalls} nested and sequential calls among 3 programs x 3 assignments of message types, and chains and rows of up to 40 (300) calls; for each program its replay, every single change of its behaviour and of the tape, and of the commitment"));
    ctx.info("oracle", "pre-order recording with caller on top of the identity stack; replay rules: own sends match the tape entry by entry, receives find the next call to oneself but pass over calls between others only, nothing of one's own may be left");
    ctx.info("exhaustive", true);
}
/// Does a receive or send meet an entry of another message type on this tape?
fn type_confused(tape: &[Entry], me: u8, acts: &[Act]) -> bool {
    let mut i = 0;
    for a in acts {
        match a {
            Act::Send(_, v) => {
                while i < tape.len() && tape[i].caller != me && tape[i].callee != me { i += 1; }
                let Some(e) = tape.get(i) else { return false };
                if e.caller != me { return false; }
                if e.arg.kind() != v.kind() { return true; }
                i += 1;
            }
            Act::Recv(k) => {
                while i < tape.len() && tape[i].caller != me && tape[i].callee != me { i += 1; }
                let Some(e) = tape.get(i) else { continue };
                if e.caller == me { return false; }
                if e.arg.kind() != *k { return true; }
                i += 1;
            }
        }
    }
    false
}

/// Histories of identities, calls, events and input: who owns what on the tapes.
#[derive(Clone, Copy, Debug)]
enum Step { Push(u8), Pop, Emit(usize), Private(u8), Public(u8), Call(u8), Return }

pub fn k04(ctx: &Ctx) {
    let al = crate::events_mc::alphabet();
    let steps = [Step::Push(1), Step::Push(2), Step::Pop, Step::Emit(0), Step::Emit(1), Step::Private(1), Step::Private(2), Step::Public(3), Step::Call(1), Step::Call(3), Step::Return];
    let depth = ctx.pick(6u32, 7);
    let n = steps.len().pow(depth);
    // the tape is one per process: a single worker walks all histories
    ctx.par("identity", 1, |_, l| {
        let _x = exclusive();
        for i in 0..n {
            let mut k = i;
            let hist: Vec<Step> = (0..depth).map(|_| { let s = steps[k % steps.len()]; k /= steps.len(); s }).collect();
            // calls must nest properly and nothing may be owned by the null program: others are explored as refusals
            let mut st: Vec<u8> = vec![]; // model's stack
            let mut open: Vec<usize> = vec![];
            let mut ok = true;
            let (mut ev, mut pr, mut pu): (Vec<(u8, usize)>, Vec<(u8, u8)>, Vec<(u8, u8)>) = Default::default();
            let mut calls: Vec<(u8, u8)> = vec![];
            let mut used = 0;
            for s in &hist {
                let top = st.last().copied().unwrap_or(0);
                match s {
                    Step::Push(p) => st.push(*p),
                    Step::Pop => { if open.last() == Some(&st.len()) { break; } st.pop(); }
                    Step::Emit(e) => { if top == 0 { ok = false; } else { ev.push((top, *e)); } }
                    Step::Private(b) => { if top == 0 { ok = false; } else { pr.push((top, *b)); } }
                    Step::Public(b) => { if top == 0 { ok = false; } else { pu.push((top, *b)); } }
                    Step::Call(p) => { calls.push((top, *p)); st.push(*p); open.push(st.len()); }
                    Step::Return => { if open.last() != Some(&st.len()) || open.is_empty() { break; } open.pop(); st.pop(); }
                }
                used += 1;
                if !ok { break; }
            }
            // histories cut short are explored as a prefix of another
            if used < hist.len() && ok { continue; }
            if !ok && used < hist.len() && i % steps.len().pow(depth - used as u32) != 0 && hist[used..].iter().any(|s| !matches!(s, Step::Push(1))) { continue; }
            reset();
            let mut it = hist[..used].iter();
            let r = guard(|| walk(&mut it, &al));
            l.add("states", used as u64 + 1); l.add("transitions", used as u64); l.add("traces_validated_against_impl", 1);
            let sys = tape();
            let mut what = vec![];
            if r.is_ok() != ok { what.push(format!("expected {}, got {r:?}", if ok { "success" } else { "a refusal" })); }
            for p in 0..=4u8 {
                let got: Vec<Canon> = sys.event_tape.writer.get(&pid(p)).cloned().unwrap_or_default().get_temporal_order_canonical_hints().iter().map(|(e, _)| Canon::of(e)).collect();
                let want: Vec<Canon> = ev.iter().filter(|x| x.0 == p).map(|x| Canon::of(&al[x.1])).collect();
                if got != want { what.push(format!("events of program {p}")); }
                for (name, w, want) in [("private", &sys.private_input_tape.writer, &pr), ("public", &sys.public_input_tape.writer, &pu)] {
                    let want: Vec<u8> = want.iter().filter(|x| x.0 == p).flat_map(|x| vec![x.1; x.1 as usize]).collect();
                    if w.get(&pid(p)).map(|m| m.0.clone()).unwrap_or_default() != want { what.push(format!("{name} input of program {p}")); }
                }
            }
            let got: Vec<_> = sys.call_tape.writer.iter().map(|c| (c.caller, c.callee)).collect();
            if got != calls.iter().map(|c| (pid(c.0), pid(c.1))).collect::<Vec<_>>() { what.push("calls".into()); }
            l.outcome(format!("{} {} {} {}", ev.len(), pr.len() + pu.len(), calls.len(), ok));
            if !what.is_empty() { ctx.violation(format!("identity:{:?}", &hist[..used]), json!({"history": format!("{:?}", &hist[..used]), "what": what})); if ctx.stopped() { return; } }
        }
    });
    ctx.info("bounds", format!("every history of up to {depth} steps over {} kinds: taking and dropping identities, nested calls, events, private and public input", steps.len()));
    ctx.info("oracle", "a stack of identities; every event and input byte belongs to the program on top at that time; nothing can be recorded for the null program");
    ctx.info("exhaustive", true);
}
fn walk(it: &mut std::slice::Iter<Step>, al: &[Event]) {
    while let Some(s) = it.next() {
        match s {
            Step::Push(p) => mozak_sdk::add_identity(pid(*p)),
            Step::Pop => mozak_sdk::rm_identity(),
            Step::Emit(e) => mozak_sdk::event_emit(al[*e].clone()),
            Step::Private(b) => { mozak_sdk::write(&mozak_sdk::InputTapeType::PrivateTape, &vec![*b; *b as usize]).unwrap(); }
            Step::Public(b) => { mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &vec![*b; *b as usize]).unwrap(); }
            Step::Call(p) => {
                let c = std::cell::RefCell::new(&mut *it);
                mozak_sdk::call_send(pid(*p), 0u32, |_| { walk(*c.borrow_mut(), al); 0u32 });
            }
            Step::Return => return,
        }
    }
}
