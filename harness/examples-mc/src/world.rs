//! A transaction as everyone sees it, and when a program has to accept it.
use std::collections::BTreeMap;

use mozak_sdk::common::types::*;
use mozak_sdk::native::OrderedEvents;

use crate::native::*;
use crate::vm::Guest;

pub type Key = [u8; 32];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obj { pub addr: u64, pub owner: u8, pub data: Vec<u8> }
impl Obj {
    pub fn sdk(&self) -> StateObject { StateObject { address: StateAddress(self.addr.to_le_bytes()), constraint_owner: pid(self.owner), data: self.data.clone() } }
    pub fn token(&self) -> Tok { Tok { pk: self.data[..32].try_into().unwrap(), amount: u64::from_le_bytes(self.data[32..40].try_into().unwrap()) } }
    pub fn of(addr: u64, owner: u8, t: Tok) -> Self { Self { addr, owner, data: t.data() } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok { pub pk: Key, pub amount: u64 }
impl Tok {
    pub fn data(&self) -> Vec<u8> { [&self.pk[..], &self.amount.to_le_bytes()].concat() }
    pub fn sdk(&self) -> wallet_core_logic::TokenObject { wallet_core_logic::TokenObject { pub_key: pk(self.pk), amount: self.amount.into() } }
}
pub fn pk(k: Key) -> wallet_core_logic::PublicKey { wallet_core_logic::PublicKey(Poseidon2Hash(k)) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Arg {
    Transfer { obj: Obj, from: u8, to: u8, pk: Key },
    Approve { pk: Key, from: u8, to: u8, tok: Tok },
    Count { up: bool, obj: Obj },
    Inputs,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ret { Unit, Count { what: u8, obj: Obj } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call { pub caller: u8, pub callee: u8, pub arg: Arg, pub ret: Ret }
impl Call {
    pub fn sdk(&self) -> CrossProgramCall {
        let argument = match &self.arg {
            Arg::Transfer { obj, from, to, pk: k } => bytes(&token_core_logic::MethodArgs::Transfer(obj.sdk(), pid(*from), pid(*to), pk(*k))),
            Arg::Approve { pk: k, from, to, tok } => bytes(&wallet_core_logic::MethodArgs::ApproveSignature(pk(*k), wallet_core_logic::BlackBox::new(pid(*from), pid(*to), tok.sdk()))),
            Arg::Count { up: true, obj } => bytes(&counter_core_logic::MethodArgs::IncreaseCounter(obj.sdk())),
            Arg::Count { up: false, obj } => bytes(&counter_core_logic::MethodArgs::DecreaseCounter(obj.sdk())),
            Arg::Inputs => bytes(&inputtape_core_logic::MethodArgs::RawTapesTest),
        };
        let return_ = match (&self.arg, &self.ret) {
            (Arg::Transfer { .. }, _) => bytes(&token_core_logic::MethodReturns::Transfer),
            (Arg::Approve { .. }, _) => bytes(&wallet_core_logic::MethodReturns::ApproveSignature(())),
            (Arg::Inputs, _) => bytes(&inputtape_core_logic::MethodReturns::Noop),
            (_, Ret::Count { what: 0, .. } | Ret::Unit) => bytes(&counter_core_logic::MethodReturns::Default),
            (_, Ret::Count { what: 1, obj }) => bytes(&counter_core_logic::MethodReturns::IncreaseCounter(obj.sdk())),
            (_, Ret::Count { obj, .. }) => bytes(&counter_core_logic::MethodReturns::DecreaseCounter(obj.sdk())),
        };
        CrossProgramCall { caller: pid(self.caller), callee: pid(self.callee), argument: RawMessage(argument), return_: RawMessage(return_) }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct World {
    pub calls: Vec<Call>,
    /// type of event (0 write, 2 read) and object
    pub events: BTreeMap<u8, Vec<(u8, Obj)>>,
    pub private: BTreeMap<u8, Vec<u8>>,
    pub public: BTreeMap<u8, Vec<u8>>,
}

pub fn event(e: &(u8, Obj)) -> Event {
    let type_ = match e.0 { 0 => EventType::Write, 1 => EventType::Ensure, 2 => EventType::Read, 3 => EventType::GiveOwner, _ => EventType::TakeOwner };
    Event { type_, object: e.1.sdk() }
}

impl World {
    pub fn tape(&self) -> SystemTape {
        let mut t = SystemTape::default();
        t.call_tape.writer = self.calls.iter().map(Call::sdk).collect();
        for (p, es) in &self.events {
            let mut o = OrderedEvents::default();
            for e in es { o.push_temporal(event(e)); }
            t.event_tape.writer.insert(pid(*p), o);
        }
        for (p, b) in &self.private { t.private_input_tape.writer.insert(pid(*p), RawMessage(b.clone())); }
        for (p, b) in &self.public { t.public_input_tape.writer.insert(pid(*p), RawMessage(b.clone())); }
        t
    }
    pub fn programs(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.calls.iter().map(|c| c.callee).filter(|p| *p != 0).collect();
        v.sort(); v.dedup(); v
    }
    fn casted(&self, p: u8) -> bool { p == 0 || self.calls.iter().any(|c| c.callee == p) }

    /// Has program `me` of this kind to accept its part?
    pub fn accepts(&self, me: u8) -> bool {
        let own: Vec<&Call> = self.calls.iter().filter(|c| c.caller == me || c.callee == me).collect();
        let nothing = vec![];
        // what the commitment holds of an event
        let key = |e: &(u8, Obj)| (e.0, e.1.addr, e.1.data.clone());
        let mut events = self.events.get(&me).unwrap_or(&nothing).iter().map(key);
        let mut private = self.private.get(&me).cloned().unwrap_or_default().into_iter();
        let mut public = self.public.get(&me).cloned().unwrap_or_default().into_iter();
        let lens = (private.len(), public.len());
        let next32 = |i: &mut std::vec::IntoIter<u8>| -> Key { std::array::from_fn(|_| i.next().unwrap_or(0)) };
        let mut own = own.into_iter();
        while let Some(c) = own.next() {
            if c.caller == me || !self.casted(c.caller) { return false; }
            match &c.arg {
                Arg::Transfer { obj, from, to, pk } => {
                    if events.next() != Some(key(&(2, obj.clone()))) { return false; }
                    let tok = obj.token();
                    let ask = Arg::Approve { pk: tok.pk, from: *from, to: *to, tok };
                    if !own.next().is_some_and(|d| d.caller == me && d.callee == *from && d.arg == ask) { return false; }
                    let new = Obj::of(obj.addr, obj.owner, Tok { pk: *pk, ..tok });
                    if events.next() != Some(key(&(0, new))) { return false; }
                }
                Arg::Approve { pk, .. } => if sponge(&next32(&mut private)).0 != *pk { return false; },
                Arg::Count { up, obj } => {
                    if events.next() != Some(key(&(2, obj.clone()))) { return false; }
                    let n = u64::from_le_bytes(obj.data[..].try_into().unwrap());
                    let Some(m) = (if *up { n.checked_add(1) } else { n.checked_sub(1) }) else { return false };
                    let new = Obj { data: m.to_le_bytes().to_vec(), ..obj.clone() };
                    if events.next() != Some(key(&(0, new.clone()))) { return false; }
                    if c.ret != (Ret::Count { what: if *up { 1 } else { 2 }, obj: new }) { return false; }
                }
                Arg::Inputs => {
                    if lens != (32, 32) { return false; }
                    let (a, b) = (next32(&mut public), next32(&mut private));
                    if a.iter().zip(b).any(|(x, y)| x.wrapping_add(1) != y) { return false; }
                }
            }
        }
        events.next().is_none()
    }

    /// What anyone could have changed in it, one thing at a time.
    pub fn edits(&self, kinds: &[&[u8]], thorough: bool) -> Vec<(String, World)> {
        let mut v: Vec<(String, World)> = vec![];
        let mut put = |n: String, f: &dyn Fn(&mut World)| { let mut w = self.clone(); f(&mut w); if w != *self { v.push((n, w)); } };
        let objs = |o: &Obj| -> Vec<Obj> {
            let mut r = vec![Obj { addr: o.addr ^ 1, ..o.clone() }, Obj { addr: o.addr ^ 1 << 63, ..o.clone() }, Obj { owner: o.owner ^ 4, ..o.clone() }];
            for b in if thorough { (0..o.data.len()).collect() } else { vec![0, o.data.len() - 8, o.data.len() - 1] } { let mut d = o.data.clone(); d[b] ^= 1; r.push(Obj { data: d, ..o.clone() }); }
            r
        };
        let keys = |k: &Key| -> Vec<Key> { if thorough { (0..32).collect() } else { vec![0usize, 31] }.into_iter().map(|b| { let mut k = *k; k[b] ^= 1; k }).collect() };
        for k in 0..self.calls.len() {
            put(format!("no call {k}"), &|w| { w.calls.remove(k); });
            put(format!("call {k} twice"), &|w| w.calls.insert(k, w.calls[k].clone()));
            put(format!("call {k} again at the end"), &|w| w.calls.push(w.calls[k].clone()));
            if k + 1 < self.calls.len() { put(format!("calls {k} swapped"), &|w| w.calls.swap(k, k + 1)); }
            for p in 0..=8u8 {
                put(format!("caller {k} is {p}"), &|w| w.calls[k].caller = p);
                // a call of another type than the callee expects is not defined
                if kinds.iter().any(|g| g.contains(&p) && g.contains(&self.calls[k].callee)) { put(format!("callee {k} is {p}"), &|w| w.calls[k].callee = p); }
            }
            let mut args = vec![];
            match &self.calls[k].arg {
                Arg::Transfer { obj, from, to, pk } => {
                    for o in objs(obj) { args.push(Arg::Transfer { obj: o, from: *from, to: *to, pk: *pk }); }
                    for p in 0..=8 { args.push(Arg::Transfer { obj: obj.clone(), from: p, to: *to, pk: *pk }); args.push(Arg::Transfer { obj: obj.clone(), from: *from, to: p, pk: *pk }); }
                    for q in keys(pk) { args.push(Arg::Transfer { obj: obj.clone(), from: *from, to: *to, pk: q }); }
                }
                Arg::Approve { pk, from, to, tok } => {
                    for q in keys(pk) { args.push(Arg::Approve { pk: q, from: *from, to: *to, tok: *tok }); args.push(Arg::Approve { pk: *pk, from: *from, to: *to, tok: Tok { pk: q, ..*tok } }); }
                    for p in 0..=8 { args.push(Arg::Approve { pk: *pk, from: p, to: *to, tok: *tok }); args.push(Arg::Approve { pk: *pk, from: *from, to: p, tok: *tok }); }
                    for b in [0, 31, 32, 63] { args.push(Arg::Approve { pk: *pk, from: *from, to: *to, tok: Tok { amount: tok.amount ^ 1 << b, ..*tok } }); }
                }
                Arg::Count { up, obj } => { for o in objs(obj) { args.push(Arg::Count { up: *up, obj: o }); } args.push(Arg::Count { up: !up, obj: obj.clone() }); }
                Arg::Inputs => {}
            }
            for (n, a) in args.into_iter().enumerate() { put(format!("argument {k}: {n}"), &|w| w.calls[k].arg = a.clone()); }
            if let Ret::Count { what, obj } = &self.calls[k].ret {
                for (n, o) in objs(obj).into_iter().enumerate() { put(format!("return {k}: {n}"), &|w| w.calls[k].ret = Ret::Count { what: *what, obj: o.clone() }); }
                for x in 0..3 { put(format!("return {k} is a {x}"), &|w| w.calls[k].ret = if x == 0 { Ret::Unit } else { Ret::Count { what: x, obj: obj.clone() } }); }
            }
        }
        for p in self.programs() {
            let es = self.events.get(&p).cloned().unwrap_or_default();
            for k in 0..es.len() {
                put(format!("{p} without event {k}"), &|w| { w.events.get_mut(&p).unwrap().remove(k); });
                put(format!("{p} with event {k} twice"), &|w| w.events.get_mut(&p).unwrap().insert(k, es[k].clone()));
                if k + 1 < es.len() { put(format!("{p} with events {k} swapped"), &|w| w.events.get_mut(&p).unwrap().swap(k, k + 1)); }
                for t in 0..5 { put(format!("{p} with event {k} of type {t}"), &|w| w.events.get_mut(&p).unwrap()[k].0 = t); }
                for (n, o) in objs(&es[k].1).into_iter().enumerate() { put(format!("{p} with event {k} on another object {n}"), &|w| w.events.get_mut(&p).unwrap()[k].1 = o.clone()); }
                for q in self.programs() { if q != p { put(format!("{p}'s event {k} at {q}"), &|w| { let e = w.events.get_mut(&p).unwrap().remove(k); w.events.entry(q).or_default().push(e); }); } }
            }
            put(format!("{p} with an event"), &|w| w.events.entry(p).or_default().push((2, Obj { addr: 9, owner: p, data: vec![0; 40] })));
            for private in [true, false] {
                let tape = |w: &mut World| std::mem::take(if private { &mut w.private } else { &mut w.public });
                let set = |w: &mut World, m| if private { w.private = m } else { w.public = m };
                let d = if private { self.private.get(&p) } else { self.public.get(&p) }.cloned().unwrap_or_default();
                let with = |w: &mut World, d: Vec<u8>| { let mut m = tape(w); m.insert(p, d); set(w, m); };
                let n = d.len();
                for b in 0..n { if thorough || b % 7 == 0 || b + 1 == n { put(format!("{p} input {private} byte {b}"), &|w| { let mut d = d.clone(); d[b] ^= 1 << (b % 8); with(w, d) }); } }
                for l in [0, 1, 8, n.saturating_sub(32), n.saturating_sub(8), n.saturating_sub(1)] { if l < n { put(format!("{p} input {private} of {l} bytes"), &|w| with(w, d[..l].to_vec())); put(format!("{p} input {private} last {l} bytes"), &|w| with(w, d[n - l..].to_vec())); } }
                put(format!("{p} input {private} longer"), &|w| with(w, [&d[..], &[0]].concat()));
                put(format!("{p} input {private} later"), &|w| with(w, [&[0], &d[..]].concat()));
                if n >= 64 { put(format!("{p} input {private} rotated"), &|w| with(w, [&d[32..], &d[..32]].concat())); }
            }
        }
        v
    }
}

pub fn run(g: &Guest, w: &World, me: u8) -> (crate::vm::End, u64) {
    let r = g.run(&[], &raw_tapes(&w.tape(), pid(me)));
    (r.end, r.steps)
}
