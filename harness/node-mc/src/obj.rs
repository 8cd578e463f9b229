//! N04: what the events of a block did to an object is exactly what the rules
//! allow.
//!
//! Every set of up to three events of a small domain at one address, in every
//! order and shape of the accumulation tree, against every change of an object
//! of a small domain: the real circuits accept exactly what the reference
//! rules below say.
use mozak_recproofs::circuits::accumulate_delta::core::BranchWitnessValue;
use mozak_recproofs::circuits::*;
use mozak_recproofs::{summarize, Event, EventType, Object};
use serde_json::json;

use crate::world::*;
use crate::branch_of;

const A: u64 = 0x100;
const B: u64 = 0x200;
const X: u64 = 0x310;
const Y: u64 = 0x320;
const P: u64 = 0xFFFF_FFFF_0000_0001;
const HEIGHT: u64 = 7;
const LAST: u64 = 3;

fn v4(v: u64) -> [F; 4] { if v == 0 { [F::ZERO; 4] } else { a4(v) } }
fn name(v: u64) -> &'static str { match v { 0 => "0", A => "A", B => "B", X => "X", Y => "Y", _ => "?" } }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Ev { owner: u64, ty: u8, v: u64 }
pub const TYPES: [EventType; 6] = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner, EventType::CreditDelta];
impl Ev {
    fn event(self) -> Event<F> {
        let value = if self.ty == 5 {
            let d = self.v as i64;
            [f(d.unsigned_abs()), F::ZERO, F::ZERO, F::from_bool(d < 0)]
        } else { v4(self.v) };
        Event { owner: v4(self.owner), ty: TYPES[self.ty as usize], address: ADDR, value }
    }
    fn show(self) -> String {
        let n = ["write", "ensure", "read", "give", "take", "credit"][self.ty as usize];
        format!("{}:{n}({})", name(self.owner), if self.ty == 5 { (self.v as i64).to_string() } else { name(self.v).to_string() })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Obj { owner: u64, data: u64, credits: u64 }

fn domain(rich: bool) -> Vec<Ev> {
    let mut r = vec![];
    for owner in [0, A, B] {
        for ty in 0..6u8 {
            let vs: Vec<u64> = match ty {
                0..=2 => if rich { vec![X, Y, 0] } else { vec![X, Y] },
                3 | 4 => vec![0, A, B],
                _ => vec![5, -5i64 as u64],
            };
            for v in vs { r.push(Ev { owner, ty, v }); }
        }
    }
    r
}

/// The reference. `None`: the events cannot be told together.
struct Rules { data: bool, owner: bool, credits: bool, credit_sign: bool, own_debit: bool }
fn compatible(es: &[Ev]) -> bool {
    let of = |t: &[u8]| es.iter().filter(|e| t.contains(&e.ty)).copied().collect::<Vec<_>>();
    let all_eq = |x: Vec<u64>| x.windows(2).all(|w| w[0] == w[1]);
    of(&[0]).len() <= 1 && of(&[3]).len() <= 1 && of(&[4]).len() <= 1
        && all_eq(of(&[0, 1]).iter().map(|e| e.v).collect()) && all_eq(of(&[2]).iter().map(|e| e.v).collect())
        && all_eq(es.iter().filter_map(|e| match e.ty { 0 | 3 => Some(e.owner), 4 => Some(e.v), _ => None }).collect())
        && all_eq(es.iter().filter_map(|e| match e.ty { 3 => Some(e.v), 4 => Some(e.owner), _ => None }).collect())
}
fn rules(es: &[Ev], old: Obj, new: Obj) -> Rules {
    let has = |t: u8| es.iter().any(|e| e.ty == t);
    let data = es.iter().all(|e| match e.ty { 0 | 1 => e.v == new.data, 2 => e.v == old.data, _ => true })
        && (has(0) || old.data == new.data);
    let owner = es.iter().all(|e| match e.ty {
        0 => e.owner == old.owner,
        3 => e.owner == old.owner && e.v == new.owner,
        4 => e.v == old.owner && e.owner == new.owner,
        _ => true,
    }) && has(3) == has(4) && if has(3) { (old.owner == 0) != (new.owner == 0) } else { old.owner == new.owner && old.owner != 0 };
    let delta: i64 = es.iter().filter(|e| e.ty == 5).map(|e| e.v as i64).sum();
    let credits = (new.credits as u128 + P as u128) % P as u128 == ((old.credits as i128 + i128::from(delta)).rem_euclid(i128::from(P))) as u128;
    let credit_sign = old.credits as i128 + i128::from(delta) == new.credits as i128;
    // who takes credits away has to own the object (or be creating it)
    let own_debit = es.iter().all(|e| e.ty != 5 || e.v as i64 >= 0 || e.owner == old.owner || (old.owner == 0 && e.owner == new.owner));
    Rules { data, owner, credits, credit_sign, own_debit }
}

type AdB = accumulate_delta::BranchProof<F, C, D>;

/// Every order and shape of putting the events together.
fn accumulate(w: &World, es: &[Ev]) -> Vec<(String, Option<AdB>)> {
    let leaf = |e: Ev| { let v = e.event(); w.ad_l.prove(&w.ad_b, v.address, v.owner, v.ty, v.value).expect("a leaf for every event") };
    let ls: Vec<_> = es.iter().map(|e| leaf(*e)).collect();
    let s: Vec<String> = es.iter().map(|e| e.show()).collect();
    match es.len() {
        1 => vec![(format!("[{}]", s[0]), w.ad_b.prove_one(&ls[0]).ok())],
        2 => [(0, 1), (1, 0)].map(|(i, j)| (format!("({},{})", s[i], s[j]), w.ad_b.prove(&ls[i], &ls[j]).ok())).into(),
        _ => {
            let mut r = vec![];
            for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1)] {
                let p = w.ad_b.prove(&ls[i], &ls[j]).ok();
                r.push((format!("(({},{}),{})", s[i], s[j], s[k]), p.as_ref().and_then(|p| w.ad_b.prove(p, &ls[k]).ok())));
                r.push((format!("({},({},{}))", s[k], s[i], s[j]), p.as_ref().and_then(|p| w.ad_b.prove(&ls[k], p).ok())));
                let one = w.ad_b.prove_one(&ls[k]).ok();
                r.push((format!("(({},{}),[{}])", s[i], s[j], s[k]), p.as_ref().and_then(|p| one.as_ref().and_then(|o| w.ad_b.prove(p, o).ok()))));
            }
            r
        }
    }
}

pub fn n04(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    let w = world();
    let b = match w.basic() { Ok(b) => b, Err(e) => { c.violation("genuine proofs cannot be made", json!({"error": e.to_string()})); return; } };
    let mut sets: Vec<Vec<Ev>> = vec![];
    let d = domain(true);
    for (i, e) in d.iter().enumerate() { sets.push(vec![*e]); for g in &d[i..] { sets.push(vec![*e, *g]); } }
    let d3: Vec<Ev> = if c.quick() { domain(false).into_iter().filter(|e| e.owner != B && !(e.ty < 5 && (e.v == B || e.v == Y))).collect() } else { domain(true) };
    for i in 0..d3.len() { for j in i..d3.len() { for k in j..d3.len() { sets.push(vec![d3[i], d3[j], d3[k]]); } } }
    c.info("events", d.len());
    c.info("sets of events", sets.len());
    let objs: Vec<Obj> = [0, A, B].iter().flat_map(|o| [0, X, Y].iter().flat_map(move |x| [0u64, 5, 10, P - 5].iter().map(move |cr| Obj { owner: *o, data: *x, credits: *cr }))).collect();
    c.info("objects", objs.len());
    c.par("sets", sets.len(), |n, l| {
        plonky2::plonk::circuit_builder::set_panics(false);
        let es = &sets[n];
        let want = compatible(es);
        let all = accumulate(w, es);
        let mut good: Option<AdB> = None;
        for (how, p) in all {
            l.add("transitions", 1);
            c.check(p.is_some() == want, || if want { "accumulate_delta refuses events that fit".into() } else { "accumulate_delta takes events that contradict each other".into() }, || json!({"events": how}));
            let Some(p) = p else { continue };
            // the same whatever the shape
            let i = &w.ad_b.partial_state.indices;
            let same = |q: &AdB| i.object_flags.get_field(&q.proof.public_inputs);
            if let Some(g) = &good { c.check(same(g) == same(&p) && fields(w, g) == fields(w, &p), || "accumulate_delta depends on the shape of the tree".into(), || json!({"events": how})); }
            else { good = Some(p); }
        }
        let Some(acc) = good else { return };
        // values that no event speaks of are the prover's to choose
        let has = |t: &[u8]| es.iter().any(|e| t.contains(&e.ty));
        let junk = {
            let i = &w.ad_b.partial_state.indices;
            let mut v = acc.proof.public_inputs.clone();
            if !has(&[0, 3, 4]) { i.old_owner.set_field(&mut v, v4(A)); }
            if !has(&[3, 4]) { i.new_owner.set_field(&mut v, v4(B)); }
            if !has(&[2]) { i.old_data.set_field(&mut v, v4(X)); }
            if !has(&[0, 1]) { i.new_data.set_field(&mut v, v4(Y)); }
            branch_of!(accumulate_delta, w.ad_b.circuit.forge(v), acc)
        };
        for acc in [&acc, &junk] {
            for old in &objs { for new in &objs {
                // credits that differ by something no event can do are cut
                let cand = old.credits == new.credits || es.iter().any(|e| e.ty == 5) || (old.credits == 0 && new.credits == 5);
                if !cand { continue; }
                for last in [LAST, 0] {
                    if last == 0 && old.credits != 0 { continue; }
                    l.add("states", 1);
                    let wv = match_delta::LeafWitnessValue {
                        block_height: HEIGHT, last_updated: last,
                        old_owner: v4(old.owner), new_owner: v4(new.owner), old_data: v4(old.data), new_data: v4(new.data),
                        old_credits: old.credits, new_credits: new.credits,
                    };
                    let got = w.md_l.prove(&w.md_b, acc, wv);
                    let r = rules(es, *old, *new);
                    let show = || json!({"events": es.iter().map(|e| e.show()).collect::<Vec<_>>(), "old": format!("{}:{}:{}", name(old.owner), name(old.data), old.credits as i64), "new": format!("{}:{}:{}", name(new.owner), name(new.data), new.credits as i64)});
                    let ok = r.data && r.owner && r.credits;
                    l.add("verdicts", 1);
                    match got {
                        Ok(p) => {
                            if ok {
                                c.check(r.credit_sign, || "credits below zero".into(), show);
                                c.check(r.own_debit, || "credits taken by a program that does not own the object".into(), show);
                                let gone = new.owner == 0;
                                let touched = es.iter().any(|e| matches!(e.ty, 0 | 3)) || old.credits != new.credits;
                                let nl = if gone { 0 } else if touched { HEIGHT } else { last };
                                let o = Object { constraint_owner: v4(old.owner), last_updated: f(last), credits: f(old.credits), data: v4(old.data) };
                                let n = Object { constraint_owner: v4(new.owner), last_updated: f(nl), credits: f(new.credits), data: v4(new.data) };
                                let s = summarize(ADDR, o.hash(), n.hash());
                                c.check(p.state_hash() == s, || "match_delta: the state hash is not that of the change".into(), show);
                                c.check(p.events() == acc.events() && p.block_height() == HEIGHT, || "match_delta: events or height of another leaf".into(), show);
                                l.outcome(format!("accepted {}", es.iter().map(|e| e.ty.to_string()).collect::<String>()));
                            } else {
                                let why = if !r.data { if es.iter().any(|e| e.ty == 1 && e.v != new.data) { "data past an ensure" } else { "data" } } else if !r.owner { "owner" } else { "credits" };
                                c.violation(format!("match_delta accepts a change of {why} that the events do not allow"), show());
                            }
                        }
                        Err(_) => {
                            if ok && r.credit_sign && r.own_debit { c.violation("match_delta refuses a change that the events allow", show()); }
                        }
                    }
                }
            } }
        }
    });
    let _ = b;
}

/// What the accumulated proof says, undetermined values left out.
fn fields(w: &World, p: &AdB) -> Vec<u64> {
    let i = &w.ad_b.partial_state.indices;
    let q = &p.proof.public_inputs;
    let fl = i.object_flags.get_field(q).to_canonical_u64();
    let mut r = vec![fl, i.address.get_field(q).to_canonical_u64(), i.credit_delta.get_field(q).to_canonical_u64()];
    let mut put = |on: bool, v: [F; 4]| if on { r.extend(v.map(|x| x.to_canonical_u64())) };
    put(fl & 0b11001 != 0, i.old_owner.get_field(q));
    put(fl & 0b11000 != 0, i.new_owner.get_field(q));
    put(fl & 0b00100 != 0, i.old_data.get_field(q));
    put(fl & 0b00011 != 0, i.new_data.get_field(q));
    r
}
#[allow(unused)]
fn _b(_: BranchWitnessValue<F>) {}
