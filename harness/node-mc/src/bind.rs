//! N01: whoever accepts a proof of a tree accepts only what the tree's own
//! circuits made.
//!
//! Every way to put up to three levels of proofs together is tried: leaf
//! proofs bound to the tree's branch circuit or to a foreign one, proofs of a
//! foreign circuit of the same shape that proves nothing (with either key
//! among its public values), every pair of children, every claim of which
//! child is a leaf. Each proof that comes out is offered to the tree's
//! `verify` and to every circuit that embeds proofs of the tree.
use std::collections::BTreeSet;

use itertools::Either;
use mozak_recproofs::circuits::*;
use mozak_recproofs::dummy_circuit;
use mozak_recproofs::indices::VerifierCircuitTargetIndex;
use mozak_recproofs::subcircuits::unbounded;
use serde_json::json;

use crate::world::*;
use crate::{branch_of, leaf_of};

#[derive(Clone)]
struct Item { pp: PP, leaf: bool, ok: bool, how: String }

struct Tree<'a> {
    name: &'static str,
    /// own leaf proofs, and the same bound to the foreign circuit
    leaves: Vec<Item>,
    evil: &'a Data,
    ver: &'a VerifierCircuitTargetIndex,
    own: &'a Data,
    branch: Box<dyn Fn(&Item, bool, &Item, bool) -> Option<PP> + 'a>,
    verify: Box<dyn Fn(&PP) -> bool + 'a>,
    /// None: this proof says something the consumer has no use for
    consumers: Vec<(&'static str, Box<dyn Fn(&PP) -> Option<bool> + 'a>)>,
}

fn foreign(c: &Data) -> Data { dummy_circuit::<C, D>(&c.common, |_| {}) }

/// The leaf proof that `make` makes, and the same with the foreign key.
fn leaves(leaf: &Data, unb: &unbounded::LeafSubCircuit, evil: &Data, what: &str, make: impl FnOnce() -> PP) -> Vec<Item> {
    let (pp, mut w) = recording(make);
    let v = &unb.targets.inputs.verifier;
    let set = |w: &mut Wit, t: &[_], x: &[F]| for (t, x) in t.iter().zip(x) { w.insert(*t, x.to_canonical_u64()); };
    set(&mut w, &v.circuit_digest.elements, &evil.verifier_only.circuit_digest.elements);
    for (t, x) in v.constants_sigmas_cap.0.iter().zip(&evil.verifier_only.constants_sigmas_cap.0) { set(&mut w, &t.elements, &x.elements); }
    let bad = prove_raw(leaf, &w);
    let mut r = vec![Item { pp, leaf: true, ok: true, how: what.into() }];
    if let Some(pp) = bad { r.push(Item { pp, leaf: true, ok: false, how: format!("{what}*") }); }
    r
}

fn explore(c: &mc::Ctx, t: &Tree, depth: usize, cap: usize) -> Vec<Item> {
    let mut items: Vec<Item> = vec![];
    let mut seen: BTreeSet<(Vec<u64>, Vec<u64>)> = BTreeSet::new();
    let mut add = |items: &mut Vec<Item>, i: Item| {
        let k = (i.pp.public_inputs.iter().map(|x| x.to_canonical_u64()).collect(), i.pp.proof.token.elements.iter().map(|x| x.to_canonical_u64()).collect());
        if seen.insert(k) { items.push(i); }
    };
    for l in &t.leaves { add(&mut items, l.clone()); }
    let own_leaves: Vec<Item> = items.iter().filter(|i| i.ok).cloned().collect();
    let mut says: Vec<(Vec<F>, String)> = own_leaves.iter().map(|l| (l.pp.public_inputs.clone(), l.how.clone())).collect();
    for a in &own_leaves { for b in &own_leaves {
        if let Some(p) = (t.branch)(a, true, b, true) { says.push((p.public_inputs, format!("({},{})", a.how, b.how))); }
    } }
    for (v, how) in says {
        for k in [t.own, t.evil] {
            let mut v = v.clone();
            t.ver.set_field::<C, D>(&mut v, k.verifier_only.clone());
            add(&mut items, Item { pp: t.evil.forge(v), leaf: false, ok: false, how: format!("foreign{}[{how}]", if std::ptr::eq(k, t.own) { "" } else { "*" }) });
        }
    }
    let mut from = 0;
    let mut made = 0;
    for _ in 0..depth {
        let n = items.len();
        for i in 0..n { for j in 0..n {
            if i < from && j < from { continue; }
            for flags in 0..4 {
                let (a, b) = (items[i].clone(), items[j].clone());
                let (al, bl) = (flags & 1 != 0, flags & 2 != 0);
                c.add("transitions", 1);
                let honest = a.ok && b.ok && al == a.leaf && bl == b.leaf;
                let how = format!("{}({}{},{}{})", t.name, if al { "leaf:" } else { "" }, a.how, if bl { "leaf:" } else { "" }, b.how);
                match (t.branch)(&a, al, &b, bl) {
                    Some(pp) => {
                        made += 1;
                        if al != a.leaf || bl != b.leaf {
                            c.violation(format!("{} takes a proof for what it is not", t.name), json!({"proof": how}));
                        }
                        if items.len() < cap { add(&mut items, Item { pp, leaf: false, ok: honest, how }); }
                    }
                    None => { c.check(!honest, || format!("{} refuses genuine children", t.name), || json!({"proof": how})); }
                }
            }
        } }
        from = n;
    }
    for i in &items {
        c.add("states", 1);
        let want = i.ok && !i.leaf;
        let got = (t.verify)(&i.pp);
        c.add("verdicts", 1);
        c.outcome(format!("{} verify {got}", t.name));
        c.check(got == want, || if got { format!("{}: verify accepts a proof that foreign circuits made", t.name) } else { format!("{}: verify refuses a genuine proof", t.name) }, || json!({"proof": i.how}));
        for (name, f) in &t.consumers {
            if let Some(got) = f(&i.pp) {
                c.add("verdicts", 1);
                c.outcome(format!("{} {name} {got}", t.name));
                c.check(got == want, || if got { format!("{name} accepts a {} proof that foreign circuits made", t.name) } else { format!("{name} refuses a genuine {} proof", t.name) }, || json!({"proof": i.how}));
            }
        }
    }
    c.add("branch proofs", made);
    items
}

/// `branch` of a tree in terms of the two kinds of children.
macro_rules! kids { ($m:ident, $like:expr, $a:expr, $al:expr) => {{
    let e: Either<$m::LeafProof<F, C, D>, $m::BranchProof<F, C, D>> = if $al { Either::Left(leaf_of!($m, $a.pp, $like)) } else { Either::Right(branch_of!($m, $a.pp, $like)) };
    e
}} }

pub fn n01(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    let w = world();
    let b = match w.basic() { Ok(b) => b, Err(e) => { c.violation("genuine proofs cannot be made", json!({"error": e.to_string()})); return; } };
    let depth = c.pick(2, 3);
    let cap = c.pick(60, 160);

    // merge
    let evil = foreign(&w.merge_b.circuit);
    let mut ls = leaves(&w.merge_l.circuit, &w.merge_l.unbounded, &evil, "ab", || w.merge_l.prove(&w.merge_b, Some(h(10)), Some(h(20))).unwrap().proof);
    ls.extend(leaves(&w.merge_l.circuit, &w.merge_l.unbounded, &evil, "a-", || w.merge_l.prove(&w.merge_b, Some(h(12)), None).unwrap().proof));
    explore(c, &Tree {
        name: "merge", leaves: ls, evil: &evil, ver: &w.merge_b.unbounded.indices.verifier, own: &w.merge_b.circuit,
        branch: Box::new(|x, xl, y, yl| w.merge_b.prove(&kids!(merge, b.merge_b, x, xl), &kids!(merge, b.merge_b, y, yl)).ok().map(|p| p.proof)),
        verify: Box::new(|p| w.merge_b.verify(branch_of!(merge, p, b.merge_b)).is_ok()),
        consumers: vec![
            ("verify_program branch", Box::new(|p| {
                let i = &w.merge_b.merge.indices;
                let child = |pr: bool, hh: H| {
                    let mut v = b.vp_l.proof.public_inputs.clone();
                    w.vp_b.events.indices.hash_present.set_field(&mut v, pr);
                    w.vp_b.events.indices.hash.set_field(&mut v, hh);
                    leaf_of!(verify_program, w.vp_l.circuit.forge(v), b.vp_l)
                };
                let q = &p.public_inputs;
                let (l, r) = (child(i.a_present.get_field(q), i.a_hash.get_field(q)), child(i.b_present.get_field(q), i.b_hash.get_field(q)));
                Some(w.vp_b.prove(&branch_of!(merge, p, b.merge_b), &l, &r).is_ok())
            })),
            ("verify_tx branch", Box::new(|p| {
                let i = &w.merge_b.merge.indices;
                let child = |pr: bool, hh: H| {
                    let mut v = b.tx_l.proof.public_inputs.clone();
                    w.tx_b.events.indices.hash_present.set_field(&mut v, pr);
                    w.tx_b.events.indices.hash.set_field(&mut v, hh);
                    leaf_of!(verify_tx, w.tx_l.circuit.forge(v), b.tx_l)
                };
                let q = &p.public_inputs;
                let (l, r) = (child(i.a_present.get_field(q), i.a_hash.get_field(q)), child(i.b_present.get_field(q), i.b_hash.get_field(q)));
                Some(w.tx_b.prove(&branch_of!(merge, p, b.merge_b), &l, &r).is_ok())
            })),
        ],
    }, depth, cap);

    // events of a program
    let evil = foreign(&w.er_b.circuit);
    let mut ls = leaves(&w.er_l.circuit, &w.er_l.unbounded, &evil, "e", || w.er_l.prove(&w.er_b, w.event(30)).unwrap().proof);
    ls.extend(leaves(&w.er_l.circuit, &w.er_l.unbounded, &evil, "f", || w.er_l.prove(&w.er_b, w.event(34)).unwrap().proof));
    let ers = explore(c, &Tree {
        name: "build_event_root", leaves: ls, evil: &evil, ver: &w.er_b.unbounded.indices.verifier, own: &w.er_b.circuit,
        branch: Box::new(|x, xl, y, yl| w.er_b.prove(&kids!(build_event_root, b.er_b, x, xl), &kids!(build_event_root, b.er_b, y, yl)).ok().map(|p| p.proof)),
        verify: Box::new(|p| w.er_b.verify(branch_of!(build_event_root, p, b.er_b)).is_ok()),
        consumers: vec![("verify_program leaf", Box::new(|p| Some(w.vp_leaf(0, Some(&branch_of!(build_event_root, p, b.er_b)), a4(40), h(44)).is_ok())))],
    }, depth, cap);
    // a program without events takes no proof of events, however made
    for i in &ers {
        let pr = w.programs[0].proof(None, a4(40), h(44));
        let got = w.vp_l.prove(&w.vp_b, &w.programs[0].circuit.verifier_only, &pr, Ok(&branch_of!(build_event_root, i.pp, b.er_b))).is_ok();
        c.add("verdicts", 1);
        c.check(!got, || "verify_program leaf takes events for a program that has none".into(), || json!({"proof": i.how}));
    }

    // what the events do to an object
    let evil = foreign(&w.ad_b.circuit);
    let mk = |ty, v| w.ad_l.prove(&w.ad_b, ADDR, w.programs[0].id, ty, a4(v)).unwrap().proof;
    let mut ls = leaves(&w.ad_l.circuit, &w.ad_l.unbounded, &evil, "r", || mk(mozak_recproofs::EventType::Read, 30));
    ls.extend(leaves(&w.ad_l.circuit, &w.ad_l.unbounded, &evil, "e", || mk(mozak_recproofs::EventType::Ensure, 30)));
    explore(c, &Tree {
        name: "accumulate_delta", leaves: ls, evil: &evil, ver: &w.ad_b.unbounded.indices.verifier, own: &w.ad_b.circuit,
        branch: Box::new(|x, xl, y, yl| w.ad_b.prove(&kids!(accumulate_delta, b.ad_b, x, xl), &kids!(accumulate_delta, b.ad_b, y, yl)).ok().map(|p| p.proof)),
        verify: Box::new(|p| w.ad_b.verify(branch_of!(accumulate_delta, p, b.ad_b)).is_ok()),
        consumers: vec![("match_delta leaf", Box::new(|p| Some(w.md_l.prove(&w.md_b, &branch_of!(accumulate_delta, p, b.ad_b), w.md_witness()).is_ok())))],
    }, depth, cap);

    // the events and the objects
    let evil = foreign(&w.md_b.circuit);
    let mut ls = leaves(&w.md_l.circuit, &w.md_l.unbounded, &evil, "m", || w.md_l.prove(&w.md_b, &b.ad_b, w.md_witness()).unwrap().proof);
    ls.extend(leaves(&w.md_l.circuit, &w.md_l.unbounded, &evil, "n", || w.md_l.prove(&w.md_b, &b.ad_b, match_delta::LeafWitnessValue { old_credits: 9, new_credits: 9, ..w.md_witness() }).unwrap().proof));
    explore(c, &Tree {
        name: "match_delta", leaves: ls, evil: &evil, ver: &w.md_b.unbounded.indices.verifier, own: &w.md_b.circuit,
        branch: Box::new(|x, xl, y, yl| w.md_b.prove(&kids!(match_delta, b.md_b, x, xl), &kids!(match_delta, b.md_b, y, yl)).ok().map(|p| p.proof)),
        verify: Box::new(|p| w.md_b.verify(branch_of!(match_delta, p, b.md_b)).is_ok()),
        consumers: vec![("verify_block (match)", Box::new(|p| {
            let m = branch_of!(match_delta, p, b.md_b);
            let (tx, _, su) = w.block_parts(&b, m.events(), 1, m.state_hash(), b.base.state(), h(90));
            Some(w.vb.prove(&tx, &m, &su, &b.base).is_ok())
        }))],
    }, depth, cap);

    // programs
    let evil = foreign(&w.vp_b.circuit);
    let run = |cast: H, depth: usize| {
        let ls = leaves(&w.vp_l.circuit, &w.vp_l.unbounded, &evil, "p", || w.vp_leaf(0, Some(&b.er_b), a4(40), cast).unwrap().proof);
        explore(c, &Tree {
            name: "verify_program", leaves: ls, evil: &evil, ver: &w.vp_b.unbounded.indices.verifier, own: &w.vp_b.circuit,
            branch: Box::new(|x, xl, y, yl| {
                let m = w.merged(&b.merge_b, w.vp_events(&x.pp.public_inputs), w.vp_events(&y.pp.public_inputs));
                w.vp_b.prove(&m, &kids!(verify_program, b.vp_b, x, xl), &kids!(verify_program, b.vp_b, y, yl)).ok().map(|p| p.proof)
            }),
            verify: Box::new(|p| w.vp_b.verify(branch_of!(verify_program, p, b.vp_b)).is_ok()),
            consumers: vec![("verify_tx leaf", Box::new(|p| {
                let q = branch_of!(verify_program, p, b.vp_b);
                let cast: [F; 4] = w.vp_b.cast_root.indices.values.get_field(&p.public_inputs);
                (q.program_id().elements == cast).then(|| w.tx_l.prove(&w.tx_b, &q).is_ok())
            }))],
        }, depth, cap)
    };
    let ids: BTreeSet<[u64; 4]> = run(h(44), depth).iter().map(|i| branch_of!(verify_program, i.pp, b.vp_b).program_id().elements.map(|x| x.to_canonical_u64())).collect();
    c.info("cast roots", ids.len());
    for id in ids { run(HashOut { elements: id.map(F::from_canonical_u64) }, depth); }

    // transactions
    let evil = foreign(&w.tx_b.circuit);
    let ls = leaves(&w.tx_l.circuit, &w.tx_l.unbounded, &evil, "t", || w.tx_l.prove(&w.tx_b, &b.vp_b).unwrap().proof);
    explore(c, &Tree {
        name: "verify_tx", leaves: ls, evil: &evil, ver: &w.tx_b.unbounded.indices.verifier, own: &w.tx_b.circuit,
        branch: Box::new(|x, xl, y, yl| {
            let m = w.merged(&b.merge_b, w.tx_events(&x.pp.public_inputs), w.tx_events(&y.pp.public_inputs));
            w.tx_b.prove(&m, &kids!(verify_tx, b.tx_b, x, xl), &kids!(verify_tx, b.tx_b, y, yl)).ok().map(|p| p.proof)
        }),
        verify: Box::new(|p| w.tx_b.verify(branch_of!(verify_tx, p, b.tx_b)).is_ok()),
        consumers: vec![("verify_block (transactions)", Box::new(|p| {
            let ev = w.tx_b.events.indices.hash.get_field(&p.public_inputs);
            let (_, md, su) = w.block_parts(&b, ev, 1, h(94), b.base.state(), h(90));
            Some(w.vb.prove(&branch_of!(verify_tx, p, b.tx_b), &md, &su, &b.base).is_ok())
        }))],
    }, depth, cap);

    states(c, w, &b);
    blocks(c, w, &b, c.pick(3, 4));
}

/// The state tree: each height takes only proofs of the height below.
fn states(c: &mc::Ctx, w: &World, b: &Basic) {
    let mut all: Vec<(usize, bool, PP, String)> = vec![];
    let same = w.su_l.prove(h(70), h(70), None).unwrap().proof;
    for (what, p) in [("leaf", b.su_l.proof.clone()), ("leaf'", same)] { all.push((0, true, p, what.into())); }
    let datas: Vec<&Data> = std::iter::once(&w.su_l.circuit).chain(w.su_b.iter().map(|x| &x.circuit)).collect();
    let evils: Vec<Data> = datas.iter().map(|d| foreign(d)).collect();
    for (k, e) in evils.iter().enumerate().take(1) { for (_, _, p, how) in all.clone() { all.push((k, false, e.forge(p.public_inputs.clone()), format!("foreign[{how}]"))); } }
    for height in 1..=w.su_b.len() {
        let s = &w.su_b[height - 1];
        let n = all.len();
        let mut new = vec![];
        for i in 0..n { for j in 0..n {
            let (x, y) = (&all[i], &all[j]);
            c.add("transitions", 1);
            let honest = x.1 && y.1 && x.0 == height - 1 && y.0 == height - 1;
            let like = &b.su_l;
            let how = format!("state{height}({},{})", x.3, y.3);
            match s.prove(&leaf_of!(state_update, x.2, like), &leaf_of!(state_update, y.2, like)) {
                Ok(p) => {
                    c.check(honest, || format!("state_update branch {height} takes a proof that is not of the height below"), || json!({"proof": how}));
                    if new.len() < 8 { new.push((height, honest, p.proof, how)); }
                }
                // two changes at one address, or in the wrong order, do not fit: not judged here
                Err(_) => {}
            }
        } }
        c.check(!new.is_empty(), || format!("state_update branch {height} takes no genuine children"), || json!({}));
        let e = &evils[height];
        for (_, _, p, how) in new.clone() { new.push((height, false, e.forge(p.public_inputs.clone()), format!("foreign[{how}]"))); }
        all.extend(new);
    }
    let top = w.su_b.len();
    let like = b.su_b.last().unwrap();
    for (k, ok, p, how) in &all {
        c.add("states", 1);
        let want = *ok && *k == top;
        c.add("verdicts", 1);
        let got = w.su_b[top - 1].verify(branch_of!(state_update, p, like)).is_ok();
        c.check(got == want, || format!("state_update: verify {} a proof", if got { "accepts" } else { "refuses" }), || json!({"proof": how}));
        if p.public_inputs.len() != like.proof.public_inputs.len() { continue; }
        let q = branch_of!(state_update, p, like);
        if !q.summary_present() { continue; }
        let base = w.vb.prove_base(q.old()).unwrap();
        let (tx, md, _) = w.block_parts(b, h(98), 1, q.summary(), q.old(), q.new());
        let got = w.vb.prove(&tx, &md, &q, &base).is_ok();
        c.add("verdicts", 1);
        // a genuine one may be refused for its address
        c.check(!got || want, || "verify_block (state) accepts a foreign proof".into(), || json!({"proof": how}));
        if p.public_inputs == like.proof.public_inputs && want {
            c.check(got, || "verify_block (state) refuses a genuine proof".into(), || json!({"proof": how}));
        }
    }
}

/// Chains of blocks over genuine and foreign previous blocks.
fn blocks(c: &mc::Ctx, w: &World, b: &Basic, depth: usize) {
    let evil = foreign(&w.vb.circuit);
    let i = &w.vb.block.indices;
    // (proof, genuine, is a block)
    let mut all: Vec<(PP, bool, bool, String)> = vec![(b.base.proof.clone(), true, false, "base".into())];
    for (key, k) in [("", &w.vb.circuit), ("*", &evil)] {
        for height in [0u64, 1, 5] {
            for same in [true, false] {
                let mut v = b.base.proof.public_inputs.clone();
                i.verifier.set_field::<C, D>(&mut v, k.verifier_only.clone());
                i.block_height.set_field(&mut v, f(height));
                if !same { i.state_root.set_field(&mut v, h(200)); }
                let s = if same { "" } else { "'" };
                all.push((w.vb.block.dummy.forge(v.clone()), key.is_empty() && height == 0 && same, false, format!("base{key}{s}@{height}")));
                all.push((evil.forge(v), false, false, format!("foreign{key}{s}@{height}")));
            }
        }
    }
    let mut from = 0;
    for _ in 0..depth {
        let n = all.len();
        for j in from..n {
            let (p, ok, _, how) = all[j].clone();
            let old = i.state_root.get_field(&p.public_inputs);
            let height = i.block_height.get_field(&p.public_inputs).to_canonical_u64();
            let (tx, md, su) = w.block_parts(b, h(98), height + 1, h(94), old, h(210 + height));
            let prev = verify_block::BlockProof::<F, C, D> { proof: p, tag: std::marker::PhantomData, indices: b.base.indices.clone() };
            c.add("transitions", 1);
            match w.vb.prove(&tx, &md, &su, &prev) {
                Ok(q) => all.push((q.proof, ok, true, format!("block({how})"))),
                Err(_) => { c.check(!ok, || "verify_block refuses a genuine previous block".into(), || json!({"previous": how})); }
            }
        }
        from = n;
    }
    for (p, ok, block, how) in &all {
        c.add("states", 1);
        let want = *ok && *block;
        let got = w.vb.verify(verify_block::BlockProof::<F, C, D> { proof: p.clone(), tag: std::marker::PhantomData, indices: b.base.indices.clone() }).is_ok();
        c.add("verdicts", 1);
        c.outcome(format!("block verify {got}"));
        c.check(got == want, || format!("verify_block: verify {} a chain", if got { "accepts a foreign" } else { "refuses a genuine" }), || json!({"proof": how}));
    }
}
