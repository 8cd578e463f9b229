//! N06, N07, N08: the node. Its state tree, its arithmetic of addresses and
//! trees, and the blocks that it makes.
use std::panic::{catch_unwind, AssertUnwindSafe};

use itertools::Itertools;
use mozak_node::block_proposer::block::{AuxBlockData, Blocks};
use mozak_node::block_proposer::matches::{AuxMatchesData, Matches};
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::transactions::{AuxTransactionData, TransactionAccumulator};
use mozak_node::block_proposer::{reduce_tree, reduce_tree_by_address, Address, BranchAddress, BranchAddressComparison as Cmp, Dir};
use mozak_recproofs::circuits::state_update;
use mozak_recproofs::{summarize, Object};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, EventType, Poseidon2Hash as H2, ProgramIdentifier, StateAddress};
use plonky2::field::types::Field64;
use serde_json::json;

use crate::world::*;

fn attempt<T>(g: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(g)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
fn object(v: u64) -> Object<F> { Object { constraint_owner: a4(0x10 * v), last_updated: f(v), credits: f(100 + v), data: a4(0x1000 * v) } }

// N06

/// What a leaf held at the last finalize, and what was done to it since.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act { No, Read, Del, Up(u64) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Slot { old: Option<u64>, act: Act }
impl Slot {
    fn new(self) -> Option<u64> { match self.act { Act::No | Act::Read => self.old, Act::Del => None, Act::Up(o) => Some(o) } }
    /// `None`: refused
    fn apply(self, op: Act) -> Option<Slot> {
        let act = match (self.act, op) {
            (_, Act::No) => unreachable!(),
            (Act::No, Act::Read) => Act::Read,
            (a, Act::Read) => a,
            (Act::Up(_), Act::Del) => return None,
            // to delete what is not there is as good as reading it
            (Act::Read, Act::Del) if self.old.is_none() => Act::Read,
            (_, Act::Del) => Act::Del,
            (Act::Up(a), Act::Up(b)) => if a == b { Act::Up(a) } else { return None },
            (Act::Del, Act::Up(_)) => return None,
            (_, Act::Up(b)) => Act::Up(b),
        };
        Some(Slot { act, ..self })
    }
}
#[derive(Clone, Copy, Debug)]
enum Op { At(usize, Act), Finalize }

pub fn n06(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    // depth of the tree, its addresses, longest sequence
    let q = |a: usize, b: usize| c.pick(a, b);
    let top = 1u64 << 63;
    let mut plans: Vec<(usize, Vec<u64>, usize)> = vec![
        (0, vec![0, 1], q(5, 6)), (1, vec![0, 3], q(5, 6)), (1, vec![2, 3], 5), (1, vec![1, 2], q(4, 5)), (2, vec![0, 1, 5], q(4, 5)), (2, vec![2, 3, 7], 4), (1, vec![0, 1, 2, 3], q(3, 4)),
        (63, vec![0, top], q(3, 4)), (63, vec![top, top + 1], q(3, 4)), (63, vec![1, F::ORDER - 2], q(3, 4)), (32, vec![1 << 32, 1], q(3, 4)),
    ];
    plans.sort_by_key(|p| p.0);
    for (depth, addrs, len) in plans {
        let aux = AuxStateData::new(&CONFIG, depth);
        let leaf = state_update::LeafCircuit::<F, C, D>::new(&CONFIG);
        let mut b = state_update::BranchCircuit::from_leaf(&CONFIG, &leaf);
        for _ in 0..depth { b = state_update::BranchCircuit::from_branch(&CONFIG, &b); }
        let mut ops = vec![Op::Finalize];
        for k in 0..addrs.len() { for a in [Act::Read, Act::Del, Act::Up(1), Act::Up(2)] { ops.push(Op::At(k, a)); } }
        let n = ops.len();
        let total: usize = (1..=len).map(|l| n.pow(l as u32)).sum();
        c.info(&format!("depth {depth}, {} addresses: sequences", addrs.len()), total);
        let chunk = 256;
        let empty = Object::<F>::default().hash();
        let mut none = vec![empty];
        for _ in 0..=depth { let l = *none.last().unwrap(); none.push(hash_branch(&l, &l)); }
        c.par(&format!("state {depth} {addrs:?}"), total.div_ceil(chunk), |m, l| {
            plonky2::plonk::circuit_builder::set_panics(false);
            for i in m * chunk..((m + 1) * chunk).min(total) {
                let (mut len, mut i) = (1u32, i);
                while i >= n.pow(len) { i -= n.pow(len); len += 1; }
                let seq: Vec<Op> = (0..len).map(|k| ops[i / n.pow(k) % n]).collect();
                l.add("states", 1);
                let show = || json!({"depth": depth, "addresses": addrs, "operations": format!("{seq:?}")});
                let mut state = State::new(&aux, depth);
                let mut model = vec![Slot { old: None, act: Act::No }; addrs.len()];
                let mut dead = false;
                for (at, op) in seq.iter().enumerate() {
                    let last = at + 1 == seq.len();
                    match *op {
                        Op::Finalize => {
                            for s in &mut model { *s = Slot { old: s.new(), act: Act::No }; }
                            if let Err(e) = attempt(|| state.finalize()) { c.violation("finalize fails", json!({"at": show(), "error": e})); return; }
                        }
                        Op::At(k, a) => {
                            let next = model[k].apply(a);
                            if next.is_none() && !last { dead = true; break; }
                            let op = match a { Act::Read => Operation::Read, Act::Del => Operation::Delete, Act::Up(o) => Operation::Upsert(object(o)), Act::No => unreachable!() };
                            let r = attempt(|| state.apply_operation(Address(addrs[k]), op));
                            match (next, r) {
                                (Some(s), Ok(())) => model[k] = s,
                                (None, Err(_)) => { dead = true; l.add("refused", 1); }
                                (None, Ok(())) => { c.violation("a contradicting operation is accepted", show()); return; }
                                (Some(_), Err(e)) => { c.violation("an operation is refused", json!({"at": show(), "error": e})); return; }
                            }
                        }
                    }
                }
                if dead { continue; }
                l.add("transitions", seq.len() as u64);
                // what it knows
                for (s, a) in model.iter().zip(&addrs) {
                    let (o, n) = state.get_state(Address(*a));
                    let is = |x: Option<&Object<F>>, y: Option<u64>| x.copied() == y.map(object);
                    c.check(is(o, s.old) && is(n, s.new()), || "get_state is not what was put".into(), show);
                }
                // what it proves
                let p = state.proof();
                let mut level: Vec<(u64, H, H, Option<H>)> = addrs.iter().zip(&model).map(|(a, s)| {
                    let h = |x: Option<u64>| x.map_or(empty, |o| object(o).hash());
                    let (o, n) = (h(s.old), h(s.new()));
                    (*a, o, n, (s.act != Act::No).then(|| summarize(*a, o, n)))
                }).sorted_by_key(|x| x.0).collect();
                for none in &none[..=depth] {
                    let mut up: Vec<(u64, H, H, Option<H>)> = vec![];
                    let mut it = level.into_iter().peekable();
                    while let Some((a, o, n, s)) = it.next() {
                        let (l, r) = if a & 1 == 0 && it.peek().is_some_and(|x| x.0 == a + 1) { let r = it.next().unwrap(); ((o, n, s), (r.1, r.2, r.3)) }
                            else if a & 1 == 0 { ((o, n, s), (*none, *none, None)) } else { ((*none, *none, None), (o, n, s)) };
                        let sum = match (l.2, r.2) { (Some(a), Some(b)) => Some(hash_branch(&a, &b)), (a, b) => a.or(b) };
                        up.push((a >> 1, hash_branch(&l.0, &r.0), hash_branch(&l.1, &r.1), sum));
                    }
                    level = up;
                }
                let (_, o, n, s) = level[0];
                c.check(p.old() == o && p.new() == n, || "the proof does not go from the old state to the new".into(), show);
                c.check(p.summary_present() == s.is_some() && p.summary() == s.unwrap_or_default(), || "the proof does not summarise what was touched".into(), show);
                c.check(p.address() == if s.is_some() { 0 } else { F::ORDER - 1 }, || "the proof is not for the root".into(), show);
                c.check(b.verify(p.clone()).is_ok(), || "the proof does not verify".into(), show);
                l.outcome(format!("{:?}", model));
            }
        });
    }
}

// N07

/// A node of a tree of 64 levels: height and the address bits above it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Node { height: u32, addr: u64 }
impl Node {
    fn up(self, n: u32) -> Node { Node { height: self.height + n, addr: self.addr.checked_shr(n).unwrap_or(0) } }
    fn make(self) -> BranchAddress { BranchAddress::base(if self.height == 64 { 0 } else { self.addr << self.height }).parent(self.height as usize) }
    /// From the root of a tree of 64 levels.
    fn walk(self) -> BranchAddress {
        let mut b = BranchAddress::root(64);
        for k in (0..64 - self.height).rev() {
            b = match b.child(if self.addr >> k & 1 == 1 { Dir::Right } else { Dir::Left }) { Ok(b) => b, Err(_) => unreachable!() };
        }
        b
    }
    fn ancestor(self, o: Node) -> Node {
        let (mut a, mut b) = (self, o);
        while a != b { if a.height <= b.height { a = a.up(1); } else { b = b.up(1); } }
        a
    }
    fn compare(self, o: Node) -> Cmp {
        if self == o { return Cmp::Equal; }
        let a = self.ancestor(o);
        let side = |x: Node| x.up(a.height - 1 - x.height).addr & 1 == 1;
        if a == self { return if side(o) { Cmp::RightChild } else { Cmp::LeftChild }; }
        if a == o { return if side(self) { Cmp::RightParent } else { Cmp::LeftParent }; }
        let right = side(o);
        match (self.up(1) == o.up(1), right) { (true, false) => Cmp::LeftSibling, (true, true) => Cmp::RightSibling, (false, false) => Cmp::LeftCousin, (false, true) => Cmp::RightCousin }
    }
}

fn shape(n: &[String]) -> String {
    if n.len() == 1 { return n[0].clone(); }
    let p = n.len().next_power_of_two() / 2;
    format!("({}{})", shape(&n[..p]), shape(&n[p..]))
}
/// Leaves of one address together, then addresses by their common prefixes.
fn trie(mut l: Vec<(u64, Vec<String>)>) -> String {
    let mut l: Vec<(u64, String)> = l.drain(..).map(|(a, v)| (a, shape(&v))).collect();
    while l.len() > 1 { l = l.into_iter().map(|(a, s)| (a >> 1, s)).chunk_by(|x| x.0).into_iter().map(|(a, g)| { let v: Vec<_> = g.map(|x| x.1).collect(); (a, if v.len() == 2 { format!("({}{})", v[0], v[1]) } else { v[0].clone() }) }).collect(); }
    l.pop().unwrap().1
}

pub fn multisets(dom: &[u64], max: usize) -> Vec<Vec<u64>> {
    let mut r: Vec<Vec<u64>> = vec![vec![]];
    let mut last = r.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|v: &Vec<u64>| dom.iter().filter(|d| v.last().map_or(true, |l| l <= *d)).map(|d| { let mut v = v.clone(); v.push(*d); v }).collect::<Vec<_>>()).collect();
        r.extend(last.clone());
    }
    r
}
fn event(a: u64, type_: EventType, v: u64) -> CanonicalEvent { CanonicalEvent { address: StateAddress(a.to_le_bytes()), type_, value: H2::from(a4(v).map(|x| x.to_canonical_u64())) } }
fn hash2(x: H2) -> H { HashOut { elements: x.to_u64s().map(f) } }

pub fn n07(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    // addresses: a whole small tree under the root, at the left, at the right, in the middle, and on long paths
    let mut nodes = vec![];
    let depth = c.pick(4, 5);
    for d in 0..=depth { for a in 0..1u64 << d { nodes.push(Node { height: 64 - d, addr: a }); } }
    for base in [0u64, 0x8000_0000_0000_0000, 0xFFFF_FFFF_FFFF_FFE0, 0x7FFF_FFFF_FFFF_FFE0, 0x1234_5678_0000_0020, F::ORDER & !31] {
        for hgt in 0..=depth { for k in 0..1u64 << (depth - hgt) { nodes.push(Node { height: hgt, addr: (base >> hgt) + k }); } }
    }
    for a in [0u64, 1, u64::MAX, 1 << 63, (1 << 63) - 1, F::ORDER, 0x5555_5555_5555_5555] { for hgt in 0..=64 { nodes.push(Node { height: hgt, addr: a.checked_shr(hgt).unwrap_or(0) }); } }
    nodes.sort_by_key(|n| (n.height, n.addr));
    nodes.dedup();
    c.info("tree nodes", nodes.len());
    c.par("addresses", nodes.len(), |i, l| {
        let a = nodes[i];
        let show1 = || json!({"height": a.height, "address": format!("{:x}", a.addr)});
        let made = attempt(|| a.make());
        let walked = attempt(|| a.walk());
        let (Ok(x), Ok(w)) = (made, walked) else { c.violation("an address cannot be made", show1()); return };
        c.check(x == w, || "an address depends on the way to it".into(), show1);
        for n in 0..=64 - a.height {
            let p = attempt(|| x.parent(n as usize));
            c.check(p.as_ref().ok() == Some(&a.up(n).walk()), || "parent is wrong".into(), || json!({"of": show1(), "levels": n, "got": format!("{p:?}")}));
        }
        for b in &nodes {
            l.add("states", 1);
            let y = b.walk();
            let show = || json!({"a": format!("{a:x?}"), "b": format!("{b:x?}")});
            let got = attempt(|| x.compare(y));
            c.check(got == Ok(a.compare(*b)), || "compare is wrong".into(), || json!({"of": show(), "got": format!("{got:?}"), "right": format!("{:?}", a.compare(*b))}));
            let got = attempt(|| x.common_ancestor(y));
            c.check(got == Ok(a.ancestor(*b).walk()), || "common_ancestor is wrong".into(), || json!({"of": show(), "got": format!("{got:?}")}));
            let want = (a.height == b.height).then(|| a.addr.cmp(&b.addr));
            c.check(x.partial_cmp(&y) == want, || "the order of addresses is wrong".into(), show);
            l.outcome(format!("{:?}", a.compare(*b)));
        }
    });
    // lists
    let lens = c.pick(70, 600);
    c.par("lists", lens, |n, l| {
        let items: Vec<String> = (0..n).map(|i| format!("{i},")).collect();
        let got = attempt(|| reduce_tree(items.clone(), |x| x, |x| x, |a, b| format!("({a}{b})")));
        let want = (n > 0).then(|| shape(&items));
        l.add("states", 1);
        c.check(got.as_ref() == Ok(&want), || "reduce_tree makes another tree".into(), || json!({"items": n, "got": format!("{got:?}")}));
        // and in the way the SDK commits to the cast list
        if n == 0 { return; }
        let ids: Vec<H2> = (0..n as u64).map(|i| H2::from(a4(10 * i).map(|x| x.to_canonical_u64()))).collect();
        let node = reduce_tree(ids.clone(), |x| x, |x| x, H2::two_to_one).unwrap();
        let sdk = merkleize(ids.into_iter().enumerate().map(|(i, x)| (i as u64, x)).collect());
        c.check(node == sdk, || "node and SDK disagree on the root of a cast list".into(), || json!({"programs": n}));
    });
    // by address
    let small: Vec<Vec<u64>> = multisets(&[0, 1, 2, 3, 4, 5, 6, 7], c.pick(6, 7));
    let edges: Vec<Vec<u64>> = multisets(&[0, 1, 1 << 32, (1 << 63) - 1, 1 << 63, F::ORDER - 2, u64::MAX], c.pick(5, 6));
    let all: Vec<&Vec<u64>> = small.iter().chain(&edges).filter(|v| !v.is_empty()).collect();
    c.info("lists of addresses", all.len());
    c.par("by address", all.len(), |n, l| {
        l.add("states", 1);
        let v = all[n];
        let show = || json!({"addresses": v.iter().map(|a| format!("{a:x}")).collect::<Vec<_>>()});
        let items: Vec<(u64, String)> = v.iter().enumerate().map(|(i, a)| (*a, format!("{i},"))).collect();
        let want = trie(items.iter().cloned().chunk_by(|x| x.0).into_iter().map(|(a, g)| (a, g.map(|x| x.1).collect())).collect());
        let got = attempt(|| reduce_tree_by_address(items.clone(), |a| a / 2, |_, a, b| format!("({a}{b})")));
        c.check(matches!(&got, Ok(Some((_, t))) if *t == want), || "reduce_tree_by_address makes another tree".into(), || json!({"of": show(), "got": format!("{got:?}"), "right": want}));
        let got = attempt(|| reduce_tree_by_address(items.iter().map(|x| (BranchAddress::base(x.0), x.1.clone())).collect(), |a| a.parent(1), |_, a, b| format!("({a}{b})")));
        c.check(matches!(&got, Ok(Some((_, t))) if *t == want), || "reduce_tree_by_address makes another tree of branch addresses".into(), || json!({"of": show(), "got": format!("{got:?}")}));
        // the same root as in the SDK
        let hs: Vec<(u64, H2)> = v.iter().enumerate().map(|(i, a)| (*a, H2::from(a4(100 * i as u64 + 1).map(|x| x.to_canonical_u64())))).collect();
        let node = reduce_tree_by_address(hs.clone(), |a| a / 2, |_, a, b| H2::two_to_one(a, b)).unwrap().1;
        c.check(node == merkleize(hs), || "node and SDK disagree on the root of events".into(), show);
    });
}

// N08

const DISAGREE: &str = "transactions and matches disagree on the events";
/// What a program says about an address: kind and value.
type Ev = (u64, EventType, [F; 4]);
#[derive(Clone, Debug)]
struct Tx { programs: Vec<(usize, Vec<Ev>)>, order: Vec<usize>, call: u64 }
struct Node8<'a> { aux: &'a Aux, state: State<'a>, blocks: Blocks<'a>, addrs: Vec<u64> }
struct Aux { tx: AuxTransactionData, md: AuxMatchesData, su: AuxStateData, bl: AuxBlockData, depth: usize, programs: Vec<Program> }
impl Aux {
    fn new(depth: usize) -> Self {
        // the first is the root program, which owns what is not there
        let programs: Vec<Program> = (0..9).map(|k| Program::new(if k == 0 { [F::ZERO; 4] } else { a4(0x1000 * k) })).collect();
        let tx = AuxTransactionData::new(&CONFIG, &programs[0].indices, &programs[0].circuit.common);
        let md = AuxMatchesData::new(&CONFIG);
        let su = AuxStateData::new(&CONFIG, depth);
        let bl = AuxBlockData::new(&CONFIG, &tx, &md, &su);
        Self { tx, md, su, bl, depth, programs }
    }
    fn id(&self, k: usize) -> ProgramIdentifier { ProgramIdentifier(H2::from(self.programs[k].id.map(|x| x.to_canonical_u64()))) }
}
fn canon(e: &Ev) -> CanonicalEvent { CanonicalEvent { address: StateAddress(e.0.to_le_bytes()), type_: e.1, value: H2::from(e.2.map(|x| x.to_canonical_u64())) } }

/// How the events of one address come together, by program: in the
/// transaction, and in the matches.
fn same_shape(txs: &[Tx]) -> bool {
    let part = |t: &Tx, i: usize, a: u64| {
        let v: Vec<String> = t.programs[i].1.iter().enumerate().filter(|(_, e)| e.0 == a).map(|(k, _)| format!("{i}.{k},")).collect();
        (!v.is_empty()).then(|| shape(&v))
    };
    fn tree(p: &[Option<String>]) -> Option<String> {
        if p.len() == 1 { return p[0].clone(); }
        let k = p.len().next_power_of_two() / 2;
        match (tree(&p[..k]), tree(&p[k..])) { (Some(a), Some(b)) => Some(format!("({a}{b})")), (a, b) => a.or(b) }
    }
    txs.iter().all(|t| t.programs.iter().flat_map(|p| &p.1).all(|e| {
        let want = tree(&(0..t.programs.len()).map(|i| part(t, i, e.0)).collect::<Vec<_>>());
        let got = t.order.iter().filter_map(|i| part(t, *i, e.0)).reduce(|a, b| format!("({a}{b})"));
        want == got
    }))
}

impl<'a> Node8<'a> {
    fn new(aux: &'a Aux, addrs: &[u64], objs: &[Option<Object<F>>]) -> Self {
        let mut state = State::new(&aux.su, aux.depth);
        for (a, o) in addrs.iter().zip(objs) { if let Some(o) = o { state.apply_operation(Address(*a), Operation::Upsert(*o)); } }
        state.finalize();
        let blocks = Blocks::new(&aux.bl, state.proof().new());
        Self { aux, state, blocks, addrs: addrs.to_vec() }
    }
    /// One block of these transactions (their programs' proofs in the order
    /// of `turns`), after which the objects are these.
    fn block(&mut self, txs: &[Tx], turns: &[(usize, usize)], objs: &[Option<Object<F>>]) -> Result<(), String> {
        let aux = self.aux;
        let e = |s: &str, x: anyhow::Error| format!("{s}: {x}");
        let mut acc = TransactionAccumulator::new(&aux.tx);
        let mut matches = Matches::new(&aux.md);
        let height = self.blocks.height();
        let mut left: Vec<usize> = txs.iter().map(|t| t.programs.len()).collect();
        for (t, i) in turns {
            let tx = &txs[*t];
            let cast: Vec<ProgramIdentifier> = tx.programs.iter().map(|p| aux.id(p.0)).collect();
            let cast_root = hash2(merkleize(cast.iter().enumerate().map(|(i, x)| (i as u64, x.0)).collect()));
            let p = &aux.programs[tx.programs[*i].0];
            let evs: Vec<CanonicalEvent> = tx.programs[*i].1.iter().map(canon).collect();
            let root = (!evs.is_empty()).then(|| hash2(merkleize(evs.iter().map(|e| (u64::from_le_bytes(e.address.0), e.canonical_hash())).collect())));
            let proof = p.proof(root, a4(tx.call), cast_root);
            let (key, done) = acc.ingest_program(*i, &p.circuit.verifier_only, &proof, &cast, &evs, a4(tx.call)).map_err(|x| e("a program is refused", x))?;
            left[*t] -= 1;
            if done != (left[*t] == 0) { return Err(format!("a transaction is {}", if done { "complete too early" } else { "not complete" })); }
            if !done && acc.ingest_program(*i, &p.circuit.verifier_only, &proof, &cast, &evs, a4(tx.call)).is_ok() { return Err("a program counts twice".into()); }
            matches.ingest_events(key, &aux.id(tx.programs[*i].0), &evs);
            if done { matches.ready_tx(key).map_err(|x| e("the events are not known", x))?; }
        }
        let tx_proof = acc.finalize().map_err(|x| e("no proof of the transactions", x))?;
        // the state: what was touched
        let mut touched: Vec<u64> = txs.iter().flat_map(|t| t.programs.iter().flat_map(|p| p.1.iter().map(|e| e.0))).collect();
        touched.sort();
        touched.dedup();
        for a in &touched {
            let k = self.addrs.iter().position(|x| x == a).unwrap();
            let old = self.state.get_state(Address(*a)).0.copied();
            self.state.apply_operation(Address(*a), match objs[k] { n if n == old => Operation::Read, Some(o) => Operation::Upsert(o), None => Operation::Delete });
        }
        let state = &self.state;
        let match_proof = matches.finalize(height + 1, |a| { let (o, n) = state.get_state(a); (o.copied().unwrap_or_default(), n.copied().unwrap_or_default()) });
        if tx_proof.events() != match_proof.events() { return Err(DISAGREE.into()); }
        if state.proof().summary() != match_proof.state_hash() { return Err("matches and state disagree on the changes".into()); }
        self.blocks.increment(&tx_proof, &match_proof, state.proof()).map_err(|x| e("no block", x))?;
        if self.blocks.height() != height + 1 { return Err("the height does not count".into()); }
        self.state.finalize();
        Ok(())
    }
}

fn orders(n: usize, all: bool) -> Vec<Vec<usize>> {
    if all { return (0..n).permutations(n).collect(); }
    let id: Vec<usize> = (0..n).collect();
    let mut r = vec![id.clone(), id.iter().rev().copied().collect()];
    for k in 1..n { let mut v = id.clone(); v.rotate_left(k); r.push(v); let mut v = id.clone(); v.swap(k - 1, k); r.push(v); }
    r
}

pub fn n08(c: &mc::Ctx) {
    plonky2::plonk::circuit_builder::set_panics(false);
    let small: Vec<u64> = (0..8).collect();
    let top = 1u64 << 63;
    let wide: Vec<u64> = vec![0, 1, 1 << 32, top - 1, top, top + 1, F::ORDER - 2];
    let aux = Aux::new(2);
    let aux63 = Aux::new(63);
    let owned = |k: u64| Object { constraint_owner: aux.programs[1].id, last_updated: F::ZERO, credits: f(50 + k), data: a4(0x100 * (k + 1)) };
    // reads of what is there
    let read = |a: u64, addrs: &[u64]| -> Ev { (a, EventType::Read, owned(addrs.iter().position(|x| *x == a).unwrap() as u64).data) };
    let lists = |v: &[u64], addrs: &[u64]| v.iter().map(|a| read(*a, addrs)).collect::<Vec<Ev>>();
    let mut jobs: Vec<(bool, Vec<Tx>, Vec<(usize, usize)>)> = vec![];
    let seq = |txs: &[Tx]| txs.iter().enumerate().flat_map(|(t, x)| x.order.iter().map(move |i| (t, *i))).collect::<Vec<_>>();
    // cast lists of any length, in any order
    for n in 1..=8usize {
        for order in orders(n, n <= c.pick(4, 6)) {
            for who in 0..n {
                let programs = (0..n).map(|k| (k + 1, if k == who { lists(&[2], &small) } else { vec![] })).collect();
                let t = vec![Tx { programs, order: order.clone(), call: 7 }];
                jobs.push((false, t.clone(), seq(&t)));
            }
            // each its own event
            let programs = (0..n).map(|k| (k + 1, lists(&[k as u64], &small))).collect();
            let t = vec![Tx { programs, order: order.clone(), call: 7 }];
            jobs.push((false, t.clone(), seq(&t)));
            // all the same address
            let programs = (0..n).map(|k| (k + 1, lists(&[3], &small))).collect();
            let t = vec![Tx { programs, order: order.clone(), call: 7 }];
            jobs.push((false, t.clone(), seq(&t)));
        }
    }
    // one, two, three programs with any events
    let l3 = multisets(&[0, 1, 2, 5], 3);
    let l2 = multisets(&[0, 1, 6], 2);
    for l in multisets(&[0, 1, 2, 3, 4, 5, 6, 7], c.pick(4, 5)) { if !l.is_empty() { let t = vec![Tx { programs: vec![(1, lists(&l, &small))], order: vec![0], call: 7 }]; jobs.push((false, t.clone(), seq(&t))); } }
    for a in &l3 { for b in &l3 { if a.is_empty() && b.is_empty() { continue; }
        for order in [vec![0, 1], vec![1, 0]] {
            let t = vec![Tx { programs: vec![(1, lists(a, &small)), (2, lists(b, &small))], order, call: 7 }];
            jobs.push((false, t.clone(), seq(&t)));
        }
        // two transactions, one after the other, and their programs in turn
        let one = |l: &[u64], call| Tx { programs: vec![(1, lists(l, &small)), (2, vec![])], order: vec![0, 1], call };
        let t = vec![one(a, 7), one(b, 8)];
        jobs.push((false, t.clone(), seq(&t)));
        jobs.push((false, t.clone(), vec![(0, 0), (1, 0), (0, 1), (1, 1)]));
    } }
    for a in &l2 { for b in &l2 { for d in &l2 { if a.is_empty() && b.is_empty() && d.is_empty() { continue; }
        for order in (0..3).permutations(3) {
            let t = vec![Tx { programs: vec![(1, lists(a, &small)), (2, lists(b, &small)), (3, lists(d, &small))], order, call: 7 }];
            jobs.push((false, t.clone(), seq(&t)));
        }
        let one = |l: &[u64], call| Tx { programs: vec![(1, lists(l, &small))], order: vec![0], call };
        let t = vec![one(a, 7), one(b, 8), one(d, 9)];
        jobs.push((false, t.clone(), seq(&t)));
    } } }
    let lw = multisets(&wide, 2);
    for a in &lw { for b in &lw { if a.is_empty() && b.is_empty() { continue; }
        let t = vec![Tx { programs: vec![(1, lists(a, &wide)), (2, lists(b, &wide))], order: vec![0, 1], call: 7 }];
        jobs.push((true, t.clone(), seq(&t)));
    } }
    c.info("blocks", jobs.len());
    c.par("blocks", jobs.len().div_ceil(16), |m, l| {
        plonky2::plonk::circuit_builder::set_panics(false);
        for (is_wide, txs, turns) in &jobs[m * 16..(m * 16 + 16).min(jobs.len())] {
            let (aux, addrs) = if *is_wide { (&aux63, &wide) } else { (&aux, &small) };
            let objs: Vec<Option<Object<F>>> = (0..addrs.len() as u64).map(|k| Some(owned(k))).collect();
            l.add("states", 1);
            let r = attempt(|| Node8::new(aux, addrs, &objs).block(txs, turns, &objs)).unwrap_or_else(|e| Err(format!("panic: {e}")));
            let show = || json!({"transactions": txs.iter().map(|t| json!({"programs": t.programs.iter().map(|p| p.1.iter().map(|e| e.0).collect::<Vec<_>>()).collect::<Vec<_>>(), "order": t.order})).collect::<Vec<_>>(), "turns": turns});
            match r {
                Ok(()) => { l.add("made", 1); }
                Err(e) if same_shape(txs) || e != DISAGREE => c.violation(format!("a block cannot be made: {e}"), show()),
                Err(e) => { l.add("other shape", 1); c.violation("events of programs that share an object, not in the order of the cast or more than three", json!({"of": show(), "error": e})) }
            }
        }
    });
    lives(c, &aux);
}

/// Every life of two objects over some blocks.
fn lives(c: &mc::Ctx, aux: &Aux) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Do { No, Read, Write(u64), Create(u64), Delete }
    let addrs = [1u64, 6];
    let acts = [Do::No, Do::Read, Do::Write(1), Do::Write(2), Do::Create(1), Do::Delete];
    let rounds = c.pick(3, 4);
    let per = acts.len() * acts.len();
    let total = per.pow(rounds as u32);
    c.info("lives", total);
    let owner = aux.programs[1].id;
    c.par("lives", total.div_ceil(64), |m, l| {
        plonky2::plonk::circuit_builder::set_panics(false);
        'run: for i in m * 64..(m * 64 + 64).min(total) {
            let mut objs: Vec<Option<Object<F>>> = vec![None, Some(Object { constraint_owner: owner, last_updated: F::ZERO, credits: F::ZERO, data: a4(0x700) })];
            let plan: Vec<[Do; 2]> = (0..rounds).map(|r| { let k = i / per.pow(r as u32) % per; [acts[k % acts.len()], acts[k / acts.len()]] }).collect();
            // only what makes sense, and blocks with something in them
            let mut here = [objs[0].is_some(), objs[1].is_some()];
            for d in &plan {
                if d.iter().all(|d| *d == Do::No) { continue 'run; }
                for k in 0..2 {
                    match d[k] { Do::Create(_) if here[k] => continue 'run, Do::Read | Do::Write(_) | Do::Delete if !here[k] => continue 'run, Do::Create(_) => here[k] = true, Do::Delete => here[k] = false, _ => {} }
                }
            }
            l.add("states", 1);
            let r = attempt(|| -> Result<(), String> {
                let mut node = Node8::new(aux, &addrs, &objs);
                for (n, d) in plan.iter().enumerate() {
                    let height = f(n as u64 + 1);
                    let (mut by_root, mut by_owner): (Vec<Ev>, Vec<Ev>) = (vec![], vec![]);
                    for k in 0..2 {
                        let a = addrs[k];
                        let x = |v: u64| a4(0x3000 + 0x10 * v);
                        match d[k] {
                            Do::No => {}
                            Do::Read => by_owner.push((a, EventType::Read, objs[k].unwrap().data)),
                            Do::Write(v) => { by_owner.push((a, EventType::Write, x(v))); let o = objs[k].as_mut().unwrap(); o.data = x(v); o.last_updated = height; }
                            Do::Create(v) => {
                                by_root.extend([(a, EventType::Write, x(v)), (a, EventType::GiveOwner, owner)]);
                                by_owner.push((a, EventType::TakeOwner, [F::ZERO; 4]));
                                objs[k] = Some(Object { constraint_owner: owner, last_updated: height, credits: F::ZERO, data: x(v) });
                            }
                            Do::Delete => {
                                by_owner.extend([(a, EventType::Write, [F::ZERO; 4]), (a, EventType::GiveOwner, [F::ZERO; 4])]);
                                by_root.push((a, EventType::TakeOwner, owner));
                                objs[k] = None;
                            }
                        }
                    }
                    let txs = [Tx { programs: vec![(0, by_root), (1, by_owner)], order: vec![0, 1], call: n as u64 }];
                    node.block(&txs, &[(0, 0), (0, 1)], &objs).map_err(|e| format!("block {n}: {e}"))?;
                }
                Ok(())
            }).unwrap_or_else(|e| Err(format!("panic: {e}")));
            if let Err(e) = r { c.violation("an object's life cannot go on", json!({"plan": format!("{plan:?}"), "error": e})); } else { l.add("made", 1); }
        }
    });
}
