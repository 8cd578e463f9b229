use mc::{guard, Ctx};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::Poseidon2Hash;
use serde_json::json;

use crate::vm::*;

/// The root of the address-keyed binary tree, by its definition: leaves with one
/// address fold from the left; a node whose leaves differ in the top remaining bit
/// is the hash of its halves; a node with one side only is that side.
pub fn reference(leaves: &[(u64, Poseidon2Hash)]) -> Poseidon2Hash {
    fn node(l: &[(u64, Poseidon2Hash)], bit: u32) -> Poseidon2Hash {
        if l.len() == 1 { return l[0].1; }
        if bit == 0 {
            // fold pairwise, level by level, as equal-address leaves are adjacent
            let mut h: Vec<Poseidon2Hash> = l.iter().map(|x| x.1).collect();
            while h.len() > 1 { h = h.chunks(2).map(|c| if c.len() == 2 { Poseidon2Hash::two_to_one(c[0], c[1]) } else { c[0] }).collect(); }
            return h[0];
        }
        let cut = l.partition_point(|x| x.0 >> (bit - 1) & 1 == 0);
        if cut == 0 || cut == l.len() { return node(l, bit - 1); }
        Poseidon2Hash::two_to_one(node(&l[..cut], bit - 1), node(&l[cut..], bit - 1))
    }
    if l_empty(leaves) { return Poseidon2Hash::default(); }
    node(leaves, 64)
}
fn l_empty(l: &[(u64, Poseidon2Hash)]) -> bool { l.is_empty() }

pub fn k01(ctx: &Ctx) {
    // every non-decreasing sequence of addresses over an alphabet, up to a length
    let alpha: Vec<u64> = vec![0, 1, 2, 3, 4, 7, 8, 1 << 31, 1 << 32, 1 << 62, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
    let depth = ctx.pick(4, 6);
    let mut seqs: Vec<Vec<u64>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for a in &alpha {
                if seqs[i].last().map_or(true, |l| l <= a) { let mut s = seqs[i].clone(); s.push(*a); seqs.push(s); }
            }
        }
        from = to;
    }
    ctx.par("merkle", seqs.len(), |i, l| {
        let leaves: Vec<(u64, Poseidon2Hash)> = seqs[i].iter().enumerate().map(|(k, a)| (*a, Poseidon2Hash([k as u8 + 1; 32]))).collect();
        let want = reference(&leaves);
        l.add("states", 1);
        l.add("transitions", leaves.len() as u64);
        l.outcome(format!("{:02x?}", &want.0[..2]));
        let got = guard(|| merkleize(leaves.clone()));
        if got != Ok(want) { ctx.violation(format!("merkle:{:?}", seqs[i]), json!({"addresses": seqs[i], "what": format!("{got:?} instead of {want:?}")})); }
    });
    // the guest computes the same roots
    let g = guest("driver");
    let short: Vec<&Vec<u64>> = seqs.iter().filter(|s| s.len() <= ctx.pick(3, 4)).collect();
    let chunk = 12;
    ctx.par("guest", short.len().div_ceil(chunk), |i, l| {
        let part = &short[i * chunk..((i + 1) * chunk).min(short.len())];
        let (mut s, mut want) = (Script::default(), vec![]);
        for a in part {
            let leaves: Vec<(u64, Poseidon2Hash)> = a.iter().enumerate().map(|(k, a)| (*a, Poseidon2Hash([0xF0 - k as u8; 32]))).collect();
            s = leaves.iter().fold(s.b(13).b(leaves.len() as u8), |s, (a, h)| s.d(*a).raw(&h.0));
            want.extend(reference(&leaves).0);
        }
        want.push(0xFF);
        let r = g.run(&s.b(0).0, &plain_tapes(&[], &[]));
        l.add("states", part.len() as u64); l.add("transitions", part.len() as u64); l.add("vm_steps", r.steps); l.add("traces_validated_against_impl", 1);
        if r.log != want || !r.halted() { ctx.violation(format!("guest:{i}"), json!({"address lists": part, "what": "roots computed by the guest", "log": r.log, "expected": want, "end": format!("{:?}", r.end)})); }
    });
    // many leaves: every set of addresses within a small universe, spread over the 64 bits in several ways
    let bits = ctx.pick(8u32, 13);
    let spread: [fn(u64) -> u64; 4] = [|a| a, |a| a << 60, |a| (a & 1) | (a & 2) << 15 | (a & 4) << 40 | (a & 8) << 60, |a| !a << 59 >> 1];
    ctx.par("sets", (1usize << bits) * spread.len(), |i, l| {
        let f = spread[i % spread.len()];
        let mut addrs: Vec<u64> = (0..u64::from(bits)).filter(|b| (i / spread.len()) >> b & 1 == 1).map(f).collect();
        addrs.sort();
        let leaves: Vec<(u64, Poseidon2Hash)> = addrs.iter().enumerate().map(|(k, a)| (*a, Poseidon2Hash([k as u8 + 1; 32]))).collect();
        l.add("states", 1);
        let got = guard(|| merkleize(leaves.clone()));
        if got != Ok(reference(&leaves)) { ctx.violation(format!("set:{addrs:x?}"), json!({"addresses": addrs, "what": format!("{got:?}")})); }
    });
    // long lists: runs of neighbours, of one address, and of spread addresses
    let upto = ctx.pick(70usize, 400);
    let fams: [fn(u64) -> u64; 6] = [|k| k, |_| 5, |k| k / 2, |k| k << 55, |k| k * k * k + 7, |k| u64::MAX - 400 + k];
    ctx.par("long", (upto + 1) * fams.len(), |i, l| {
        let (n, f) = (i / fams.len(), fams[i % fams.len()]);
        let mut a: Vec<u64> = (0..n as u64).map(f).collect();
        a.sort();
        let leaves: Vec<(u64, Poseidon2Hash)> = a.iter().enumerate().map(|(k, a)| (*a, Poseidon2Hash([k as u8 + 1; 32]))).collect();
        l.add("states", 1); l.add("transitions", n as u64);
        let got = guard(|| merkleize(leaves.clone()));
        if got != Ok(reference(&leaves)) { ctx.violation(format!("long:{n}:{}", i % fams.len()), json!({"addresses": a, "what": format!("{got:?}")})); }
    });
    ctx.info("bounds", format!("every ascending sequence (with repetitions) of up to {depth} addresses over {} boundary addresses; every subset of {bits} addresses spread in 4 ways; 6 families of lists up to length {upto}; the shorter ones also in the guest", alpha.len()));
    ctx.info("oracle", "recursive definition: split at the highest differing bit, hash left with right; equal addresses fold pairwise from the left");
    ctx.info("exhaustive", true);
}
