#![allow(dead_code)]
#[path = "../../runner-mc/src/bridge.rs"]
mod bridge;
#[path = "../../runner-mc/src/refvm.rs"]
mod refvm;
mod sys;
mod honest;
mod adv;
mod rows;
mod tables;
mod proofs;
mod exprs;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("dump") { return dump(); }
    mc::main_with(&[("S01", honest::s01), ("S02", rows::s02), ("S02M", rows::mutants), ("S03", tables::s03), ("S05", exprs::s05), ("S06", proofs::s06), ("S03M", tables::mutants)]);
}

fn dump() {
    let sys = sys::Sys::new();
    let w = mozak_circuits::verif::widths(&sys.stark);
    for (i, b) in sys.buses.iter().enumerate() {
        println!("bus {i}");
        for e in b { println!("   {:?} cols {} filter {:?} : {:?}", e.kind, e.columns.len(), e.filter, e.columns); }
    }
    if let Ok(want) = std::env::var("K") {
        for k in &sys.kinds { if format!("{k:?}") == want { for (i, p) in mozak_circuits::verif::polys(&sys.stark, *k).iter().enumerate() {
            let t: Vec<String> = p.terms.iter().map(|(m, c)| { use plonky2::field::types::PrimeField64; let c = c.to_canonical_u64(); format!("{}{}", if c > 1 << 62 { format!("-{}", 0xFFFF_FFFF_0000_0001 - c) } else { c.to_string() }, m.iter().map(|v| format!("*c{v}")).collect::<String>()) }).collect();
            println!("P{i}: {}", t.join(" + "));
        } } }
    }
    let mut p = honest::program(&[refvm::enc::s(2, 8, 5, 8), refvm::enc::i(3, 0, 30, 8, 9), refvm::enc::s(1, 8, 5, 8)], vec![(5, 0x12345678), (8, 0x400)]);
    p.rw = vec![(0x500, 3)];
    let pr = p.program();
    let t = sys.traces(&pr, &mozak_runner::vm::step(&pr, p.state(&pr)).unwrap());
    for k in &sys.kinds {
        println!("-- {k:?} {} rows", t[*k as usize].len());
        if w[*k as usize] < 40 && t[*k as usize].len() <= 40 { for r in &t[*k as usize] { use plonky2::field::types::PrimeField64; println!("   {:?}", r.iter().map(|x| { let c = x.to_canonical_u64(); if c > 1 << 62 { format!("-{}", 0xFFFF_FFFF_0000_0001 - c) } else { c.to_string() } }).collect::<Vec<_>>().join(" ")); } }
    }
    for k in &sys.kinds {
        let used: std::collections::HashSet<u32> = mozak_circuits::verif::polys(&sys.stark, *k).iter().flat_map(|p| p.terms.keys().flatten().copied().collect::<Vec<_>>()).collect();
        let n = w[*k as usize];
        let mut looked = vec![false; 2 * n];
        for b in &sys.buses { for e in b { if e.kind as usize == *k as usize { for l in e.columns.iter().chain([&e.filter]) { for (c, _) in &l.lv { looked[*c] = true; } for (c, _) in &l.nv { looked[*c] = true; } } } } }
        for c in 0..n { if !used.contains(&(c as u32)) && !used.contains(&((n + c) as u32)) { println!("FREE {k:?} column {c} {}", if looked[c] { "only looked up" } else { "UNUSED" }); } }
    }
    for k in &sys.kinds { println!("{k:?} width {} pis {}", w[*k as usize], sys.pis[*k as usize]); }
}
