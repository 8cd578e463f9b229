//! Bounded exhaustive search for dishonest witnesses.
//!
//! A state is an assignment to the cells of a few rows of one table. A step changes one
//! cell so that one violated constraint or lookup holds again. Starting from honest rows
//! with a few cells tampered, all states within a number of steps are explored; one with
//! nothing violated is a row the verifier accepts, and is judged by what it claims.
use std::collections::{HashMap, HashSet};

use mozak_circuits::stark::mozak_stark::TableKind;
use mozak_circuits::verif::{polys, Lin};
use plonky2::field::types::{Field, PrimeField64};

use crate::sys::*;

struct P { terms: Vec<(F, Vec<u32>)>, vars: Vec<u32>, id: usize }
#[derive(Clone)]
pub struct L { terms: Vec<(u32, F)>, c: F }
impl L {
    pub fn eval(&self, s: &[F]) -> F { self.terms.iter().fold(self.c, |a, (v, k)| a + s[*v as usize] * *k) }
}
pub struct Port { pub bus: usize, pub end: usize, pub row: usize, pub cols: Vec<L>, pub filter: L, vars: Vec<u32> }
/// The constraints and lookups of `n` rows of one table.
pub struct Rows { pub kind: TableKind, pub w: usize, pub n: usize, polys: Vec<P>, pub ports: Vec<Port>, poly_of: Vec<Vec<u32>>, port_of: Vec<Vec<u32>> }

#[derive(Clone, Debug)]
pub struct Msg { pub bus: usize, pub end: usize, pub row: usize, pub f: F, pub t: Vec<F> }

/// What is known about the rest of the system.
pub trait Rules {
    /// Could the other tables match this message?
    fn ok(&self, m: &Msg) -> bool;
    /// Values of components that could make it match.
    fn wants(&self, m: &Msg) -> Vec<(usize, F)>;
    /// Is anything wrong with an accepted assignment?
    fn judge(&self, s: &[F], msgs: &[Msg]) -> Option<String>;
}

pub enum Where { /// the whole table
    Whole, /// rows somewhere inside, the next row of the last one being free
    Inside, /// a single last row
    Last }

impl Port {
    pub fn vars(&self) -> &[u32] { &self.vars }
    pub fn column_vars(&self, i: usize) -> Vec<u32> { self.cols[i].terms.iter().map(|t| t.0).collect() }
    /// the value of a constant column
    pub fn column(&self, i: usize) -> Option<F> { self.cols[i].terms.is_empty().then_some(self.cols[i].c) }
}
impl Rows {
    pub fn poly_ids(&self) -> Vec<usize> { let mut v: Vec<usize> = self.polys.iter().map(|p| p.id).collect(); v.sort_unstable(); v.dedup(); v }
    pub fn vars_of_poly(&self, id: usize) -> Vec<u32> { self.polys.iter().filter(|p| p.id == id).flat_map(|p| p.vars.iter().copied()).collect() }
    /// `dropped`: constraints left out, to measure what the search can see.
    pub fn new(sys: &Sys, kind: TableKind, w: usize, n: usize, at: Where, dropped: &[usize]) -> Rows {
        let ps = polys(&sys.stark, kind);
        let npi = sys.pis[kind as usize] as u32;
        let mut out = Rows { kind, w, n, polys: vec![], ports: vec![], poly_of: vec![vec![]; w * n], port_of: vec![vec![]; w * n] };
        for i in 0..n {
            let (first, last) = match at { Where::Whole => (i == 0, i + 1 == n), Where::Inside => (false, false), Where::Last => (false, i + 1 == n) };
            for (pi, p) in ps.iter().enumerate() {
                if dropped.contains(&pi) { continue; }
                if matches!(at, Where::Inside) && i + 1 == n && p.terms.keys().any(|m| m.iter().any(|v| (w as u32..2 * w as u32).contains(v))) { continue; }
                let mut terms: std::collections::BTreeMap<Vec<u32>, F> = Default::default();
                for (m, c) in &p.terms {
                    let mut mm = vec![];
                    let mut zero = false;
                    for &v in m {
                        let (v, w2) = (v as usize, 2 * w);
                        if v < w { mm.push((i * w + v) as u32); }
                        else if v < w2 { mm.push(((i + 1) % n * w + v - w) as u32); }
                        else {
                            let k = v - w2 - npi as usize;
                            let on = match k { 0 => !last, 1 => first, 2 => last, _ => unreachable!() };
                            if !on { zero = true; }
                        }
                    }
                    if zero { continue; }
                    mm.sort_unstable();
                    *terms.entry(mm).or_insert(F::ZERO) += *c;
                }
                let terms: Vec<(F, Vec<u32>)> = terms.into_iter().filter(|(_, c)| *c != F::ZERO).map(|(m, c)| (c, m)).collect();
                if terms.is_empty() { continue; }
                let mut vars: Vec<u32> = terms.iter().flat_map(|t| t.1.clone()).collect();
                vars.sort_unstable(); vars.dedup();
                for v in &vars { out.poly_of[*v as usize].push(out.polys.len() as u32); }
                out.polys.push(P { terms, vars, id: pi });
            }
            for (b, ends) in sys.buses.iter().enumerate() {
                for (e, end) in ends.iter().enumerate() {
                    if end.kind as usize != kind as usize { continue; }
                    if matches!(at, Where::Inside) && i + 1 == n && end.columns.iter().chain([&end.filter]).any(|c| !c.nv.is_empty()) { continue; }
                    let lin = |l: &Lin| L { c: l.c, terms: l.lv.iter().map(|(k, c)| ((i * w + k) as u32, *c)).chain(l.nv.iter().map(|(k, c)| (((i + 1) % n * w + k) as u32, *c))).collect() };
                    let (cols, filter): (Vec<L>, L) = (end.columns.iter().map(lin).collect(), lin(&end.filter));
                    let mut vars: Vec<u32> = cols.iter().chain([&filter]).flat_map(|l| l.terms.iter().map(|t| t.0)).collect();
                    vars.sort_unstable(); vars.dedup();
                    for v in &vars { out.port_of[*v as usize].push(out.ports.len() as u32); }
                    out.ports.push(Port { bus: b, end: e, row: i, cols, filter, vars });
                }
            }
        }
        out
    }
    fn value(&self, p: usize, s: &[F]) -> F {
        let mut a = F::ZERO;
        for (c, m) in &self.polys[p].terms {
            let mut x = *c;
            for v in m { x *= s[*v as usize]; }
            a += x;
        }
        a
    }
    pub fn msg(&self, p: &Port, s: &[F]) -> Option<Msg> {
        let f = p.filter.eval(s);
        (f != F::ZERO).then(|| Msg { bus: p.bus, end: p.end, row: p.row, f, t: p.cols.iter().map(|c| c.eval(s)).collect() })
    }
    pub fn msgs(&self, s: &[F]) -> Vec<Msg> { self.ports.iter().filter_map(|p| self.msg(p, s)).collect() }
    /// Values of cell `v` for which polynomial `p` vanishes.
    fn roots(&self, p: usize, v: u32, s: &[F]) -> Vec<F> {
        let mut k = [F::ZERO; 4];
        for (c, m) in &self.polys[p].terms {
            let (mut x, mut d) = (*c, 0);
            for u in m { if *u == v { d += 1; } else { x *= s[*u as usize]; } }
            if d > 3 { return vec![]; }
            k[d] += x;
        }
        if k[3] != F::ZERO {
            return [F::ZERO, F::ONE, F::NEG_ONE].into_iter().filter(|x| ((k[3] * *x + k[2]) * *x + k[1]) * *x + k[0] == F::ZERO).collect();
        }
        if k[2] != F::ZERO {
            let d = k[1] * k[1] - f(4) * k[2] * k[0];
            let Some(r) = sqrt(d) else { return vec![] };
            let i = (k[2] + k[2]).inverse();
            let (a, b) = ((r - k[1]) * i, (-r - k[1]) * i);
            return if a == b { vec![a] } else { vec![a, b] };
        }
        if k[1] != F::ZERO { return vec![-k[0] * k[1].inverse()]; }
        vec![]
    }
}

/// Square root in the field, if there is one.
pub fn sqrt(a: F) -> Option<F> {
    if a == F::ZERO { return Some(a); }
    let q = 0xFFFF_FFFFu64; // p - 1 = 2^32 * q
    let mut t = a.exp_u64(q);
    let mut r = a.exp_u64((q + 1) / 2);
    let mut c = f(7).exp_u64(q);
    let mut m = 32u32;
    while t != F::ONE {
        let mut i = 0;
        let mut x = t;
        while x != F::ONE { x = x * x; i += 1; if i >= m { return None; } }
        let mut b = c;
        for _ in 0..m - i - 1 { b = b * b; }
        r *= b; c = b * b; t *= c; m = i;
    }
    Some(r)
}

#[derive(Default)]
pub struct Stats { pub states: u64, pub steps: u64, pub accepted: u64, pub capped: u64 }
pub struct Search<'a, R: Rules> {
    pub rows: &'a Rows,
    pub rules: &'a R,
    pub frozen: Vec<bool>,
    pub stats: Stats,
    seen: HashMap<u64, u8>,
    /// bound on the states of one search
    pub cap: u64,
    left: u64,
    /// steps in which every violated condition is branched on
    pub wide: usize,
    /// how many of the violated conditions are branched on beyond that
    pub width: usize,
    now: usize,
    /// left out, to measure what the search can see
    pub no_poly: Option<usize>,
    pub no_port: Option<(usize, usize)>,
    pub found: Option<(String, Vec<F>)>,
}
fn mix(v: u32, x: F) -> u64 {
    let mut h = x.to_canonical_u64() ^ (u64::from(v) + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 30; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 27; h = h.wrapping_mul(0x94D0_49BB_1331_11EB); h ^ (h >> 31)
}
impl<'a, R: Rules> Search<'a, R> {
    pub fn new(rows: &'a Rows, rules: &'a R) -> Self {
        Search { rows, rules, frozen: vec![false; rows.w * rows.n], stats: Stats::default(), seen: HashMap::new(), cap: 20_000, left: 0, wide: 3, width: 1, now: 0, no_poly: None, no_port: None, found: None }
    }
    fn bad(&self, p: usize, s: &[F]) -> bool { self.no_poly != Some(self.rows.polys[p].id) && self.rows.value(p, s) != F::ZERO }
    fn off(&self, p: usize, s: &[F]) -> bool {
        let port = &self.rows.ports[p];
        self.no_port != Some((port.bus, port.end)) && self.rows.msg(port, s).is_some_and(|m| !self.rules.ok(&m))
    }
    /// Explores from `base` with `tamper` applied. Returns a bad accepted assignment.
    pub fn run(&mut self, base: &[F], tamper: &[(usize, F)], depth: usize) -> Option<(String, Vec<F>)> {
        let mut s = base.to_vec();
        let mut touched = vec![false; s.len()];
        let single = tamper.len() == 1;
        let mut h = 0;
        let mut any = false;
        for (v, x) in tamper {
            if s[*v] == *x { continue; }
            h ^= mix(*v as u32, s[*v]) ^ mix(*v as u32, *x);
            s[*v] = *x; touched[*v] = single; any = true;
        }
        if !any { return None; }
        self.explore(s, touched, h, depth)
    }
    pub fn run_from(&mut self, base: &[F], depth: usize) -> Option<(String, Vec<F>)> { self.explore(base.to_vec(), vec![false; base.len()], 0, depth) }
    fn explore(&mut self, mut s: Vec<F>, mut touched: Vec<bool>, h: u64, depth: usize) -> Option<(String, Vec<F>)> {
        self.found = None;
        let bad: Vec<u32> = (0..self.rows.polys.len()).filter(|p| self.bad(*p, &s)).map(|p| p as u32).collect();
        let off: Vec<u32> = (0..self.rows.ports.len()).filter(|p| self.off(*p, &s)).map(|p| p as u32).collect();
        for (d, w) in [(self.wide.min(depth), usize::MAX), (depth, self.width)] {
            self.seen.clear(); self.left = self.cap; self.now = w;
            self.go(&mut s, &mut touched, h, &bad, &off, d);
            if self.left == 0 { self.stats.capped += 1; }
            if self.found.is_some() || d == depth { break; }
        }
        self.found.take()
    }
    fn go(&mut self, s: &mut Vec<F>, touched: &mut Vec<bool>, h: u64, bad: &[u32], off: &[u32], depth: usize) {
        if self.found.is_some() || self.left == 0 { return; }
        match self.seen.get(&h) { Some(d) if *d as usize >= depth => return, _ => { self.seen.insert(h, depth as u8); } }
        self.stats.states += 1; self.left -= 1;
        if bad.is_empty() && off.is_empty() {
            self.stats.accepted += 1;
            let mut msgs = self.rows.msgs(s);
            if let Some(q) = self.no_port { msgs.retain(|m| (m.bus, m.end) != q); }
            if let Some(w) = self.rules.judge(s, &msgs) { self.found = Some((w, s.clone())); }
            return;
        }
        if depth == 0 { return; }
        // a cell repairs only conditions it occurs in: conditions without a common cell need a step each
        let free = |t: &[bool], f: &[bool], v: u32| !t[v as usize] && !f[v as usize];
        let mut used = vec![];
        let mut need = 0;
        let mut by: Vec<&[u32]> = bad.iter().map(|p| &self.rows.polys[*p as usize].vars[..]).chain(off.iter().map(|p| &self.rows.ports[*p as usize].vars[..])).collect();
        by.sort_by_key(|v| v.len());
        for vs in by {
            if vs.iter().any(|v| free(touched, &self.frozen, *v) && used.contains(v)) { continue; }
            let n = used.len();
            used.extend(vs.iter().filter(|v| free(touched, &self.frozen, **v)));
            if used.len() == n { return; }
            need += 1;
            if need > depth { return; }
        }
        // each violated condition with its repairs; the most constrained ones first
        let mut opts: Vec<Vec<(u32, F)>> = vec![];
        for p in bad {
            let mut o = vec![];
            for v in &self.rows.polys[*p as usize].vars {
                if !free(touched, &self.frozen, *v) { continue; }
                for r in self.rows.roots(*p as usize, *v, s) { if r != s[*v as usize] { o.push((*v, r)); } }
            }
            if o.is_empty() { return; }
            opts.push(o);
        }
        for p in off {
            let port = &self.rows.ports[*p as usize];
            let m = self.rows.msg(port, s).unwrap();
            let mut o = vec![];
            for (i, want) in self.rules.wants(&m) {
                let d = want - m.t[i];
                for (v, k) in &port.cols[i].terms {
                    if !free(touched, &self.frozen, *v) { continue; }
                    o.push((*v, s[*v as usize] + d * k.inverse()));
                }
            }
            for (v, k) in &port.filter.terms {
                if !free(touched, &self.frozen, *v) { continue; }
                o.push((*v, s[*v as usize] - m.f * k.inverse()));
            }
            if o.is_empty() { return; }
            opts.push(o);
        }
        opts.sort_by_key(Vec::len);
        let mut done: HashSet<(u32, u64)> = HashSet::new();
        let rows = self.rows;
        for o in opts.into_iter().take(self.now) {
            for (v, x) in o {
                if !done.insert((v, x.to_canonical_u64())) { continue; }
                let old = s[v as usize];
                s[v as usize] = x;
                self.stats.steps += 1;
                let (pa, qa) = (&rows.poly_of[v as usize], &rows.port_of[v as usize]);
                let mut b2: Vec<u32> = bad.iter().copied().filter(|p| pa.binary_search(p).is_err()).collect();
                b2.extend(pa.iter().filter(|p| self.bad(**p as usize, s)));
                let mut o2: Vec<u32> = off.iter().copied().filter(|p| qa.binary_search(p).is_err()).collect();
                o2.extend(qa.iter().filter(|p| self.off(**p as usize, s)));
                touched[v as usize] = true;
                self.go(s, touched, h ^ mix(v, old) ^ mix(v, x), &b2, &o2, depth - 1);
                touched[v as usize] = false;
                s[v as usize] = old;
                if self.found.is_some() { return; }
            }
        }
    }
    /// Do the extracted polynomials and lookups hold on honest rows?
    pub fn holds(&self, s: &[F]) -> Result<(), String> {
        for p in 0..self.rows.polys.len() { if self.rows.value(p, s) != F::ZERO { return Err(format!("constraint {p}")); } }
        for p in 0..self.rows.ports.len() { if self.off(p, s) { return Err(format!("lookup {:?}", self.rows.msg(&self.rows.ports[p], s))); } }
        Ok(())
    }
}
