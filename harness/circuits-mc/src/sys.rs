//! The proof system as a relation: row constraints, lookups, public values.
use std::collections::HashMap;

use mozak_circuits::generation::generate_traces;
use mozak_circuits::stark::mozak_stark::TableKind;
use mozak_circuits::verif::{self, buses, eval, kinds, public_input_counts, public_sub_tables, End, S};
use mozak_runner::elf::Program;
use mozak_runner::vm::ExecutionRecord;
pub use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;

pub struct Sys {
    pub stark: S,
    pub kinds: Vec<TableKind>,
    pub buses: Vec<Vec<End>>,
    pub public: Vec<(End, usize)>,
    pub pis: Vec<usize>,
}

/// Row-major tables, indexed by `TableKind as usize`.
pub type Tables = Vec<Vec<Vec<F>>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Reject {
    Constraint { kind: String, row: usize, index: usize },
    Bus { bus: usize, ends: String, tuple: Vec<u64>, sum: u64 },
    Public(usize),
    Shape(String),
}

impl Sys {
    pub fn new() -> Sys {
        let stark = S::default();
        Sys { kinds: kinds(), buses: buses(&stark), public: public_sub_tables(&stark), pis: public_input_counts(&stark), stark }
    }
    pub fn traces(&self, p: &Program, r: &ExecutionRecord<F>) -> Tables {
        let t = generate_traces::<F, { verif::D }>(p, r, &mut TimingTree::default());
        t.0.iter().map(|cols| {
            let n = cols[0].values.len();
            (0..n).map(|i| cols.iter().map(|c| c.values[i]).collect()).collect()
        }).collect()
    }
    fn pis_of<'a>(&self, k: TableKind, entry: &'a [F]) -> &'a [F] { if self.pis[k as usize] > 0 { entry } else { &[] } }
    /// First row constraint that fails in table `k`.
    pub fn table(&self, k: TableKind, rows: &[Vec<F>], entry: F) -> Option<Reject> {
        let n = rows.len();
        let e = [entry];
        for i in 0..n {
            let seen = eval(&self.stark, k, &rows[i], &rows[(i + 1) % n], self.pis_of(k, &e), i == 0, i + 1 == n);
            if let Some(index) = seen.iter().position(|v| *v != F::ZERO) {
                return Some(Reject::Constraint { kind: format!("{k:?}"), row: i, index });
            }
        }
        None
    }
    pub fn bus_contents(&self, b: usize, t: &Tables) -> HashMap<Vec<F>, F> {
        let mut m: HashMap<Vec<F>, F> = HashMap::new();
        for e in &self.buses[b] {
            let rows = &t[e.kind as usize];
            let n = rows.len();
            for i in 0..n {
                let (lv, nv) = (&rows[i], &rows[(i + 1) % n]);
                let f = e.filter.eval(lv, nv);
                if f == F::ZERO { continue; }
                *m.entry(e.columns.iter().map(|c| c.eval(lv, nv)).collect()).or_insert(F::ZERO) += f;
            }
        }
        m
    }
    pub fn bus(&self, b: usize, t: &Tables) -> Option<Reject> {
        let m = self.bus_contents(b, t);
        m.into_iter().filter(|(_, f)| *f != F::ZERO).min_by_key(|(k, _)| k.iter().map(|x| x.to_canonical_u64()).collect::<Vec<_>>()).map(|(tuple, f)| Reject::Bus {
            bus: b,
            ends: format!("{:?}", self.buses[b].iter().map(|e| e.kind).collect::<Vec<_>>()),
            tuple: tuple.iter().map(|x| x.to_canonical_u64()).collect(),
            sum: f.to_canonical_u64(),
        })
    }
    /// The public values a verifier reads off: per public sub table, its rows in order, without their indices.
    pub fn public_values(&self, t: &Tables) -> Vec<Vec<Vec<F>>> {
        self.public.iter().map(|(e, _)| {
            let rows = &t[e.kind as usize];
            let n = rows.len();
            (0..n).filter(|i| e.filter.eval(&rows[*i], &rows[(i + 1) % n]) == F::ONE)
                .map(|i| e.columns[..e.columns.len() - 1].iter().map(|c| c.eval(&rows[i], &rows[(i + 1) % n])).collect()).collect()
        }).collect()
    }
    /// Would an ideal proof system accept these tables for this entry point and these public values?
    pub fn verdict(&self, t: &Tables, entry: F, public: &[Vec<Vec<F>>]) -> Option<Reject> {
        for k in &self.kinds {
            let n = t[*k as usize].len();
            if !n.is_power_of_two() { return Some(Reject::Shape(format!("{k:?} has {n} rows"))); }
            if let Some(r) = self.table(*k, &t[*k as usize], entry) { return Some(r); }
        }
        for b in 0..self.buses.len() { if let Some(r) = self.bus(b, t) { return Some(r); } }
        for (i, (e, n)) in self.public.iter().enumerate() {
            let mut m: HashMap<Vec<F>, F> = HashMap::new();
            let rows = &t[e.kind as usize];
            for j in 0..rows.len() {
                let (lv, nv) = (&rows[j], &rows[(j + 1) % rows.len()]);
                let f = e.filter.eval(lv, nv);
                if f != F::ZERO { *m.entry(e.columns.iter().map(|c| c.eval(lv, nv)).collect()).or_insert(F::ZERO) += f; }
            }
            if public[i].len() != *n { return Some(Reject::Shape(format!("public sub table {i} has {} rows", public[i].len()))); }
            for (j, row) in public[i].iter().enumerate() { *m.entry(row.iter().copied().chain([f(j as u64)]).collect()).or_insert(F::ZERO) -= F::ONE; }
            if m.values().any(|f| *f != F::ZERO) { return Some(Reject::Public(i)); }
        }
        None
    }
}
pub fn f(x: u64) -> F { F::from_canonical_u64(x) }
