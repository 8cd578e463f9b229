//! Uniform access to the constraints and lookups of every table.
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::sym::{Node, Sym};
use plonky2::field::types::Field;
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::linear_combination::Column;
use crate::stark::mozak_stark::{all_kind, all_starks, MozakStark, Table, TableKind, TableKindArray};

pub type F = GoldilocksField;
pub const D: usize = 2;
pub type S = MozakStark<F, D>;

pub fn kinds() -> Vec<TableKind> { all_kind!(|kind| kind).0.to_vec() }
pub fn widths(s: &S) -> Vec<usize> {
    fn w<T: Stark<F, D>>(_: &T) -> usize { T::COLUMNS }
    all_starks!(s, |stark, _kind| w(stark)).0.to_vec()
}
pub fn public_input_counts(s: &S) -> Vec<usize> {
    fn w<T: Stark<F, D>>(_: &T) -> usize { T::PUBLIC_INPUTS }
    all_starks!(s, |stark, _kind| w(stark)).0.to_vec()
}
pub fn degrees(s: &S) -> Vec<usize> { all_starks!(s, |stark, _kind| stark.constraint_degree()).0.to_vec() }

fn eval_one<T: Stark<F, D>>(t: &T, lv: &[F], nv: &[F], pis: &[F], first: bool, last: bool) -> Vec<F> {
    let mut c = ConstraintConsumer::<F>::new_debug_api(first, last);
    let vars = <T::EvaluationFrame<F, F, 1> as StarkEvaluationFrame<F, F>>::from_values(lv, nv, pis);
    t.eval_packed_generic(&vars, &mut c);
    c.seen
}
/// Every constraint of the table, evaluated on two adjacent rows.
pub fn eval(s: &S, k: TableKind, lv: &[F], nv: &[F], pis: &[F], first: bool, last: bool) -> Vec<F> {
    let r = all_starks!(s, |stark, kind| if kind as usize == k as usize { Some(eval_one(stark, lv, nv, pis, first, last)) } else { None });
    r.0.into_iter().flatten().next().unwrap()
}

/// A polynomial over the cells of two adjacent rows and the row kind:
/// variable v < w is cell v of the first row, w <= v < 2w of the next row,
/// 2w.. the public inputs, then `not last`, `first` and `last`.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Poly { pub terms: std::collections::BTreeMap<Vec<u32>, F> }
impl Poly {
    fn one(m: Vec<u32>, c: F) -> Poly { let mut p = Poly::default(); if c != F::ZERO { p.terms.insert(m, c); } p }
    fn add(mut self, o: &Poly, k: F) -> Poly {
        for (m, c) in &o.terms {
            let e = self.terms.entry(m.clone()).or_insert(F::ZERO);
            *e += *c * k;
            if *e == F::ZERO { self.terms.remove(m); }
        }
        self
    }
    fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::default();
        for (a, x) in &self.terms { for (b, y) in &o.terms {
            let mut m: Vec<u32> = a.iter().chain(b).copied().collect();
            m.sort_unstable();
            let e = r.terms.entry(m.clone()).or_insert(F::ZERO);
            *e += *x * *y;
            if *e == F::ZERO { r.terms.remove(&m); }
        } }
        r
    }
}
fn expand(s: Sym, memo: &mut std::collections::HashMap<u32, Poly>) -> Poly {
    if let Some(p) = memo.get(&s.0) { return p.clone(); }
    let p = match s.node() {
        Node::Const(c) => Poly::one(vec![], c),
        Node::Var(v) => Poly::one(vec![v], F::ONE),
        Node::Neg(a) => Poly::default().add(&expand(a, memo), F::NEG_ONE),
        Node::Add(a, b) => expand(a, memo).add(&expand(b, memo), F::ONE),
        Node::Sub(a, b) => expand(a, memo).add(&expand(b, memo), F::NEG_ONE),
        Node::Mul(a, b) => expand(a, memo).mul(&expand(b, memo)),
    };
    memo.insert(s.0, p.clone());
    p
}
fn polys_one<T: Stark<F, D>>(t: &T) -> Vec<Poly> {
    Sym::reset();
    let w = T::COLUMNS as u32;
    let n = T::PUBLIC_INPUTS as u32;
    let v: Vec<Sym> = (0..2 * w + n + 3).map(Sym::var).collect();
    let (lv, r) = v.split_at(w as usize);
    let (nv, r) = r.split_at(w as usize);
    let (pi, k) = r.split_at(n as usize);
    // public inputs are scalars in the packed evaluation, hence known constants there
    let _ = pi;
    let pis = vec![F::from_canonical_u64(PUBLIC_MARK); n as usize];
    let mut c = ConstraintConsumer::<Sym>::new_recording(k[0], k[1], k[2]);
    let vars = <T::EvaluationFrame<F, Sym, 1> as StarkEvaluationFrame<Sym, F>>::from_values(lv, nv, &pis);
    t.eval_packed_generic(&vars, &mut c);
    let mut memo = std::collections::HashMap::new();
    c.seen.iter().map(|s| expand(*s, &mut memo)).collect()
}
/// The value public inputs take in extracted polynomials.
pub const PUBLIC_MARK: u64 = 0x200;
/// Every constraint of the table as a polynomial, in the order of `eval`.
pub fn polys(s: &S, k: TableKind) -> Vec<Poly> {
    let r = all_starks!(s, |stark, kind| if kind as usize == k as usize { Some(polys_one(stark)) } else { None });
    r.0.into_iter().flatten().next().unwrap()
}

/// A linear form over the cells of two adjacent rows.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lin { pub lv: Vec<(usize, F)>, pub nv: Vec<(usize, F)>, pub c: F }
impl Lin {
    pub fn of(c: &Column) -> Lin {
        let f = |v: &Vec<(usize, i64)>| v.iter().filter(|(_, x)| *x != 0).map(|(i, x)| (*i, F::from_noncanonical_i64(*x))).collect();
        Lin { lv: f(&c.lv_linear_combination), nv: f(&c.nv_linear_combination), c: F::from_noncanonical_i64(c.constant) }
    }
    #[inline]
    pub fn eval(&self, lv: &[F], nv: &[F]) -> F {
        let mut a = self.c;
        for (i, x) in &self.lv { a += lv[*i] * *x; }
        for (i, x) in &self.nv { a += nv[*i] * *x; }
        a
    }
}
/// One side of a lookup: rows of `kind` put `columns` on the bus, `filter` times.
#[derive(Clone, Debug)]
pub struct End { pub kind: TableKind, pub columns: Vec<Lin>, pub filter: Lin }
impl End {
    fn of(t: &Table) -> End { End { kind: t.kind, columns: t.columns.iter().map(Lin::of).collect(), filter: Lin::of(&t.filter_column) } }
}
/// The cross-table lookups: for each, all ends; the signed multiplicities of every tuple must cancel.
pub fn buses(s: &S) -> Vec<Vec<End>> { s.cross_table_lookups.iter().map(|c| c.looking_tables.iter().map(End::of).collect()).collect() }
pub fn public_sub_tables(s: &S) -> Vec<(End, usize)> { s.public_sub_tables.iter().map(|p| (End::of(&p.table), p.num_rows)).collect() }
pub type Traces = TableKindArray<Vec<plonky2::field::polynomial::PolynomialValues<F>>>;
