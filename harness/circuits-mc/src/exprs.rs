//! S05: expressions, constraints and linear combinations mean what they say,
//! whichever evaluator is used.
use std::collections::HashMap;

use expr::{BinOp, Cached, Evaluator, Expr, ExprBuilder};
use mc::{guard, Ctx};
use mozak_circuits::expr::{build_ext, build_packed, packed_field_evaluator, ConstraintBuilder};
use mozak_circuits::linear_combination::{Column, ColumnSparse};
use mozak_circuits::linear_combination_typed::ColumnWithTypedInput;
use mozak_circuits::rangecheck_u8::columns::RangeCheckU8;
use mozak_circuits::verif::D;
use plonky2::field::extension::FieldExtension;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, Field64};
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitConfig;
use serde_json::json;
use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};

use crate::proofs::C;
use crate::sys::F;

type Ext = <F as plonky2::field::extension::Extendable<D>>::Extension;
type ET = ExtensionTarget<D>;

fn base(x: F) -> Ext { <Ext as FieldExtension<D>>::from_basefield(x) }
fn ext(x: [F; D]) -> Ext { <Ext as FieldExtension<D>>::from_basefield_array(x) }
fn arr(x: Ext) -> [F; D] { <Ext as FieldExtension<D>>::to_basefield_array(&x) }

#[derive(Clone, Copy, Debug)]
enum Leaf { A, B, Const(i64), Basic(i64) }

#[derive(Clone, Copy, Debug)]
enum Form { Plain, Ref, Assign }

#[derive(Clone, Copy, Debug)]
enum Step {
    Bin(BinOp, Form, usize, usize),
    Left(BinOp, usize, i64),
    LeftAssign(BinOp, usize, i64),
    Right(BinOp, i64, usize),
    Neg(usize),
    NegRef(usize),
    Sum(usize, usize),
    SumRef(usize, usize),
    IsBinary(usize),
    Powers(usize, usize, i64),
}

const OPS: [BinOp; 3] = [BinOp::Add, BinOp::Sub, BinOp::Mul];

/// What step `n` may be: all of them, or only those that use the newest node.
fn choices(n: usize, newest: bool, forms: bool, k: i64) -> Vec<Step> {
    let mut v = vec![];
    for i in 0..n {
        let old = newest && i + 1 != n;
        for j in 0..n {
            if old && j + 1 != n { continue; }
            for op in OPS {
                v.push(Step::Bin(op, Form::Plain, i, j));
                if forms { v.push(Step::Bin(op, Form::Ref, i, j)); v.push(Step::Bin(op, Form::Assign, i, j)); }
            }
            if forms { v.push(Step::Sum(i, j)); v.push(Step::SumRef(i, j)); v.push(Step::Powers(i, j, k)); }
        }
        if old { continue; }
        for op in OPS {
            v.push(Step::Left(op, i, k));
            v.push(Step::Right(op, k, i));
            if forms { v.push(Step::LeftAssign(op, i, k)); }
        }
        v.push(Step::Neg(i));
        if forms { v.push(Step::NegRef(i)); }
        v.push(Step::IsBinary(i));
    }
    v
}

/// The real thing.
fn build<'a, V: Copy>(eb: &'a ExprBuilder, leaves: &[Leaf], ab: [V; 2], steps: &[Step]) -> Expr<'a, V> {
    let mut n: Vec<Expr<'a, V>> = leaves.iter().map(|l| match *l {
        Leaf::A => eb.lit(ab[0]),
        Leaf::B => eb.lit(ab[1]),
        Leaf::Const(k) => eb.constant(k),
        Leaf::Basic(k) => Expr::from(k),
    }).collect();
    for s in steps {
        let e = match *s {
            Step::Bin(BinOp::Add, Form::Plain, i, j) => n[i] + n[j],
            Step::Bin(BinOp::Sub, Form::Plain, i, j) => n[i] - n[j],
            Step::Bin(BinOp::Mul, Form::Plain, i, j) => n[i] * n[j],
            Step::Bin(BinOp::Add, Form::Ref, i, j) => n[i] + &n[j],
            Step::Bin(BinOp::Sub, Form::Ref, i, j) => n[i] - &n[j],
            Step::Bin(BinOp::Mul, Form::Ref, i, j) => n[i] * &n[j],
            Step::Bin(op, Form::Assign, i, j) => { let mut x = n[i]; match op { BinOp::Add => x += n[j], BinOp::Sub => x -= n[j], BinOp::Mul => x *= n[j] } x }
            Step::Left(BinOp::Add, i, k) => n[i] + k,
            Step::Left(BinOp::Sub, i, k) => n[i] - k,
            Step::Left(BinOp::Mul, i, k) => n[i] * k,
            Step::LeftAssign(op, i, k) => { let mut x = n[i]; match op { BinOp::Add => x += k, BinOp::Sub => x -= k, BinOp::Mul => x *= k } x }
            Step::Right(BinOp::Add, k, i) => k + n[i],
            Step::Right(BinOp::Sub, k, i) => k - n[i],
            Step::Right(BinOp::Mul, k, i) => k * n[i],
            Step::Neg(i) => -n[i],
            Step::NegRef(i) => -&n[i],
            Step::Sum(i, j) => [n[i], n[j], n[i]].into_iter().sum(),
            Step::SumRef(i, j) => [n[i], n[j]].iter().sum(),
            Step::IsBinary(i) => n[i].is_binary(),
            Step::Powers(i, j, k) => Expr::reduce_with_powers([n[i], n[j], n[i]], k),
        };
        n.push(e);
    }
    *n.last().unwrap()
}

/// A value of the reference: what it is in the field, and the constant it is
/// as long as only plain constants were put together.
#[derive(Clone, Copy)]
struct Ref { v: Ext, k: Option<i128> }

fn lift(k: i128) -> Ext {
    let p = i128::from(F::ORDER);
    base(F::from_canonical_u64(u64::try_from(k.rem_euclid(p)).unwrap()))
}

/// The reference, and whether a constant on the way does not fit in an `i64`.
fn reference(leaves: &[Leaf], ab: [Ext; 2], steps: &[Step]) -> (Ext, bool) {
    let mut big = false;
    let mut n: Vec<Ref> = leaves.iter().map(|l| match *l {
        Leaf::A => Ref { v: ab[0], k: None },
        Leaf::B => Ref { v: ab[1], k: None },
        Leaf::Const(k) => Ref { v: lift(k.into()), k: None },
        Leaf::Basic(k) => Ref { v: lift(k.into()), k: Some(k.into()) },
    }).collect();
    let basic = |k: i64| Ref { v: lift(k.into()), k: Some(k.into()) };
    let mut bin = |op: BinOp, a: Ref, b: Ref| {
        // once a constant has not fitted the value of the rest is of no matter
        let k = a.k.zip(b.k).and_then(|(x, y)| match op { BinOp::Add => x.checked_add(y), BinOp::Sub => x.checked_sub(y), BinOp::Mul => x.checked_mul(y) });
        if let Some(k) = k { big |= i64::try_from(k).is_err(); }
        Ref { v: match op { BinOp::Add => a.v + b.v, BinOp::Sub => a.v - b.v, BinOp::Mul => a.v * b.v }, k }
    };
    for s in steps {
        let e = match *s {
            Step::Bin(op, _, i, j) => bin(op, n[i], n[j]),
            Step::Left(op, i, k) | Step::LeftAssign(op, i, k) => bin(op, n[i], basic(k)),
            Step::Right(op, k, i) => bin(op, basic(k), n[i]),
            Step::Neg(i) | Step::NegRef(i) => bin(BinOp::Sub, basic(0), n[i]),
            Step::Sum(i, j) => { let x = bin(BinOp::Add, n[i], n[j]); bin(BinOp::Add, x, n[i]) }
            Step::SumRef(i, j) => bin(BinOp::Add, n[i], n[j]),
            Step::IsBinary(i) => { let x = bin(BinOp::Sub, basic(1), n[i]); bin(BinOp::Mul, n[i], x) }
            Step::Powers(i, j, k) => {
                let mut acc = basic(0);
                for t in [i, j, i] { let x = bin(BinOp::Mul, acc, basic(k)); acc = bin(BinOp::Add, x, n[t]); }
                acc
            }
        };
        n.push(e);
    }
    (n.last().unwrap().v, big)
}

fn points() -> Vec<[Ext; 2]> {
    let e = |a: u64, b: u64| ext([F::from_noncanonical_u64(a), F::from_noncanonical_u64(b)]);
    vec![
        [e(2, 0), e(F::ORDER - 1, 0)],
        [e(0, 0), e(1, 0)],
        [e(0x1234_5678_9abc_def1, 0), e(0xdead_beef_0000_0003, 0)],
        [e(3, F::ORDER - 5), e(1 << 62, 7)],
    ]
}

fn in_base(p: &[Ext; 2]) -> Option<[F; 2]> {
    let x = p.map(arr);
    (x[0][1] == F::ZERO && x[1][1] == F::ZERO).then(|| [x[0][0], x[1][0]])
}

fn put(m: &mut HashMap<Target, F>, t: ET, v: Ext) { for (t, v) in t.0.into_iter().zip(arr(v)) { m.insert(t, v); } }

fn new_builder() -> CircuitBuilder<F, D> { CircuitBuilder::new(CircuitConfig::standard_recursion_config()) }

pub fn s05(c: &Ctx) {
    c.assume("plonky2's field, its packing and its circuit builder are the stand-ins of /verif/shims; starky's consumers are too");
    expressions(c);
    constraints(c);
    columns(c);
}

fn expressions(c: &Ctx) {
    use Leaf::*;
    let plain = vec![A, B, Const(3), Basic(-2)];
    let big = vec![A, Basic(i64::MAX), Basic(i64::MIN), Basic(3), Const(i64::MIN)];
    let plans: Vec<(&str, Vec<Leaf>, usize, bool, bool, i64)> = vec![
        ("all forms", plain.clone(), 2, false, true, 5),
        ("every step uses the newest", plain.clone(), c.pick(3, 4), true, false, -7),
        ("all steps", plain, c.pick(2, 3), false, false, 1 << 40),
        ("large constants", big.clone(), 2, false, true, i64::MAX),
        ("large constants, small factor", big, c.pick(2, 3), true, false, -1),
    ];
    for (name, leaves, depth, newest, forms, k) in plans {
        let menus: Vec<Vec<Step>> = (0..depth).map(|d| choices(leaves.len() + d, newest && d > 0, forms, k)).collect();
        let total: usize = menus.iter().map(Vec::len).product();
        c.info(&format!("expressions: {name}"), total);
        let chunk = 512;
        c.par(&format!("expressions {name}"), total.div_ceil(chunk), |m, l| {
            plonky2::plonk::circuit_builder::set_panics(false);
            let all: Vec<Vec<Step>> = (m * chunk..((m + 1) * chunk).min(total)).map(|mut i| menus.iter().map(|w| { let s = w[i % w.len()]; i /= w.len(); s }).collect()).collect();
            let show = |s: &[Step]| json!({"leaves": format!("{leaves:?}"), "steps": format!("{s:?}")});
            let mut b = new_builder();
            let ab = [b.add_virtual_extension_target(), b.add_virtual_extension_target()];
            let one = b.one();
            let zero = b.zero_extension();
            let eb_t = ExprBuilder::default();
            let mut outs = vec![];
            for s in &all {
                l.add("states", 1);
                l.add("transitions", depth as u64);
                let (_, big) = reference(&leaves, points()[0], s);
                let e = guard(|| build::<ET>(&eb_t, &leaves, ab, s));
                match e {
                    Err(_) if big => { l.add("refused", 1); outs.push(None); }
                    Err(e) => { c.violation("an expression is refused", json!({"at": show(s), "error": e})); return; }
                    // kept although a constant did not fit: it must still be right, which is checked below
                    Ok(e) => {
                        let mut cb = ConstraintBuilder::default();
                        cb.always(e);
                        let mut cons = RecursiveConstraintConsumer::<F, D>::new(zero, vec![one], zero, zero, zero);
                        build_ext(cb, &mut b, &mut cons);
                        outs.push(Some(cons.accumulators()[0]));
                    }
                }
            }
            let data = b.build::<C>();
            let circuit = &data.prover_only.circuit;
            for p in points() {
                let mut inputs = HashMap::new();
                put(&mut inputs, ab[0], p[0]);
                put(&mut inputs, ab[1], p[1]);
                let vals = match circuit.evaluate(&inputs, &Default::default()) { Ok(v) => v, Err(e) => { c.violation("the circuit of expressions fails", json!({"error": e})); return; } };
                let eb = ExprBuilder::default();
                let mut cb = ConstraintBuilder::<Expr<'_, Ext>>::default();
                let mut want = vec![];
                for (s, out) in all.iter().zip(&outs) {
                    let Some(out) = out else { continue };
                    let (r, _) = reference(&leaves, p, s);
                    let t = ext(out.0.map(|t| vals.get(t)));
                    if !c.check(t == r, || "the circuit of an expression has another value".into(), || show(s)) { return; }
                    let e = build::<Ext>(&eb, &leaves, p, s);
                    let pure = packed_field_evaluator::<F, Ext, Ext, D, D>().eval(e);
                    let cached = Cached::from(packed_field_evaluator::<F, Ext, Ext, D, D>()).eval(e);
                    if !c.check(pure == r && cached == r, || "an expression has another value".into(), || show(s)) { return; }
                    if let Some(q) = in_base(&p) {
                        let eb = ExprBuilder::default();
                        let e = build::<F>(&eb, &leaves, q, s);
                        let v = packed_field_evaluator::<F, F, F, D, 1>().eval(e);
                        if !c.check(base(v) == r, || "an expression has another value in the base field".into(), || show(s)) { return; }
                    }
                    cb.always(e);
                    want.push(r);
                    l.add("evaluations", 4);
                }
                let mut cons = ConstraintConsumer::<Ext>::new_recording(Ext::ONE, Ext::ONE, Ext::ONE);
                build_packed::<F, Ext, Ext, D, D>(cb, &mut cons);
                if let Some(i) = (0..want.len().max(cons.seen.len())).find(|&i| want.get(i) != cons.seen.get(i)) {
                    c.violation("constraints are not evaluated as written", json!({"plan": name, "which": i, "point": format!("{p:?}")}));
                    return;
                }
            }
        });
    }
}

/// Kinds of constraints: each holds on the rows it is for, and is there once, in order.
fn constraints(c: &Ctx) {
    let len = c.pick(3, 4);
    let n = 12usize;
    let total: usize = (1..=len).map(|k| n.pow(k as u32)).sum();
    c.info("sequences of constraints", total);
    let chunk = 64;
    c.par("constraints", total.div_ceil(chunk), |m, l| {
        for i in m * chunk..((m + 1) * chunk).min(total) {
            let (mut k, mut i) = (1u32, i);
            while i >= n.pow(k) { i -= n.pow(k); k += 1; }
            let seq: Vec<usize> = (0..k).map(|d| i / n.pow(d) % n).collect();
            l.add("states", 1);
            l.add("transitions", u64::from(k));
            fn fill<'a, V: Copy>(eb: &'a ExprBuilder, ab: [V; 2], seq: &[usize]) -> ConstraintBuilder<Expr<'a, V>> {
                let (a, b) = (eb.lit(ab[0]), eb.lit(ab[1]));
                let shared = a - b;
                let mut cb = ConstraintBuilder::default();
                for s in seq {
                    let e = [shared, shared * a, b - 1][s / 4];
                    match s % 4 { 0 => cb.always(e), 1 => cb.first_row(e), 2 => cb.last_row(e), _ => cb.transition(e) }
                }
                cb
            }
            let p = points()[3];
            let z: Vec<Ext> = (0..3).map(|i| ext([F::from_canonical_u64(11 + i), F::from_canonical_u64(100 * i + 3)])).collect();
            let alphas = [F::from_canonical_u64(1 << 33), F::from_canonical_u64(17)];
            let want: Vec<Ext> = alphas.iter().map(|al| seq.iter().fold(Ext::ZERO, |acc, s| {
                let v = [p[0] - p[1], (p[0] - p[1]) * p[0], p[1] - Ext::ONE][s / 4];
                acc * base(*al) + v * [Ext::ONE, z[1], z[2], z[0]][s % 4]
            })).collect();
            let show = || json!({"constraints": format!("{seq:?}")});
            let eb = ExprBuilder::default();
            let mut cons = ConstraintConsumer::<Ext>::new(alphas.iter().map(|a| base(*a)).collect(), z[0], z[1], z[2]);
            build_packed::<F, Ext, Ext, D, D>(fill(&eb, p, &seq), &mut cons);
            if !c.check(cons.accumulators() == want, || "constraints are put together differently".into(), show) { return; }
            let mut b = new_builder();
            let t: Vec<ET> = (0..5).map(|_| b.add_virtual_extension_target()).collect();
            let al = alphas.map(|a| b.constant(a));
            let zero = b.zero_extension();
            let mut cons = RecursiveConstraintConsumer::<F, D>::new(zero, al.to_vec(), t[2], t[3], t[4]);
            let eb = ExprBuilder::default();
            build_ext(fill(&eb, [t[0], t[1]], &seq), &mut b, &mut cons);
            let data = b.build::<C>();
            let mut inputs = HashMap::new();
            for (t, v) in t.iter().zip(p.iter().chain(&z)) { put(&mut inputs, *t, *v); }
            match data.prover_only.circuit.evaluate(&inputs, &Default::default()) {
                Ok(v) => { if !c.check(cons.accumulators().iter().map(|t| ext(t.0.map(|t| v.get(t)))).eq(want), || "the circuit puts constraints together differently".into(), show) { return; } }
                Err(e) => { c.violation("the circuit of constraints fails", json!({"error": e})); return; }
            }
        }
    });
}

type Typed = ColumnWithTypedInput<RangeCheckU8<i64>>;

#[derive(Clone, Copy, Debug)]
enum Lin { Add(usize, usize), Sub(usize, usize), Sum(usize, usize), SumRef(usize, usize), Powers(usize, usize, i64), Ascend(usize, usize), AddK(usize, i64), KAdd(i64, usize), SubK(usize, i64), KSub(i64, usize), MulK(usize, i64), KMul(i64, usize), Neg(usize), Not(usize), Flip(usize), Diff(usize), K(i64) }

fn lin_choices(n: usize, ks: &[i64]) -> Vec<Lin> {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n { v.extend([Lin::Add(i, j), Lin::Sub(i, j), Lin::Sum(i, j), Lin::SumRef(i, j), Lin::Ascend(i, j)]); for &k in ks { v.push(Lin::Powers(i, j, k)); } }
        for &k in ks { v.extend([Lin::AddK(i, k), Lin::KAdd(k, i), Lin::SubK(i, k), Lin::KSub(k, i), Lin::MulK(i, k), Lin::KMul(k, i)]); }
        v.extend([Lin::Neg(i), Lin::Not(i), Lin::Flip(i), Lin::Diff(i)]);
    }
    v.extend(ks.iter().map(|k| Lin::K(*k)));
    v
}

/// Coefficients of both columns of this row, of the next one, and the constant.
type Co = [i128; 5];

fn lin_ref(n: &[Co], s: &Lin, big: &mut bool) -> Co {
    let z = |a: Co, b: Co, f: &dyn Fn(i128, i128) -> i128| -> Co { core::array::from_fn(|i| f(a[i], b[i])) };
    let add = |a: Co, b: Co| z(a, b, &|x, y| x.saturating_add(y));
    let sub = |a: Co, b: Co| z(a, b, &|x, y| x.saturating_sub(y));
    let mul = |a: Co, k: i64| a.map(|x| x.saturating_mul(k.into()));
    let con = |k: i64| -> Co { [0, 0, 0, 0, k.into()] };
    let flip = |a: Co| [a[2], a[3], a[0], a[1], a[4]];
    let mut see = |x: Co| { *big |= x.iter().any(|v| i64::try_from(*v).is_err()); x };
    match *s {
        Lin::Add(i, j) | Lin::SumRef(i, j) => see(add(n[i], n[j])),
        Lin::Sub(i, j) => see(sub(n[i], n[j])),
        Lin::Sum(i, j) => { let x = see(add(n[i], n[j])); see(add(x, n[i])) }
        Lin::Powers(i, j, k) => { let mut acc = con(0); for t in [i, j, i] { let x = see(mul(acc, k)); acc = see(add(x, n[t])); } acc }
        Lin::Ascend(i, j) => { let mut acc = con(0); for (k, t) in [j, i, j].into_iter().enumerate() { let x = see(mul(n[t], k as i64)); acc = see(add(acc, x)); } acc }
        Lin::AddK(i, k) | Lin::KAdd(k, i) => see(add(n[i], con(k))),
        Lin::SubK(i, k) => see(sub(n[i], con(k))),
        Lin::KSub(k, i) => { let x = see(mul(n[i], -1)); see(add(x, con(k))) }
        Lin::MulK(i, k) | Lin::KMul(k, i) => see(mul(n[i], k)),
        Lin::Neg(i) => see(mul(n[i], -1)),
        Lin::Not(i) => { let x = see(mul(n[i], -1)); see(add(x, con(1))) }
        Lin::Flip(i) => flip(n[i]),
        Lin::Diff(i) => see(sub(flip(n[i]), n[i])),
        Lin::K(k) => con(k),
    }
}

fn lin_real(n: &[Typed], s: &Lin) -> Typed {
    match *s {
        Lin::Add(i, j) => n[i] + n[j],
        Lin::Sub(i, j) => n[i] - n[j],
        Lin::Sum(i, j) => [n[i], n[j], n[i]].into_iter().sum(),
        Lin::SumRef(i, j) => [n[i], n[j]].iter().sum(),
        Lin::Powers(i, j, k) => Typed::reduce_with_powers([n[i], n[j], n[i]], k),
        Lin::Ascend(i, j) => Typed::ascending_sum([n[j], n[i], n[j]]),
        Lin::AddK(i, k) => n[i] + k,
        Lin::KAdd(k, i) => k + n[i],
        Lin::SubK(i, k) => n[i] - k,
        Lin::KSub(k, i) => k - n[i],
        Lin::MulK(i, k) => n[i] * k,
        Lin::KMul(k, i) => k * n[i],
        Lin::Neg(i) => -n[i],
        Lin::Not(i) => !n[i],
        Lin::Flip(i) => n[i].flip(),
        Lin::Diff(i) => n[i].diff(),
        Lin::K(k) => Typed::constant(k),
    }
}

fn lin_value(co: &Co, x: &[F; 4]) -> F {
    let k = |k: i128| arr(lift(k))[0];
    (0..4).map(|i| k(co[i]) * x[i]).sum::<F>() + k(co[4])
}

fn columns(c: &Ctx) {
    let leaf = |i: usize| { let mut v = [0i64; 2]; v[i % 2] = 1; let (v, o) = (RangeCheckU8::from_array(v), RangeCheckU8::from_array([0; 2])); if i < 2 { Typed { lv_linear_combination: v, nv_linear_combination: o, constant: 0 } } else { Typed { lv_linear_combination: o, nv_linear_combination: v, constant: 0 } } };
    let leaves: Vec<Typed> = vec![leaf(0), leaf(1), leaf(3)];
    let refs: Vec<Co> = vec![[1, 0, 0, 0, 0], [0, 1, 0, 0, 0], [0, 0, 0, 1, 0]];
    // (depth, constants)
    let plans: Vec<(usize, Vec<i64>)> = vec![(2, vec![0, 3, -5]), (2, vec![i64::MAX, i64::MIN, -1]), (c.pick(2, 3), vec![-2])];
    let xs: Vec<[F; 4]> = vec![[2, 3, 5, 7].map(F::from_canonical_u64), [F::ORDER - 1, 1 << 63, 0x1234_5678_9abc, 0].map(F::from_canonical_u64)];
    for (depth, ks) in plans {
        let menus: Vec<Vec<Lin>> = (0..depth).map(|d| lin_choices(leaves.len() + d, &ks)).collect();
        let total: usize = menus.iter().map(Vec::len).product();
        c.info(&format!("linear combinations with {ks:?}"), total);
        let chunk = 512;
        c.par(&format!("columns {depth} {ks:?}"), total.div_ceil(chunk), |m, l| {
            plonky2::plonk::circuit_builder::set_panics(false);
            let mut b = new_builder();
            let t: Vec<ET> = (0..4).map(|_| b.add_virtual_extension_target()).collect();
            let mut outs: Vec<(Vec<Lin>, Co, Column, ET)> = vec![];
            for mut i in m * chunk..((m + 1) * chunk).min(total) {
                let s: Vec<Lin> = menus.iter().map(|w| { let s = w[i % w.len()]; i /= w.len(); s }).collect();
                l.add("states", 1);
                l.add("transitions", depth as u64);
                let show = || json!({"steps": format!("{s:?}")});
                let (mut big, mut r) = (false, refs.clone());
                for s in &s { let x = lin_ref(&r, s, &mut big); r.push(x); }
                let got = guard(|| { let mut n = leaves.clone(); for s in &s { let x = lin_real(&n, s); n.push(x); } *n.last().unwrap() });
                match got {
                    Err(_) if big => { l.add("refused", 1); }
                    Err(e) => { c.violation("a linear combination is refused", json!({"at": show(), "error": e})); return; }
                    Ok(x) => {
                        let col = Column::from(x);
                        let o = col.eval_circuit::<F, D>(&mut b, &t[..2], &t[2..]);
                        outs.push((s, *r.last().unwrap(), col, o));
                    }
                }
            }
            let data = b.build::<C>();
            for x in &xs {
                let mut inputs = HashMap::new();
                for (t, v) in t.iter().zip(x) { put(&mut inputs, *t, base(*v)); }
                let vals = match data.prover_only.circuit.evaluate(&inputs, &Default::default()) { Ok(v) => v, Err(e) => { c.violation("the circuit of columns fails", json!({"error": e})); return; } };
                let table: Vec<PolynomialValues<F>> = (0..2).map(|i| PolynomialValues::new(vec![x[2 + i], x[i]])).collect();
                let (lv, nv) = ([x[0], x[1]], [x[2], x[3]]);
                let last = |n: usize| n.saturating_sub(1);
                for (at, (s, co, col, o)) in outs.iter().enumerate() {
                    let want = lin_value(co, x);
                    let fc: ColumnSparse<F> = col.to_field();
                    let got = [
                        col.eval::<F, F, F, 1, [F]>(&lv, &nv),
                        col.eval_row::<F>(&lv, &nv),
                        fc.eval_table(&table, 1),
                        vals.get(o.0[0]),
                    ];
                    let ok = got.iter().all(|g| *g == want) && vals.get(o.0[1]) == F::ZERO;
                    if !c.check(ok, || "a linear combination has another value".into(), || json!({"steps": format!("{s:?}"), "got": format!("{got:?}"), "want": format!("{want:?}")})) { return; }
                    // put together after the change of field, with the one before it
                    let (_, po, pc, _) = &outs[last(at)];
                    let pf: ColumnSparse<F> = pc.to_field();
                    let pw = lin_value(po, x);
                    let k = F::from_canonical_u64(0xffff_fffe_0000_0007);
                    let sums = [
                        ((fc.clone() + pf.clone()), want + pw),
                        ((&fc + &pf), want + pw),
                        ((&fc + pf.clone()), want + pw),
                        ((fc.clone() + &pf), want + pw),
                        ((fc.clone() - pf.clone()), want - pw),
                        (-fc.clone(), -want),
                        (fc.clone() * k, want * k),
                        (&fc * k, want * k),
                        (fc.clone() + k, want + k),
                        (&fc + k, want + k),
                        ([fc.clone(), pf.clone(), fc.clone()].into_iter().sum(), want + pw + want),
                    ];
                    for (i, (f, w)) in sums.iter().enumerate() {
                        if !c.check(f.eval_table(&table, 1) == *w, || "a sum of linear combinations has another value".into(), || json!({"steps": format!("{s:?}"), "form": i})) { return; }
                    }
                    l.add("evaluations", 15);
                }
            }
        });
    }
}
