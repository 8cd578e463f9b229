use core::ops::{Add, AddAssign, Mul, Sub};

use serde::{Deserialize, Serialize};

use super::extension::{Extendable, FieldExtension};
use super::fft::{fft_in_place, ifft_in_place};
use super::types::Field;
use crate::util::log2_strict;

/// A prover that is not bothered by remainders: it leaves them out.
pub static CHEAT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
type Doctor = Box<dyn FnMut(&mut Vec<Vec<u64>>)>;
thread_local! {
    /// Changes the values that a prover is about to commit to.
    pub static DOCTOR: std::cell::RefCell<Option<Doctor>> = const { std::cell::RefCell::new(None) };
}
pub(crate) fn doctored<F: crate::field::types::PrimeField64>(v: Vec<PolynomialValues<F>>) -> Vec<PolynomialValues<F>> {
    DOCTOR.with(|d| match &mut *d.borrow_mut() {
        None => v,
        Some(f) => {
            let mut x = v.iter().map(|p| p.values.iter().map(|x| x.to_canonical_u64()).collect()).collect();
            f(&mut x);
            x.into_iter().map(|p| PolynomialValues::new(p.into_iter().map(F::from_canonical_u64).collect())).collect()
        }
    })
}

#[derive(Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct PolynomialValues<F: Field> { pub values: Vec<F> }

impl<F: Field> PolynomialValues<F> {
    pub fn new(values: Vec<F>) -> Self { assert!(values.len().is_power_of_two()); Self { values } }
    pub fn constant(value: F, len: usize) -> Self { Self::new(vec![value; len]) }
    pub fn zero(len: usize) -> Self { Self::constant(F::ZERO, len) }
    pub fn len(&self) -> usize { self.values.len() }
    /// 1 at `index`, 0 elsewhere.
    pub fn selector(len: usize, index: usize) -> Self {
        let mut r = Self::zero(len);
        r.values[index] = F::ONE;
        r
    }
    pub fn lde_onto_coset(self, rate_bits: usize) -> Self { self.ifft().lde(rate_bits).coset_fft(F::coset_shift()) }
    pub fn lde(self, rate_bits: usize) -> Self { self.ifft().lde(rate_bits).fft() }
    pub fn is_zero(&self) -> bool { self.values.iter().all(|x| x.is_zero()) }
    pub fn ifft(self) -> PolynomialCoeffs<F> {
        let mut v = self.values;
        ifft_in_place(&mut v);
        PolynomialCoeffs { coeffs: v }
    }
    pub fn coset_ifft(self, shift: F) -> PolynomialCoeffs<F> {
        let mut c = self.ifft();
        let inv = shift.inverse();
        for (x, p) in c.coeffs.iter_mut().zip(inv.powers()) { *x *= p; }
        c
    }
    pub fn degree(&self) -> usize { self.clone().ifft().degree_plus_one().saturating_sub(1) }
    pub fn to_extension<const D: usize>(&self) -> PolynomialValues<F::Extension> where F: Extendable<D> {
        PolynomialValues { values: self.values.iter().map(|x| F::Extension::from_basefield(*x)).collect() }
    }
}
impl<F: Field> From<Vec<F>> for PolynomialValues<F> { fn from(v: Vec<F>) -> Self { Self::new(v) } }

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct PolynomialCoeffs<F: Field> { pub coeffs: Vec<F> }

impl<F: Field> PolynomialCoeffs<F> {
    pub fn new(coeffs: Vec<F>) -> Self { Self { coeffs } }
    pub fn empty() -> Self { Self { coeffs: vec![] } }
    pub fn zero(len: usize) -> Self { Self { coeffs: vec![F::ZERO; len] } }
    pub fn len(&self) -> usize { self.coeffs.len() }
    pub fn is_zero(&self) -> bool { self.coeffs.iter().all(|x| x.is_zero()) }
    pub fn degree_plus_one(&self) -> usize {
        self.coeffs.iter().rposition(|c| c.is_nonzero()).map_or(0, |i| i + 1)
    }
    pub fn eval(&self, x: F) -> F { self.coeffs.iter().rev().fold(F::ZERO, |a, &c| a * x + c) }
    pub fn to_extension<const D: usize>(&self) -> PolynomialCoeffs<F::Extension> where F: Extendable<D> {
        PolynomialCoeffs { coeffs: self.coeffs.iter().map(|x| F::Extension::from_basefield(*x)).collect() }
    }
    pub fn pad(&mut self, n: usize) -> anyhow::Result<()> {
        anyhow::ensure!(n >= self.len());
        self.coeffs.resize(n, F::ZERO);
        Ok(())
    }
    pub fn trim_to_len(&mut self, len: usize) -> anyhow::Result<()> {
        anyhow::ensure!(self.len() >= len);
        anyhow::ensure!(CHEAT.load(std::sync::atomic::Ordering::Relaxed) || self.coeffs[len..].iter().all(F::is_zero), "polynomial degree too high");
        self.coeffs.truncate(len);
        Ok(())
    }
    pub fn lde(&self, rate_bits: usize) -> Self {
        let mut c = self.coeffs.clone();
        c.resize(self.len() << rate_bits, F::ZERO);
        Self { coeffs: c }
    }
    pub fn chunks(&self, n: usize) -> Vec<Self> {
        self.coeffs.chunks(n).map(|c| Self { coeffs: c.to_vec() }).collect()
    }
    pub fn fft(self) -> PolynomialValues<F> {
        let mut v = self.coeffs;
        fft_in_place(&mut v);
        PolynomialValues { values: v }
    }
    pub fn coset_fft(&self, shift: F) -> PolynomialValues<F> {
        let mut v: Vec<F> = self.coeffs.iter().zip(shift.powers()).map(|(c, p)| *c * p).collect();
        fft_in_place(&mut v);
        let _ = log2_strict(v.len());
        PolynomialValues { values: v }
    }
    pub fn trim(&mut self) { let d = self.degree_plus_one(); self.coeffs.truncate(d); }
}
impl<F: Field> PartialEq for PolynomialCoeffs<F> {
    fn eq(&self, o: &Self) -> bool {
        let n = self.len().max(o.len());
        (0..n).all(|i| self.coeffs.get(i).copied().unwrap_or(F::ZERO) == o.coeffs.get(i).copied().unwrap_or(F::ZERO))
    }
}
impl<F: Field> Eq for PolynomialCoeffs<F> {}
impl<F: Field> From<Vec<F>> for PolynomialCoeffs<F> { fn from(v: Vec<F>) -> Self { Self::new(v) } }
impl<F: Field> Add for &PolynomialCoeffs<F> {
    type Output = PolynomialCoeffs<F>;
    fn add(self, o: Self) -> Self::Output {
        let n = self.len().max(o.len());
        PolynomialCoeffs { coeffs: (0..n).map(|i| self.coeffs.get(i).copied().unwrap_or(F::ZERO) + o.coeffs.get(i).copied().unwrap_or(F::ZERO)).collect() }
    }
}
impl<F: Field> Sub for &PolynomialCoeffs<F> {
    type Output = PolynomialCoeffs<F>;
    fn sub(self, o: Self) -> Self::Output {
        let n = self.len().max(o.len());
        PolynomialCoeffs { coeffs: (0..n).map(|i| self.coeffs.get(i).copied().unwrap_or(F::ZERO) - o.coeffs.get(i).copied().unwrap_or(F::ZERO)).collect() }
    }
}
impl<F: Field> AddAssign for PolynomialCoeffs<F> { fn add_assign(&mut self, o: Self) { *self = &*self + &o; } }
impl<F: Field> Mul<F> for &PolynomialCoeffs<F> {
    type Output = PolynomialCoeffs<F>;
    fn mul(self, r: F) -> Self::Output { PolynomialCoeffs { coeffs: self.coeffs.iter().map(|c| *c * r).collect() } }
}
