use super::types::Field;
/// Z_H(x) = x^n - 1 on a coset g*<w> of order n * 2^rate_bits.
#[derive(Clone, Debug)]
pub struct ZeroPolyOnCoset<F: Field> { n: F, rate: usize, evals: Vec<F>, inverses: Vec<F> }
impl<F: Field> ZeroPolyOnCoset<F> {
    pub fn new(n_log: usize, rate_bits: usize) -> Self {
        let g_pow_n = F::coset_shift().exp_power_of_2(n_log);
        let evals: Vec<F> = F::two_adic_subgroup(rate_bits).into_iter().map(|x| g_pow_n * x - F::ONE).collect();
        let inverses = F::batch_multiplicative_inverse(&evals);
        Self { n: F::from_canonical_usize(1 << n_log), rate: 1 << rate_bits, evals, inverses }
    }
    pub fn eval(&self, i: usize) -> F { self.evals[i % self.rate] }
    pub fn eval_inverse(&self, i: usize) -> F { self.inverses[i % self.rate] }
    pub fn eval_inverse_packed<P: super::packed::PackedField<Scalar = F>>(&self, i_start: usize) -> P {
        assert_eq!(P::WIDTH, 1);
        P::from(self.eval_inverse(i_start))
    }
    pub fn eval_l_0(&self, i: usize, x: F) -> F { self.eval(i) * (self.n * (x - F::ONE)).inverse() }
}
