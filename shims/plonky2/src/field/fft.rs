use super::types::Field;
/// In-place iterative radix-2 FFT.
pub fn fft_in_place<F: Field>(a: &mut [F]) {
    let n = a.len();
    assert!(n.is_power_of_two());
    let lg = n.trailing_zeros() as usize;
    for i in 0..n {
        let j = if lg == 0 { 0 } else { i.reverse_bits() >> (usize::BITS as usize - lg) };
        if j > i { a.swap(i, j); }
    }
    for s in 1..=lg {
        let m = 1 << s;
        let w_m = F::primitive_root_of_unity(s);
        let tw: Vec<F> = w_m.powers().take(m / 2).collect();
        for k in (0..n).step_by(m) {
            for j in 0..m / 2 {
                let t = tw[j] * a[k + j + m / 2];
                let u = a[k + j];
                a[k + j] = u + t;
                a[k + j + m / 2] = u - t;
            }
        }
    }
}
pub fn ifft_in_place<F: Field>(a: &mut [F]) {
    let n = a.len();
    fft_in_place(a);
    let inv = F::from_canonical_usize(n).inverse();
    a[1..].reverse();
    for x in a.iter_mut() { *x *= inv; }
}
