pub mod extension;
pub mod goldilocks_field;
pub mod packable;
pub mod packed;
pub mod sym;
pub mod polynomial;
pub mod types;
pub mod zero_poly_coset;
pub mod cosets;
pub mod fft;
pub mod ops {
    pub trait Square { fn square(&self) -> Self; }
}
