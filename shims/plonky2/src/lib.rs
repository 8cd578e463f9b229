//! Stand-in for the plonky2 fork that 0xmozak/mozak-vm depends on and that is
//! unreachable offline. The arithmetic (Goldilocks, its quadratic extension,
//! polynomials, Poseidon2 structure, challenger) is real; the polynomial
//! commitment scheme and the recursive SNARK are *idealised*: see `fri` and
//! `plonk::circuit_builder`.
#![allow(clippy::all)]
pub mod batch_fri;
pub mod field;
pub mod fri;
pub mod gadgets;
pub mod gates;
pub mod hash;
pub mod iop;
pub mod plonk;
pub mod util;

#[macro_export]
macro_rules! timed {
    ($timing:expr, $ctx:expr, $exp:expr) => {{
        let _ = &$timing;
        $exp
    }};
    ($timing:expr, $exp:expr) => {{
        let _ = &$timing;
        $exp
    }};
}

#[macro_export]
macro_rules! with_context {
    ($builder:expr, $ctx:expr, $exp:expr) => {{
        $exp
    }};
    ($builder:expr, $level:expr, $ctx:expr, $exp:expr) => {{
        $exp
    }};
}
