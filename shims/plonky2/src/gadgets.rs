pub mod polynomial {
    use crate::iop::ext_target::ExtensionTarget;
    #[derive(Clone, Debug, Eq, PartialEq)]
    pub struct PolynomialCoeffsExtTarget<const D: usize>(pub Vec<ExtensionTarget<D>>);
    impl<const D: usize> PolynomialCoeffsExtTarget<D> { pub fn len(&self) -> usize { self.0.len() } }
}
