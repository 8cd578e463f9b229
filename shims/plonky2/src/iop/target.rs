use serde::{Deserialize, Serialize};

use super::ext_target::ExtensionTarget;

/// A circuit value: index of a wire of the idealised circuit.
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug, Ord, PartialOrd, Serialize, Deserialize)]
pub struct Target(pub usize);
impl Default for Target { fn default() -> Self { Target(usize::MAX) } }
impl Target {
    pub fn to_ext_target<const D: usize>(self, zero: Self) -> ExtensionTarget<D> {
        let mut a = [zero; D];
        a[0] = self;
        ExtensionTarget(a)
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct BoolTarget { pub target: Target, _private: () }
impl BoolTarget { pub fn new_unsafe(target: Target) -> Self { Self { target, _private: () } } }
impl Default for BoolTarget { fn default() -> Self { Self::new_unsafe(Target::default()) } }
