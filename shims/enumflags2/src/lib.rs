//! Stand-in: just enough of enumflags2.
use core::marker::PhantomData;
use core::ops::{BitAnd, BitOr, BitOrAssign, BitXor, Not};
pub use enumflags2_derive::bitflags;

pub trait BitFlag: Copy + 'static {
    type Numeric: Copy;
    const ALL_BITS: u64;
    const VARIANTS: &'static [Self];
    fn bit(self) -> u64;
    fn num(b: u64) -> Self::Numeric;
    fn of(b: Self::Numeric) -> u64;
    fn empty() -> BitFlags<Self> { BitFlags::EMPTY }
    fn all() -> BitFlags<Self> { BitFlags::ALL }
}
pub struct BitFlags<T>(u64, PhantomData<T>);
impl<T> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for BitFlags<T> {}
impl<T> Default for BitFlags<T> { fn default() -> Self { Self(0, PhantomData) } }
impl<T> core::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "BitFlags({:#b})", self.0) } }
#[derive(Debug, Clone, Copy)]
pub struct FromBitsError;
impl core::fmt::Display for FromBitsError { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "invalid bits") } }
impl std::error::Error for FromBitsError {}
impl<T: BitFlag> BitFlags<T> {
    pub const ALL: Self = Self(T::ALL_BITS, PhantomData);
    pub const EMPTY: Self = Self(0, PhantomData);
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn len(self) -> usize { self.0.count_ones() as usize }
    pub fn is_empty(self) -> bool { self.0 == 0 }
    pub fn is_all(self) -> bool { self == Self::ALL }
    pub fn bits(self) -> T::Numeric { T::num(self.0) }
    pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError> { let b = T::of(b); if b & !T::ALL_BITS != 0 { Err(FromBitsError) } else { Ok(Self(b, PhantomData)) } }
    pub fn from_bits_truncate(b: T::Numeric) -> Self { Self(T::of(b) & T::ALL_BITS, PhantomData) }
    pub fn contains(self, o: impl Into<Self>) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn intersects(self, o: impl Into<Self>) -> bool { self.0 & o.into().0 != 0 }
    pub fn insert(&mut self, o: impl Into<Self>) { self.0 |= o.into().0 }
    pub fn remove(&mut self, o: impl Into<Self>) { self.0 &= !o.into().0 }
    pub fn toggle(&mut self, o: impl Into<Self>) { self.0 ^= o.into().0 }
    pub fn set(&mut self, o: impl Into<Self>, v: bool) { if v { self.insert(o) } else { self.remove(o) } }
    pub fn iter(self) -> impl Iterator<Item = T> { T::VARIANTS.iter().copied().filter(move |v| self.0 & v.bit() != 0) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { Self(t.bit(), PhantomData) } }
impl<T: BitFlag, O: Into<Self>> BitOr<O> for BitFlags<T> { type Output = Self; fn bitor(self, o: O) -> Self { Self(self.0 | o.into().0, PhantomData) } }
impl<T: BitFlag, O: Into<Self>> BitAnd<O> for BitFlags<T> { type Output = Self; fn bitand(self, o: O) -> Self { Self(self.0 & o.into().0, PhantomData) } }
impl<T: BitFlag, O: Into<Self>> BitXor<O> for BitFlags<T> { type Output = Self; fn bitxor(self, o: O) -> Self { Self(self.0 ^ o.into().0, PhantomData) } }
impl<T: BitFlag, O: Into<Self>> BitOrAssign<O> for BitFlags<T> { fn bitor_assign(&mut self, o: O) { self.0 |= o.into().0 } }
impl<T: BitFlag> Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self(!self.0 & T::ALL_BITS, PhantomData) } }
impl<T: BitFlag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { i.into_iter().fold(Self::EMPTY, |a, b| a | b) } }
