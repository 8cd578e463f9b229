//! Sequential stand-in for plonky2_maybe_rayon.
#![allow(clippy::all)]
pub trait MaybeIntoParIter { type It: Iterator<Item = Self::T>; type T; fn into_par_iter(self) -> Self::It; }
impl<I: IntoIterator> MaybeIntoParIter for I { type It = I::IntoIter; type T = I::Item; fn into_par_iter(self) -> I::IntoIter { self.into_iter() } }
pub trait MaybeParIter { type T; fn par_iter(&self) -> core::slice::Iter<'_, Self::T>; }
impl<T> MaybeParIter for [T] { type T = T; fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() } }
impl<T> MaybeParIter for Vec<T> { type T = T; fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() } }
impl<T, const N: usize> MaybeParIter for [T; N] { type T = T; fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() } }
pub trait ParallelIteratorMock: Iterator + Sized {
    fn flat_map_iter<U: IntoIterator, F: FnMut(Self::Item) -> U>(self, f: F) -> core::iter::FlatMap<Self, U, F> { self.flat_map(f) }
    fn find_any<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> { self.find(p) }
}
impl<I: Iterator> ParallelIteratorMock for I {}
pub use ParallelIteratorMock as ParallelIterator;
