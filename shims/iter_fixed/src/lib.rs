//! Stand-in: just enough of iter_fixed.
pub struct IteratorFixed<I, const N: usize>(I);
pub trait IntoIteratorFixed<const N: usize> {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N>;
}
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] {
    type Item = T;
    type IntoIter = core::array::IntoIter<T, N>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N> { IteratorFixed(self.into_iter()) }
}
impl<'a, T, const N: usize> IntoIteratorFixed<N> for &'a [T; N] {
    type Item = &'a T;
    type IntoIter = core::slice::Iter<'a, T>;
    fn into_iter_fixed(self) -> IteratorFixed<Self::IntoIter, N> { IteratorFixed(self.iter()) }
}
impl<I: Iterator, const N: usize> IntoIteratorFixed<N> for IteratorFixed<I, N> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter_fixed(self) -> Self { self }
}
pub trait FromIteratorFixed<T, const N: usize> { fn from_fixed(i: impl Iterator<Item = T>) -> Self; }
impl<T, const N: usize> FromIteratorFixed<T, N> for [T; N] {
    fn from_fixed(mut i: impl Iterator<Item = T>) -> Self { let a = core::array::from_fn(|_| i.next().unwrap()); assert!(i.next().is_none()); a }
}
impl<I: Iterator, const N: usize> IteratorFixed<I, N> {
    pub fn map<U>(self, f: impl FnMut(I::Item) -> U) -> IteratorFixed<impl Iterator<Item = U>, N> { IteratorFixed(self.0.map(f)) }
    pub fn zip<J: IntoIteratorFixed<N>>(self, o: J) -> IteratorFixed<impl Iterator<Item = (I::Item, J::Item)>, N> { IteratorFixed(self.0.zip(o.into_iter_fixed().0)) }
    pub fn enumerate(self) -> IteratorFixed<impl Iterator<Item = (usize, I::Item)>, N> { IteratorFixed(self.0.enumerate()) }
    pub fn collect<U: FromIteratorFixed<I::Item, N>>(self) -> U { U::from_fixed(self.0) }
    pub fn into_iter(self) -> I { self.0 }
}
impl<I: Iterator, const N: usize> IntoIterator for IteratorFixed<I, N> { type Item = I::Item; type IntoIter = I; fn into_iter(self) -> I { self.0 } }
