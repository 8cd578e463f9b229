//! A symbolic "packed field" (not part of upstream): arithmetic records a term,
//! so that generic constraint code yields its polynomials.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use std::cell::RefCell;

use super::goldilocks_field::GoldilocksField as G;
use super::packed::PackedField;
use super::types::Field;

#[derive(Clone, Copy, Debug)]
pub enum Node { Const(G), Var(u32), Add(Sym, Sym), Sub(Sym, Sym), Mul(Sym, Sym), Neg(Sym) }
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Sym(pub u32);
impl fmt::Debug for Sym { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "s{}", self.0) } }
thread_local! { static ARENA: RefCell<Vec<Node>> = RefCell::new(vec![Node::Const(G(0)), Node::Const(G(1))]); }
fn push(n: Node) -> Sym { ARENA.with(|a| { let mut a = a.borrow_mut(); a.push(n); Sym(a.len() as u32 - 1) }) }
impl Sym {
    pub fn reset() { ARENA.with(|a| a.borrow_mut().truncate(2)); }
    pub fn var(i: u32) -> Sym { push(Node::Var(i)) }
    pub fn constant(c: G) -> Sym { push(Node::Const(c)) }
    pub fn node(self) -> Node { ARENA.with(|a| a.borrow()[self.0 as usize]) }
}
impl From<G> for Sym { fn from(c: G) -> Sym { Sym::constant(c) } }
macro_rules! bin { ($t:ident, $f:ident, $ta:ident, $fa:ident, $n:ident) => {
    impl $t for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { push(Node::$n(self, o)) } }
    impl $t<G> for Sym { type Output = Sym; fn $f(self, o: G) -> Sym { push(Node::$n(self, Sym::constant(o))) } }
    impl $ta for Sym { fn $fa(&mut self, o: Sym) { *self = push(Node::$n(*self, o)); } }
    impl $ta<G> for Sym { fn $fa(&mut self, o: G) { *self = push(Node::$n(*self, Sym::constant(o))); } }
} }
bin!(Add, add, AddAssign, add_assign, Add);
bin!(Sub, sub, SubAssign, sub_assign, Sub);
bin!(Mul, mul, MulAssign, mul_assign, Mul);
impl Div<G> for Sym { type Output = Sym; fn div(self, o: G) -> Sym { self * o.inverse() } }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { push(Node::Neg(self)) } }
impl Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym(0), |a, b| a + b) } }
impl Product for Sym { fn product<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym(1), |a, b| a * b) } }
impl PackedField for Sym {
    type Scalar = G;
    const WIDTH: usize = 1;
    const ZEROS: Sym = Sym(0);
    const ONES: Sym = Sym(1);
    fn from_slice(_: &[G]) -> &Sym { unimplemented!("symbolic") }
    fn as_slice(&self) -> &[G] { unimplemented!("symbolic") }
    fn as_slice_mut(&mut self) -> &mut [G] { unimplemented!("symbolic") }
}
