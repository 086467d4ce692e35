//! Component types used by the exploration. A..D are Copy (groups need that), E owns heap memory and counts its instances.
use std::cell::Cell;

thread_local! { pub static LIVE_E: Cell<isize> = const { Cell::new(0) }; }

#[derive(Clone, Copy)] pub struct A(pub u64);
#[derive(Clone, Copy)] pub struct B(pub [u32; 5]);
#[derive(Clone, Copy)] pub struct C(pub u8);
#[derive(Clone, Copy)] pub struct D;
pub struct E(pub String);
impl E { fn new(v: u64) -> E { LIVE_E.with(|c| c.set(c.get() + 1)); E(v.to_string()) } }
impl Drop for E { fn drop(&mut self) { LIVE_E.with(|c| c.set(c.get() - 1)); } }

pub trait Val: Send + Sync + 'static {
    const T: usize;
    fn mk(v: u64) -> Self;
    fn v(&self) -> u64;
    /// what value `v` becomes when stored in this type
    fn norm(v: u64) -> u64;
}
impl Val for A { const T: usize = 0; fn mk(v: u64) -> Self { A(v) } fn v(&self) -> u64 { self.0 } fn norm(v: u64) -> u64 { v } }
impl Val for B { const T: usize = 1;
    fn mk(v: u64) -> Self { let l = v as u32; B([l, !l, l ^ 7, l.wrapping_add(3), l]) }
    fn v(&self) -> u64 { let l = self.0[0]; if self.0 == [l, !l, l ^ 7, l.wrapping_add(3), l] { l as u64 } else { u64::MAX } }
    fn norm(v: u64) -> u64 { v as u32 as u64 } }
impl Val for C { const T: usize = 2; fn mk(v: u64) -> Self { C((v % 251) as u8) } fn v(&self) -> u64 { self.0 as u64 } fn norm(v: u64) -> u64 { v % 251 } }
impl Val for D { const T: usize = 3; fn mk(_: u64) -> Self { D } fn v(&self) -> u64 { 0 } fn norm(_: u64) -> u64 { 0 } }
impl Val for E { const T: usize = 4; fn mk(v: u64) -> Self { E::new(v) } fn v(&self) -> u64 { self.0.parse().unwrap_or(u64::MAX) } fn norm(v: u64) -> u64 { v } }

/// more types, registered only in some histories: a world is not limited to a handful
#[derive(Clone, Copy)] pub struct X<const N: usize>(pub u64);
impl<const N: usize> Val for X<N> { const T: usize = N; fn mk(v: u64) -> Self { X(v) } fn v(&self) -> u64 { self.0 } fn norm(v: u64) -> u64 { v } }

pub fn norm(t: usize, v: u64) -> u64 {
    match t { 0 => A::norm(v), 1 => B::norm(v), 2 => C::norm(v), 3 => D::norm(v), 4 => E::norm(v), _ => v }
}

/// Flatten a query item into values, and write through its mutable parts.
pub trait Flat { fn flat(&self, out: &mut Vec<u64>); fn bump(&mut self, d: u64); }
impl<T: Val> Flat for &T { fn flat(&self, o: &mut Vec<u64>) { o.push(T::v(self)) } fn bump(&mut self, _: u64) {} }
impl<T: Val> Flat for &mut T {
    fn flat(&self, o: &mut Vec<u64>) { o.push(T::v(self)) }
    fn bump(&mut self, d: u64) { **self = T::mk(T::v(self) + d) }
}
macro_rules! tup { ($($n:ident $i:tt),*) => {
    impl<$($n: Flat),*> Flat for ($($n,)*) {
        fn flat(&self, o: &mut Vec<u64>) { $(self.$i.flat(o);)* }
        fn bump(&mut self, d: u64) { $(self.$i.bump(d);)* }
    } } }
tup!(X 0, Y 1); tup!(X 0, Y 1, Z 2); tup!(X 0, Y 1, Z 2, W 3); tup!(X 0, Y 1, Z 2, W 3, V 4);

#[macro_export]
macro_rules! with_t { ($t:expr, $T:ident, $body:expr) => { match $t {
    0 => { type $T = $crate::types::A; $body } 1 => { type $T = $crate::types::B; $body }
    2 => { type $T = $crate::types::C; $body } 3 => { type $T = $crate::types::D; $body }
    4 => { type $T = $crate::types::E; $body } 5 => { type $T = $crate::types::X<5>; $body }
    6 => { type $T = $crate::types::X<6>; $body } 7 => { type $T = $crate::types::X<7>; $body }
    8 => { type $T = $crate::types::X<8>; $body } _ => { type $T = $crate::types::X<9>; $body } } } }
#[macro_export]
macro_rules! with_copy_t { ($t:expr, $T:ident, $body:expr) => { match $t {
    0 => { type $T = $crate::types::A; $body } 1 => { type $T = $crate::types::B; $body }
    2 => { type $T = $crate::types::C; $body } _ => { type $T = $crate::types::D; $body } } } }
