//! Argument and result tuples of the generic test interface as bit patterns.
use crate::lib_table::{Out, Ty};

pub trait Prim: Copy {
    const TY: Ty;
    fn get(self) -> u128;
    fn of(b: u128) -> Self;
}
macro_rules! prim { ($($t:ty, $k:ident, $i:ty);*) => { $(impl Prim for $t {
    const TY: Ty = Ty::$k;
    fn get(self) -> u128 { self.to_bits() as u128 }
    fn of(b: u128) -> Self { <$t>::from_bits(b as $i) }
})* } }
prim!(f16, F16, u16; f32, F32, u32; f64, F64, u64; f128, F128, u128);
impl Prim for i32 {
    const TY: Ty = Ty::I32;
    fn get(self) -> u128 { self as u32 as u128 }
    fn of(b: u128) -> Self { b as u32 as i32 }
}

pub trait Tup: Copy + std::fmt::Debug + 'static {
    const N: usize;
    fn of(a: &[u128; 3]) -> Self;
    fn bits(&self) -> [u128; 3];
    fn tys() -> Vec<Ty>;
}
impl<A: Prim + std::fmt::Debug + 'static> Tup for (A,) {
    const N: usize = 1;
    fn of(a: &[u128; 3]) -> Self { (A::of(a[0]),) }
    fn bits(&self) -> [u128; 3] { [self.0.get(), 0, 0] }
    fn tys() -> Vec<Ty> { vec![A::TY] }
}
impl<A: Prim + std::fmt::Debug + 'static, B: Prim + std::fmt::Debug + 'static> Tup for (A, B) {
    const N: usize = 2;
    fn of(a: &[u128; 3]) -> Self { (A::of(a[0]), B::of(a[1])) }
    fn bits(&self) -> [u128; 3] { [self.0.get(), self.1.get(), 0] }
    fn tys() -> Vec<Ty> { vec![A::TY, B::TY] }
}
impl<A: Prim + std::fmt::Debug + 'static, B: Prim + std::fmt::Debug + 'static, C: Prim + std::fmt::Debug + 'static> Tup for (A, B, C) {
    const N: usize = 3;
    fn of(a: &[u128; 3]) -> Self { (A::of(a[0]), B::of(a[1]), C::of(a[2])) }
    fn bits(&self) -> [u128; 3] { [self.0.get(), self.1.get(), self.2.get()] }
    fn tys() -> Vec<Ty> { vec![A::TY, B::TY, C::TY] }
}

pub trait Ret: Copy {
    fn of(o: &Out) -> Self;
    fn out(self) -> Out;
    fn tys() -> Vec<Ty>;
}
macro_rules! ret { ($($t:ty),*) => { $(impl Ret for $t {
    fn of(o: &Out) -> Self { <$t as Prim>::of(o.0) }
    fn out(self) -> Out { Out(self.get(), 0) }
    fn tys() -> Vec<Ty> { vec![<$t as Prim>::TY] }
})* } }
ret!(f16, f32, f64, f128, i32);
impl<A: Prim, B: Prim> Ret for (A, B) {
    fn of(o: &Out) -> Self { (A::of(o.0), B::of(o.1)) }
    fn out(self) -> Out { Out(self.0.get(), self.1.get()) }
    fn tys() -> Vec<Ty> { vec![A::TY, B::TY] }
}
