//! The two fields of the circuit files. Under symbolic execution elements are plain little-endian integers; natively
//! the two large ones are the derived Montgomery types.
use ff::PrimeField;
pub const PB: [u8; 32] = hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430");
pub const PG: [u8; 8] = hex!("01000000ffffffff");
pub const PL: [u8; 32] = hex!("01000000fffffffffe5bfeff02a4bd5305d8a10908d83933487d9d2953a7ed73");
/// a < b as little-endian integers
pub fn below(a: &[u8], b: &[u8]) -> bool {
    let mut lt = false;
    let mut i = 0;
    while i < a.len() {
        lt = (a[i] < b[i]) | ((a[i] == b[i]) & lt);
        i += 1;
    }
    lt
}
#[cfg(feature = "native")]
mod real_b {
    use ff::PrimeField;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
    #[PrimeFieldGenerator = "7"]
    #[PrimeFieldReprEndianness = "little"]
    pub struct B([u64; 4]);
}
#[cfg(feature = "native")]
mod real_l {
    use ff::PrimeField;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
    #[PrimeFieldGenerator = "7"]
    #[PrimeFieldReprEndianness = "little"]
    pub struct L([u64; 4]);
}
#[cfg(feature = "native")]
pub use {plain::G, real_b::B, real_l::L};
#[cfg(not(feature = "native"))]
pub use plain::{B, G, L};
mod plain {
    use super::*;
    use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
    use ff::Field;
    use std::iter::{Product, Sum};
    use std::ops::*;
    macro_rules! plain { ($T:ident, $R:ident, $n:expr, $bits:expr, $p:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $T(pub [u8; $n]);
        pub type $R = [u8; $n];
        impl Default for $T { fn default() -> Self { $T([0; $n]) } }
        impl $T {
            fn small(&self) -> u64 {
                for k in 8..$n { if self.0[k] != 0 { unimplemented!() } }
                u64::from_le_bytes(self.0[..8].try_into().unwrap())
            }
            fn minus(a: Self) -> Self {
                if a.0 == [0; $n] { return a; }
                let (mut r, mut bw) = ([0u8; $n], 0i32);
                for i in 0..$n { let d = $p[i] as i32 - a.0[i] as i32 - bw; bw = (d < 0) as i32; r[i] = d as u8; }
                $T(r)
            }
            fn of(v: u128) -> Self {
                let mut r = [0u8; $n];
                if $n == 8 {
                    let p = u64::from_le_bytes($p[..8].try_into().unwrap()) as u128;
                    let v = if v < p { v } else { v % p };
                    r[..8].copy_from_slice(&(v as u64).to_le_bytes());
                } else {
                    r[..16.min($n)].copy_from_slice(&v.to_le_bytes()[..16.min($n)]);
                }
                $T(r)
            }
        }
        impl ConstantTimeEq for $T { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
        impl ConditionallySelectable for $T { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
        impl Neg for $T { type Output = Self; fn neg(self) -> Self { $T::minus(self) } }
        impl Add for $T { type Output = Self; fn add(self, o: Self) -> Self { $T::of(self.small() as u128 + o.small() as u128) } }
        impl Sub for $T { type Output = Self; fn sub(self, _: Self) -> Self { unimplemented!() } }
        impl Mul for $T { type Output = Self; fn mul(self, o: Self) -> Self { $T::of(self.small() as u128 * o.small() as u128) } }
        impl<'a> Add<&'a $T> for $T { type Output = Self; fn add(self, o: &Self) -> Self { self + *o } }
        impl<'a> Sub<&'a $T> for $T { type Output = Self; fn sub(self, o: &Self) -> Self { self - *o } }
        impl<'a> Mul<&'a $T> for $T { type Output = Self; fn mul(self, o: &Self) -> Self { self * *o } }
        impl AddAssign for $T { fn add_assign(&mut self, o: Self) { *self = *self + o } }
        impl SubAssign for $T { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
        impl MulAssign for $T { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
        impl<'a> AddAssign<&'a $T> for $T { fn add_assign(&mut self, o: &Self) { *self = *self + *o } }
        impl<'a> SubAssign<&'a $T> for $T { fn sub_assign(&mut self, o: &Self) { *self = *self - *o } }
        impl<'a> MulAssign<&'a $T> for $T { fn mul_assign(&mut self, o: &Self) { *self = *self * *o } }
        impl Sum for $T { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
        impl Product for $T { fn product<I: Iterator<Item = Self>>(_: I) -> Self { unimplemented!() } }
        impl<'a> Sum<&'a $T> for $T { fn sum<I: Iterator<Item = &'a Self>>(_: I) -> Self { unimplemented!() } }
        impl<'a> Product<&'a $T> for $T { fn product<I: Iterator<Item = &'a Self>>(_: I) -> Self { unimplemented!() } }
        impl From<u64> for $T { fn from(v: u64) -> Self { $T::of(v as u128) } }
        impl Field for $T {
            const ZERO: Self = $T([0; $n]);
            const ONE: Self = { let mut r = [0u8; $n]; r[0] = 1; $T(r) };
            fn random(_: impl rand::RngCore) -> Self { unimplemented!() }
            fn square(&self) -> Self { *self * *self }
            fn double(&self) -> Self { *self + *self }
            fn invert(&self) -> CtOption<Self> { unimplemented!() }
            fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) { unimplemented!() }
        }
        impl PrimeField for $T {
            type Repr = $R;
            fn from_repr(r: $R) -> CtOption<Self> { let ok = below(&r, &$p); CtOption::new($T(r), Choice::from(ok as u8)) }
            fn to_repr(&self) -> $R { self.0 }
            fn is_odd(&self) -> Choice { Choice::from(self.0[0] & 1) }
            const MODULUS: &'static str = "";
            const NUM_BITS: u32 = $bits;
            const CAPACITY: u32 = $bits - 1;
            const TWO_INV: Self = $T([0; $n]);
            const MULTIPLICATIVE_GENERATOR: Self = $T([0; $n]);
            const S: u32 = 28;
            const ROOT_OF_UNITY: Self = $T([0; $n]);
            const ROOT_OF_UNITY_INV: Self = $T([0; $n]);
            const DELTA: Self = $T([0; $n]);
        }
    } }
    plain!(B, RB, 32, 254, PB);
    plain!(L, RL, 32, 255, PL);
    plain!(G, RG, 8, 64, PG);
}
/// the little-endian integer of an element
pub fn raw<E: PrimeField>(e: &E) -> Vec<u8> {
    e.to_repr().as_ref().to_vec()
}
