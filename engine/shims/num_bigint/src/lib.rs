//! Unsigned big integers some of whose 64-bit words may be symbolic words of the lifted field.
//! Word-aligned shifts and masks, single bits and reduction modulo the base field's prime are modelled;
//! everything else on a symbolic word ends the path as an engine limit. Concrete values: the real crate.
use fields::field_gl as G;
use num_traits::{Num, One, ToPrimitive, Zero};
use realbig::BigUint as R;
pub use realbig::{BigInt, ParseBigIntError, Sign};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use symcore::coef::{Coef, Gl, GLP};
use symcore::ctx::{self, ctx, gl};

#[derive(Clone, Default)]
pub struct BigUint {
    w: Vec<u64>,
    /// a bit offset into w (less than 64) not yet applied
    sh: usize,
}

fn norm(mut w: Vec<u64>) -> BigUint {
    while w.last() == Some(&0) {
        w.pop();
    }
    BigUint { w, sh: 0 }
}
impl BigUint {
    fn sym(&self) -> bool {
        self.w.iter().any(|x| G::handle(*x))
    }
    fn real(&self) -> R {
        if self.sym() {
            ctx::escape("big-integer operation on a symbolic word")
        }
        let d: Vec<u32> = self.w.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect();
        R::new(d) >> self.sh
    }
    fn of(r: R) -> BigUint {
        norm(r.to_u64_digits())
    }
    pub fn from_bytes_be(b: &[u8]) -> BigUint {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_bytes_le(&v)
    }
    pub fn from_bytes_le(b: &[u8]) -> BigUint {
        norm(
            b.chunks(8)
                .map(|c| {
                    let mut a = [0u8; 8];
                    a[..c.len()].copy_from_slice(c);
                    u64::from_le_bytes(a)
                })
                .collect(),
        )
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        if !self.sym() || self.sh != 0 {
            return self.real().to_bytes_le();
        }
        self.w.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        if !self.sym() || self.sh != 0 {
            return self.real().to_u64_digits();
        }
        self.w.clone()
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigUint> {
        R::parse_bytes(b, radix).map(Self::of)
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        self.real().to_str_radix(radix)
    }
    pub fn bits(&self) -> u64 {
        self.real().bits()
    }
    pub fn pow(&self, e: u32) -> BigUint {
        Self::of(self.real().pow(e))
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        Self::of(self.real().modpow(&e.real(), &m.real()))
    }
    pub fn bit(&self, i: u64) -> bool {
        ((self >> i as usize) & BigUint::one()) == BigUint::one()
    }
    fn small(&self) -> Option<u64> {
        if self.sym() || self.sh != 0 {
            return None;
        }
        self.real().to_u64()
    }
    fn shr_(&self, n: usize) -> BigUint {
        if !self.sym() {
            return Self::of(self.real() >> n);
        }
        let n = n + self.sh;
        let k = (n / 64).min(self.w.len());
        let mut r = norm(self.w[k..].to_vec());
        r.sh = n % 64;
        if !r.sym() {
            let x = r.real();
            return Self::of(x);
        }
        r
    }
    fn and_(&self, o: &BigUint) -> BigUint {
        if !self.sym() && !o.sym() {
            return Self::of(self.real() & o.real());
        }
        if !self.sym() {
            return o.and_(self);
        }
        // one bit
        if o.small() == Some(1) {
            let w = self.w[0];
            if !G::handle(w) {
                return BigUint::from((w >> self.sh) & 1);
            }
            let l = G::lin_of_int(w);
            let mut c = ctx();
            let ev = c.gl.st.ev(l);
            let b = c.gl.st.fun(&format!("bit:{l}:{}", self.sh), [Gl((ev[0].0 >> self.sh) & 1), Gl((ev[1].0 >> self.sh) & 1)]);
            drop(c);
            return norm(vec![G::int_word(b)]);
        }
        if self.sh == 0 && !o.sym() && o.sh == 0 && o.w.iter().all(|x| *x == 0 || *x == u64::MAX) {
            return norm(self.w.iter().zip(&o.w).map(|(a, m)| if *m == 0 { 0 } else { *a }).collect());
        }
        ctx::escape("mask of a symbolic big integer")
    }
    fn rem_(&self, o: &BigUint) -> BigUint {
        if self.sym() {
            if self.w.len() == 1 && self.sh == 0 && o.small() == Some(GLP) {
                return self.clone();
            }
            ctx::escape("remainder of a symbolic big integer")
        }
        Self::of(self.real() % o.real())
    }
    fn or_(&self, o: &BigUint) -> BigUint {
        if self.sym() || o.sym() {
            if self.sh != 0 || o.sh != 0 {
                ctx::escape("or of symbolic big integers")
            }
            let n = self.w.len().max(o.w.len());
            let g = |v: &BigUint, i: usize| v.w.get(i).copied().unwrap_or(0);
            return norm(
                (0..n)
                    .map(|i| match (g(self, i), g(o, i)) {
                        (a, 0) | (0, a) => a,
                        (a, b) if !G::handle(a) && !G::handle(b) => a | b,
                        _ => ctx::escape("or of symbolic words"),
                    })
                    .collect(),
            );
        }
        Self::of(self.real() | o.real())
    }
    fn shl_(&self, n: usize) -> BigUint {
        if self.sym() {
            if self.sh != 0 || n % 64 != 0 {
                ctx::escape("shift of a symbolic big integer")
            }
            let mut w = vec![0; n / 64];
            w.extend(&self.w);
            return norm(w);
        }
        Self::of(self.real() << n)
    }
    fn add_(&self, o: &BigUint) -> BigUint {
        if self.sym() || o.sym() {
            // disjoint words only
            return self.or_(o);
        }
        Self::of(self.real() + o.real())
    }
    fn sub_(&self, o: &BigUint) -> BigUint {
        Self::of(self.real() - o.real())
    }
    fn mul_(&self, o: &BigUint) -> BigUint {
        Self::of(self.real() * o.real())
    }
    fn div_(&self, o: &BigUint) -> BigUint {
        Self::of(self.real() / o.real())
    }
    fn xor_(&self, o: &BigUint) -> BigUint {
        Self::of(self.real() ^ o.real())
    }
}
macro_rules! bin {
    ($T:ident, $f:ident, $A:ident, $fa:ident, $g:ident) => {
        impl $T<BigUint> for BigUint {
            type Output = BigUint;
            fn $f(self, o: BigUint) -> BigUint {
                self.$g(&o)
            }
        }
        impl $T<&BigUint> for BigUint {
            type Output = BigUint;
            fn $f(self, o: &BigUint) -> BigUint {
                self.$g(o)
            }
        }
        impl $T<BigUint> for &BigUint {
            type Output = BigUint;
            fn $f(self, o: BigUint) -> BigUint {
                self.$g(&o)
            }
        }
        impl $T<&BigUint> for &BigUint {
            type Output = BigUint;
            fn $f(self, o: &BigUint) -> BigUint {
                self.$g(o)
            }
        }
        impl $A<BigUint> for BigUint {
            fn $fa(&mut self, o: BigUint) {
                *self = self.$g(&o)
            }
        }
        impl $A<&BigUint> for BigUint {
            fn $fa(&mut self, o: &BigUint) {
                *self = self.$g(o)
            }
        }
        bin!(@int $T, $f, $A, $fa, $g, u8 u16 u32 u64 usize u128);
    };
    (@int $T:ident, $f:ident, $A:ident, $fa:ident, $g:ident, $($I:ty)*) => {$(
        impl $T<$I> for BigUint {
            type Output = BigUint;
            fn $f(self, o: $I) -> BigUint {
                self.$g(&BigUint::from(o))
            }
        }
        impl $T<$I> for &BigUint {
            type Output = BigUint;
            fn $f(self, o: $I) -> BigUint {
                self.$g(&BigUint::from(o))
            }
        }
        impl $A<$I> for BigUint {
            fn $fa(&mut self, o: $I) {
                *self = self.$g(&BigUint::from(o))
            }
        }
    )*};
}
bin!(BitAnd, bitand, BitAndAssign, bitand_assign, and_);
bin!(BitOr, bitor, BitOrAssign, bitor_assign, or_);
bin!(BitXor, bitxor, BitXorAssign, bitxor_assign, xor_);
bin!(Add, add, AddAssign, add_assign, add_);
bin!(Sub, sub, SubAssign, sub_assign, sub_);
bin!(Mul, mul, MulAssign, mul_assign, mul_);
bin!(Div, div, DivAssign, div_assign, div_);
bin!(Rem, rem, RemAssign, rem_assign, rem_);
macro_rules! shifts {
    ($($I:ty)*) => {$(
        impl Shr<$I> for BigUint {
            type Output = BigUint;
            fn shr(self, n: $I) -> BigUint { self.shr_(n as usize) }
        }
        impl Shr<$I> for &BigUint {
            type Output = BigUint;
            fn shr(self, n: $I) -> BigUint { self.shr_(n as usize) }
        }
        impl ShrAssign<$I> for BigUint {
            fn shr_assign(&mut self, n: $I) { *self = self.shr_(n as usize) }
        }
        impl Shl<$I> for BigUint {
            type Output = BigUint;
            fn shl(self, n: $I) -> BigUint { self.shl_(n as usize) }
        }
        impl Shl<$I> for &BigUint {
            type Output = BigUint;
            fn shl(self, n: $I) -> BigUint { self.shl_(n as usize) }
        }
        impl ShlAssign<$I> for BigUint {
            fn shl_assign(&mut self, n: $I) { *self = self.shl_(n as usize) }
        }
    )*};
}
shifts!(u8 u16 u32 u64 usize i32);
macro_rules! from {
    ($($I:ty)*) => {$(
        impl From<$I> for BigUint {
            fn from(v: $I) -> BigUint { norm(vec![v as u64]) }
        }
    )*};
}
from!(u8 u16 u32 u64 usize);
impl From<u128> for BigUint {
    fn from(v: u128) -> BigUint {
        norm(vec![v as u64, (v >> 64) as u64])
    }
}
impl From<bool> for BigUint {
    fn from(v: bool) -> BigUint {
        norm(vec![v as u64])
    }
}
impl PartialEq for BigUint {
    fn eq(&self, o: &BigUint) -> bool {
        if !self.sym() && !o.sym() {
            return self.real() == o.real();
        }
        if self.sh != 0 || o.sh != 0 || self.w.len().max(o.w.len()) != 1 {
            ctx::escape("comparison of symbolic big integers")
        }
        let g = |v: &BigUint| G::lin_of_int(v.w.first().copied().unwrap_or(0));
        gl::eq(g(self), g(o))
    }
}
impl Eq for BigUint {}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &BigUint) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &BigUint) -> Ordering {
        self.real().cmp(&o.real())
    }
}
impl std::hash::Hash for BigUint {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.real().hash(h)
    }
}
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.sym() {
            return write!(f, "{:?}", self.w);
        }
        fmt::Display::fmt(&self.real(), f)
    }
}
impl fmt::Debug for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl std::str::FromStr for BigUint {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        R::from_str(s).map(Self::of)
    }
}
impl Zero for BigUint {
    fn zero() -> Self {
        norm(vec![])
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}
impl One for BigUint {
    fn one() -> Self {
        norm(vec![1])
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        R::from_str_radix(s, radix).map(Self::of)
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.real().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.sym() && self.w.len() == 1 && self.sh == 0 {
            return Some(self.w[0]);
        }
        self.real().to_u64()
    }
    fn to_u128(&self) -> Option<u128> {
        self.real().to_u128()
    }
}
#[allow(unused)]
fn unused(_: &dyn Fn(Gl) -> bool) -> bool {
    <Gl as Coef>::zero().is_zero()
}
