//! Coefficient fields. Independent of the code under test.
use std::fmt::Debug;
use std::hash::Hash;

pub trait Coef: Copy + Clone + Eq + Hash + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn zero() -> Self;
    fn one() -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn neg(self) -> Self;
    fn inv(self) -> Option<Self>;
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
    fn from_u64(v: u64) -> Self;
    /// canonical little-endian limbs
    fn limbs(&self) -> [u64; 4];
    /// any integer, reduced
    fn from_limbs(l: [u64; 4]) -> Self;
    fn modulus() -> &'static str;
    fn dec(&self) -> String {
        limbs_to_dec(self.limbs())
    }
    fn from_dec(s: &str) -> Self {
        let ten = Self::from_u64(10);
        let mut r = Self::zero();
        for ch in s.bytes() {
            r = r.mul(ten).add(Self::from_u64((ch - b'0') as u64));
        }
        r
    }
    fn pow(self, mut e: u64) -> Self {
        let mut b = self;
        let mut r = Self::one();
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(b);
            }
            b = b.mul(b);
            e >>= 1;
        }
        r
    }
    fn powi(self, e: i32) -> Self {
        if e >= 0 {
            self.pow(e as u64)
        } else {
            self.inv().expect("random point hit a zero of a denominator").pow((-e) as u64)
        }
    }
    /// pseudo random element
    fn seeded(h: u64) -> Self {
        let mut l = [0u64; 4];
        let mut s = h;
        for x in l.iter_mut() {
            *x = splitmix(&mut s);
        }
        Self::from_limbs(l)
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn limbs_to_dec(mut l: [u64; 4]) -> String {
    let mut digits = Vec::new();
    while l != [0; 4] {
        let mut rem: u128 = 0;
        for i in (0..4).rev() {
            let cur = (rem << 64) | l[i] as u128;
            l[i] = (cur / 1_000_000_000) as u64;
            rem = cur % 1_000_000_000;
        }
        digits.push(rem as u32);
    }
    if digits.is_empty() {
        return "0".into();
    }
    let mut s = format!("{}", digits.pop().unwrap());
    while let Some(d) = digits.pop() {
        s.push_str(&format!("{d:09}"));
    }
    s
}

pub const GLP: u64 = 0xFFFF_FFFF_0000_0001;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Gl(pub u64);

impl Coef for Gl {
    const NAME: &'static str = "gl";
    fn zero() -> Self {
        Gl(0)
    }
    fn one() -> Self {
        Gl(1)
    }
    #[inline]
    fn add(self, o: Self) -> Self {
        Gl(((self.0 as u128 + o.0 as u128) % GLP as u128) as u64)
    }
    #[inline]
    fn sub(self, o: Self) -> Self {
        self.add(o.neg())
    }
    #[inline]
    fn mul(self, o: Self) -> Self {
        Gl(((self.0 as u128 * o.0 as u128) % GLP as u128) as u64)
    }
    #[inline]
    fn neg(self) -> Self {
        if self.0 == 0 {
            self
        } else {
            Gl(GLP - self.0)
        }
    }
    fn inv(self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            Some(self.pow(GLP - 2))
        }
    }
    fn from_u64(v: u64) -> Self {
        Gl(v % GLP)
    }
    fn limbs(&self) -> [u64; 4] {
        [self.0, 0, 0, 0]
    }
    fn from_limbs(l: [u64; 4]) -> Self {
        let mut r: u128 = 0;
        for i in (0..4).rev() {
            r = ((r << 64) | l[i] as u128) % GLP as u128;
        }
        Gl(r as u64)
    }
    fn modulus() -> &'static str {
        "18446744069414584321"
    }
}

macro_rules! big {
    ($m:ident, $name:literal, $modulus:literal) => {
        pub mod $m {
            use super::Coef;
            mod d {
                use ff::*;
                #[derive(PrimeField)]
                #[PrimeFieldModulus = $modulus]
                #[PrimeFieldGenerator = "7"]
                pub struct Fr(pub FrRepr);
            }
            pub use d::{Fr, FrRepr};
            use ff::{Field, PrimeField};
            impl Coef for Fr {
                const NAME: &'static str = $name;
                fn zero() -> Self {
                    <Fr as Field>::zero()
                }
                fn one() -> Self {
                    <Fr as Field>::one()
                }
                fn add(mut self, o: Self) -> Self {
                    self.add_assign(&o);
                    self
                }
                fn sub(mut self, o: Self) -> Self {
                    self.sub_assign(&o);
                    self
                }
                fn mul(mut self, o: Self) -> Self {
                    self.mul_assign(&o);
                    self
                }
                fn neg(mut self) -> Self {
                    self.negate();
                    self
                }
                fn inv(self) -> Option<Self> {
                    Field::inverse(&self)
                }
                fn from_u64(v: u64) -> Self {
                    Fr::from_repr(FrRepr::from(v)).unwrap()
                }
                fn limbs(&self) -> [u64; 4] {
                    self.into_repr().0
                }
                fn from_limbs(l: [u64; 4]) -> Self {
                    // sum of limb * 2^64i
                    let mut r = <Fr as Field>::zero();
                    let mut sh = Self::from_u64(1u64 << 32);
                    sh.square();
                    for i in (0..4).rev() {
                        r.mul_assign(&sh);
                        r.add_assign(&Self::from_u64(l[i]));
                    }
                    r
                }
                fn modulus() -> &'static str {
                    $modulus
                }
            }
        }
    };
}
big!(bn, "bn", "21888242871839275222246405745257275088548364400416034343698204186575808495617");
big!(bls, "bls", "52435875175126190479447740508185965837690552500527637822603658699938581184513");
