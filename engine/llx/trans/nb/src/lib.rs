//! num_bigint::BigUint for values below 2^512, in fixed words and without a branch on a value wherever the checked
//! sources depend on it. What exceeds it ends the path as an engine limit.
use num_traits::ToPrimitive;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
const N: usize = 8;
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct BigUint([u64; N]);
macro_rules! from { ($($t:ty),*) => { $(impl From<$t> for BigUint {
    fn from(v: $t) -> Self {
        let mut r = [0; N];
        r[0] = v as u64;
        BigUint(r)
    }
})* } }
from!(u8, u16, u32, u64, usize);
impl From<u128> for BigUint {
    fn from(v: u128) -> Self {
        let mut r = [0; N];
        r[0] = v as u64;
        r[1] = (v >> 64) as u64;
        BigUint(r)
    }
}
fn limit(what: &str) -> ! {
    panic!("engine limit: {what} of long integers")
}
impl BigUint {
    pub fn new(d: Vec<u32>) -> BigUint {
        BigUint::from_slice(&d)
    }
    pub fn from_slice(d: &[u32]) -> BigUint {
        let mut r = [0; N];
        for (i, x) in d.iter().enumerate() {
            if i >= 2 * N {
                limit("size")
            }
            r[i / 2] |= (*x as u64) << (32 * (i % 2));
        }
        BigUint(r)
    }
    pub fn from_bytes_be(b: &[u8]) -> BigUint {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        BigUint::from_bytes_le(&v)
    }
    pub fn from_bytes_le(b: &[u8]) -> BigUint {
        let mut r = [0u64; N];
        for (i, x) in b.iter().enumerate() {
            if i >= 8 * N {
                limit("size")
            }
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        BigUint(r)
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigUint> {
        <BigUint as num_traits::Num>::from_str_radix(std::str::from_utf8(b).ok()?, radix).ok()
    }
    pub fn bit(&self, i: u64) -> bool {
        let k = (i / 64) as usize;
        k < N && (self.0[k] >> (i % 64)) & 1 == 1
    }
    pub fn set_bit(&mut self, i: u64, v: bool) {
        let k = (i / 64) as usize;
        if k >= N {
            limit("size")
        }
        self.0[k] = self.0[k] & !(1 << (i % 64)) | (v as u64) << (i % 64);
    }
    fn len(&self) -> usize {
        let mut n = N;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    pub fn bits(&self) -> u64 {
        let n = self.len();
        if n == 0 {
            return 0;
        }
        64 * n as u64 - self.0[n - 1].leading_zeros() as u64
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        (0..64 * N as u64).find(|i| self.bit(*i))
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.0[..self.len()].to_vec()
    }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> {
        self.to_u64_digits().into_iter()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        let mut v = vec![];
        for d in self.to_u64_digits() {
            v.push(d as u32);
            v.push((d >> 32) as u32);
        }
        if v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.to_u64_digits().iter().flat_map(|d| d.to_le_bytes()).collect();
        while v.len() > 1 && v[v.len() - 1] == 0 {
            v.pop();
        }
        if v.is_empty() {
            v.push(0)
        }
        v
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        let mut v = vec![];
        let mut a = self.0;
        loop {
            let mut n = N;
            while n > 0 && a[n - 1] == 0 {
                n -= 1;
            }
            if n == 0 {
                break;
            }
            let mut r = 0u64;
            for i in (0..n).rev() {
                if n == 1 {
                    r = a[0] % radix as u64;
                    a[0] /= radix as u64;
                } else {
                    // two steps of 32 bits: 64-bit divisions are enough
                    let h = r << 32 | a[i] >> 32;
                    let l = (h % radix as u64) << 32 | (a[i] & 0xffff_ffff);
                    a[i] = (h / radix as u64) << 32 | (l / radix as u64);
                    r = l % radix as u64;
                }
            }
            v.push(std::char::from_digit(r as u32, radix).unwrap());
        }
        if v.is_empty() {
            v.push('0');
        }
        v.iter().rev().collect()
    }
    pub fn pow(&self, e: u32) -> BigUint {
        let mut r = BigUint::from(1u32);
        for _ in 0..e {
            r = r.mul_(self);
        }
        r
    }
    pub fn modpow(&self, _: &BigUint, _: &BigUint) -> BigUint {
        limit("powers")
    }
    fn shr_(&self, n: usize) -> BigUint {
        let (k, s) = (n / 64, n % 64);
        let mut r = [0u64; N];
        for i in 0..N {
            if i + k < N {
                r[i] = self.0[i + k] >> s;
                if s > 0 && i + k + 1 < N {
                    r[i] |= self.0[i + k + 1] << (64 - s);
                }
            }
        }
        BigUint(r)
    }
    fn shl_(&self, n: usize) -> BigUint {
        let (k, s) = (n / 64, n % 64);
        let mut r = [0u64; N];
        for i in 0..N {
            if i >= k {
                r[i] = self.0[i - k] << s;
                if s > 0 && i > k {
                    r[i] |= self.0[i - k - 1] >> (64 - s);
                }
            }
        }
        let r = BigUint(r);
        if r.shr_(n) != *self {
            limit("size")
        }
        r
    }
    fn zip(&self, o: &BigUint, f: impl Fn(u64, u64) -> u64) -> BigUint {
        let mut r = [0; N];
        for i in 0..N {
            r[i] = f(self.0[i], o.0[i]);
        }
        BigUint(r)
    }
    fn and_(&self, o: &BigUint) -> BigUint {
        self.zip(o, |a, b| a & b)
    }
    fn or_(&self, o: &BigUint) -> BigUint {
        self.zip(o, |a, b| a | b)
    }
    fn xor_(&self, o: &BigUint) -> BigUint {
        self.zip(o, |a, b| a ^ b)
    }
    fn add_(&self, o: &BigUint) -> BigUint {
        let (mut r, mut k) = ([0; N], 0u128);
        for i in 0..N {
            let t = self.0[i] as u128 + o.0[i] as u128 + k;
            r[i] = t as u64;
            k = t >> 64;
        }
        if k != 0 {
            limit("size")
        }
        BigUint(r)
    }
    fn sub_(&self, o: &BigUint) -> BigUint {
        let (mut r, mut k) = ([0; N], 0u128);
        for i in 0..N {
            let t = (self.0[i] as u128).wrapping_sub(o.0[i] as u128).wrapping_sub(k);
            r[i] = t as u64;
            k = t >> 127;
        }
        if k != 0 {
            panic!("attempt to subtract with overflow")
        }
        BigUint(r)
    }
    fn mul_(&self, o: &BigUint) -> BigUint {
        let mut r = [0u64; N];
        let (n, m) = (self.len(), o.len());
        if n + m > N {
            limit("product")
        }
        for i in 0..n {
            let mut k = 0u128;
            for j in 0..m {
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + k;
                r[i + j] = t as u64;
                k = t >> 64;
            }
            r[i + m] = k as u64;
        }
        BigUint(r)
    }
    fn divrem(&self, o: &BigUint) -> (BigUint, BigUint) {
        if o.len() != 1 {
            if self.cmp(o) == Ordering::Less {
                return (BigUint::default(), self.clone());
            }
            limit("division")
        }
        let d = o.0[0];
        let n = self.len();
        if n <= 1 {
            return (BigUint::from(self.0[0] / d), BigUint::from(self.0[0] % d));
        }
        let (mut q, mut r) = ([0; N], 0u128);
        for i in (0..n).rev() {
            let t = r << 64 | self.0[i] as u128;
            q[i] = (t / d as u128) as u64;
            r = t % d as u128;
        }
        (BigUint(q), BigUint::from(r as u64))
    }
    fn div_(&self, o: &BigUint) -> BigUint {
        self.divrem(o).0
    }
    fn rem_(&self, o: &BigUint) -> BigUint {
        self.divrem(o).1
    }
}
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident $g:ident;)*) => { $(
    impl $t<BigUint> for BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { self.$g(&o) } }
    impl $t<&BigUint> for BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { self.$g(o) } }
    impl $t<BigUint> for &BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { self.$g(&o) } }
    impl $t<&BigUint> for &BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { self.$g(o) } }
    impl $ta<BigUint> for BigUint { fn $fa(&mut self, o: BigUint) { *self = self.$g(&o) } }
    impl $ta<&BigUint> for BigUint { fn $fa(&mut self, o: &BigUint) { *self = self.$g(o) } }
)* } }
ops! { BitAnd bitand BitAndAssign bitand_assign and_; BitOr bitor BitOrAssign bitor_assign or_; BitXor bitxor BitXorAssign bitxor_assign xor_;
    Add add AddAssign add_assign add_; Sub sub SubAssign sub_assign sub_; Mul mul MulAssign mul_assign mul_; Div div DivAssign div_assign div_; Rem rem RemAssign rem_assign rem_; }
macro_rules! small { ($($u:ty),*; $($t:ident $f:ident $ta:ident $fa:ident $g:ident;)*) => { small!(@ [$($u),*] $($t $f $ta $fa $g;)*); };
    (@ $us:tt $($t:ident $f:ident $ta:ident $fa:ident $g:ident;)*) => { $(small!(# $us $t $f $ta $fa $g);)* };
    (# [$($u:ty),*] $t:ident $f:ident $ta:ident $fa:ident $g:ident) => { $(
    impl $t<$u> for BigUint { type Output = BigUint; fn $f(self, o: $u) -> BigUint { self.$g(&BigUint::from(o)) } }
    impl $t<$u> for &BigUint { type Output = BigUint; fn $f(self, o: $u) -> BigUint { self.$g(&BigUint::from(o)) } }
    impl $ta<$u> for BigUint { fn $fa(&mut self, o: $u) { *self = self.$g(&BigUint::from(o)) } }
)* } }
small! { u8, u16, u32, u64, usize, u128; Add add AddAssign add_assign add_; Sub sub SubAssign sub_assign sub_; Mul mul MulAssign mul_assign mul_; Div div DivAssign div_assign div_; Rem rem RemAssign rem_assign rem_; }
macro_rules! sh { ($($t:ty),*) => { $(
impl Shr<$t> for BigUint { type Output = BigUint; fn shr(self, n: $t) -> BigUint { self.shr_(n as usize) } }
impl Shr<$t> for &BigUint { type Output = BigUint; fn shr(self, n: $t) -> BigUint { self.shr_(n as usize) } }
impl ShrAssign<$t> for BigUint { fn shr_assign(&mut self, n: $t) { *self = self.shr_(n as usize) } }
impl Shl<$t> for BigUint { type Output = BigUint; fn shl(self, n: $t) -> BigUint { self.shl_(n as usize) } }
impl Shl<$t> for &BigUint { type Output = BigUint; fn shl(self, n: $t) -> BigUint { self.shl_(n as usize) } }
impl ShlAssign<$t> for BigUint { fn shl_assign(&mut self, n: $t) { *self = self.shl_(n as usize) } }
)* } }
sh!(u8, u16, usize, u32, i32, u64, i64);
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
}
impl ToPrimitive for BigUint {
    fn to_u64(&self) -> Option<u64> {
        if self.0[1..].iter().fold(0, |a, b| a | b) == 0 { Some(self.0[0]) } else { None }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.0[2..].iter().fold(0, |a, b| a | b) == 0 { Some(self.0[0] as u128 | (self.0[1] as u128) << 64) } else { None }
    }
    fn to_i64(&self) -> Option<i64> {
        self.to_u64().and_then(|x| if x >> 63 == 0 { Some(x as i64) } else { None })
    }
}
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(true, "", &self.to_str_radix(10))
    }
}
impl fmt::LowerHex for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(true, "0x", &self.to_str_radix(16))
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}
impl num_traits::Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        let s = s.strip_prefix('+').unwrap_or(s);
        if s.is_empty() {
            return Err(ParseBigIntError);
        }
        let mut r = BigUint::default();
        for c in s.chars() {
            let d = c.to_digit(radix).ok_or(ParseBigIntError)?;
            r = r.mul_(&BigUint::from(radix)).add_(&BigUint::from(d));
        }
        Ok(r)
    }
}
impl std::str::FromStr for BigUint {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
        num_traits::Num::from_str_radix(s, 10)
    }
}
impl num_traits::Zero for BigUint {
    fn zero() -> Self {
        BigUint([0; N])
    }
    fn is_zero(&self) -> bool {
        self.0.iter().fold(0, |a, b| a | b) == 0
    }
}
impl num_traits::One for BigUint {
    fn one() -> Self {
        BigUint::from(1u32)
    }
}
