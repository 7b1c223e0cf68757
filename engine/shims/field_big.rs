//! Lifted 4-limb prime field: the interface of @SRC@.
#![allow(unused_imports, dead_code)]
use crate::helper;
use ff::*;
use serde::de::{Error, SeqAccess, Visitor};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::cmp::Ordering;
use symcore::coef::{Coef, Gl};
use symcore::ctx::{self, ctx, gl, @F@};
use symcore::coef::@F@::Fr as K;
use fields::field_gl as G;

#[allow(dead_code, unused)]
#[path = "@SRC@"]
pub mod real;

const MAGIC: u64 = 0x5eed_5eed_5eed_5eed;

#[derive(Copy, Clone, Eq)]
pub struct FrRepr(pub [u64; 4]);
#[derive(Copy, Clone, Eq)]
pub struct Fr(pub FrRepr);

fn mont_r() -> K {
    static C: std::sync::OnceLock<K> = std::sync::OnceLock::new();
    *C.get_or_init(|| K::from_limbs(<real::Fr as Field>::one().into_raw_repr().0))
}
fn mont_rinv() -> K {
    static C: std::sync::OnceLock<K> = std::sync::OnceLock::new();
    *C.get_or_init(|| mont_r().inv().unwrap())
}

impl Fr {
    /// symbolic: a handle, or raw limbs some of which are symbolic words
    pub fn tok(&self) -> bool {
        self.magic() || self.limbwise()
    }
    fn magic(&self) -> bool {
        let l = self.0 .0;
        l[3] == u64::MAX && l[2] == MAGIC && l[1] == MAGIC
    }
    fn limbwise(&self) -> bool {
        self.0 .0.iter().any(|w| G::is_tok(*w)) && !maybe_concrete(&self.0)
    }
    pub fn real(&self) -> real::Fr {
        real::Fr(real::FrRepr(self.0 .0))
    }
    pub fn of(r: real::Fr) -> Fr {
        Fr(FrRepr(r.0 .0))
    }
    pub fn lin(&self) -> u32 {
        if self.magic() {
            self.0 .0[0] as u32
        } else if self.limbwise() {
            @F@::scale(lin_of_limbs(&self.0 .0), mont_rinv())
        } else {
            let v = K::from_limbs(self.0 .0).mul(mont_rinv());
            @F@::constant(v)
        }
    }
    pub fn from_lin(l: u32) -> Fr {
        match @F@::as_const(l) {
            Some(c) => {
                Fr(FrRepr(c.mul(mont_r()).limbs()))
            }
            None => Fr(FrRepr([l as u64, MAGIC, MAGIC, u64::MAX])),
        }
    }
}

/// words of the limbs of the integer value of a term
fn limbs_of(l: u32) -> [u64; 4] {
    if let Some(c) = @F@::as_const(l) {
        return c.limbs();
    }
    let mut r = [0u64; 4];
    for (i, w) in r.iter_mut().enumerate() {
        let lin = {
            let mut c = ctx();
            let ev = c.@F@.st.ev(l);
            let e = [Gl::from_u64(ev[0].limbs()[i]), Gl::from_u64(ev[1].limbs()[i])];
            c.gl.st.fun(&format!("limb:@F@:{l}:{i}"), e)
        };
        *w = G::int_word(lin);
    }
    r
}
/// term for the integer with the given limb words
fn lin_of_limbs(w: &[u64; 4]) -> u32 {
    if w.iter().all(|x| !G::is_tok(*x)) {
        return @F@::constant(K::from_limbs(*w));
    }
    let lins: Vec<u32> = w.iter().map(|x| G::lin_of_int(*x)).collect();
    let mut c = ctx();
    // exactly the four limbs of one term?
    let d: Vec<Option<String>> = lins.iter().map(|l| c.gl.st.fun_desc(*l).map(|s| s.to_string())).collect();
    if let Some(s) = &d[0] {
        let p: Vec<&str> = s.split(':').collect();
        if p.len() == 4 && p[0] == "limb" && p[1] == "@F@" {
            let id: u32 = p[2].parse().unwrap();
            if (0..4).all(|i| d[i].as_deref() == Some(&format!("limb:@F@:{id}:{i}"))) {
                return id;
            }
        }
    }
    let mut acc = c.@F@.st.constant(<K as Coef>::zero());
    let mut sh = <K as Coef>::one();
    let s64 = K::from_u64(1 << 32).mul(K::from_u64(1 << 32));
    for i in 0..4 {
        let x = match c.gl.st.as_const(lins[i]) {
            // a concrete word is exact
            _ if !G::is_tok(w[i]) => c.@F@.st.constant(K::from_u64(w[i])),
            Some(v) => c.@F@.st.constant(K::from_u64(v.0)),
            None => {
                let ev = c.gl.st.ev(lins[i]);
                c.@F@.st.fun(&format!("int:{}", lins[i]), [K::from_u64(ev[0].0), K::from_u64(ev[1].0)])
            }
        };
        acc = c.@F@.st.add_scaled(acc, x, sh);
        sh = sh.mul(s64);
    }
    acc
}

impl PartialEq for FrRepr {
    fn eq(&self, o: &FrRepr) -> bool {
        let t = |r: &FrRepr| Fr(*r).tok();
        if t(self) || t(o) {
            @F@::eq(lin_of_limbs(&self.0), lin_of_limbs(&o.0))
        } else {
            self.0 == o.0
        }
    }
}
impl PartialEq for Fr {
    fn eq(&self, o: &Fr) -> bool {
        if self.tok() || o.tok() {
            @F@::eq(self.lin(), o.lin())
        } else {
            self.0 .0 == o.0 .0
        }
    }
}
impl Default for FrRepr {
    fn default() -> Self {
        FrRepr([0; 4])
    }
}
impl Default for Fr {
    fn default() -> Self {
        <Fr as Field>::zero()
    }
}
impl fmt::Debug for FrRepr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&real::FrRepr(self.0), f)
    }
}
impl fmt::Display for FrRepr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&real::FrRepr(self.0), f)
    }
}
impl fmt::Debug for Fr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Fr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.tok() {
            write!(f, "Fr(sym{})", self.lin())
        } else {
            fmt::Display::fmt(&self.real(), f)
        }
    }
}
impl std::hash::Hash for FrRepr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl std::hash::Hash for Fr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if self.tok() {
            ctx::escape("hashing a symbolic element")
        }
        self.0.hash(h)
    }
}
impl AsRef<[u64]> for FrRepr {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for FrRepr {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for FrRepr {
    fn from(v: u64) -> Self {
        FrRepr([v, 0, 0, 0])
    }
}
impl Ord for FrRepr {
    fn cmp(&self, o: &FrRepr) -> Ordering {
        if Fr(*self).tok() || Fr(*o).tok() {
            ctx::escape("ordering symbolic representations")
        }
        real::FrRepr(self.0).cmp(&real::FrRepr(o.0))
    }
}
impl PartialOrd for FrRepr {
    fn partial_cmp(&self, o: &FrRepr) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Fr) -> Ordering {
        if self.tok() || o.tok() {
            ctx::escape("ordering symbolic elements")
        }
        self.real().cmp(&o.real())
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Fr) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl ::rand::Rand for FrRepr {
    fn rand<R: ::rand::Rng>(rng: &mut R) -> Self {
        FrRepr(real::FrRepr::rand(rng).0)
    }
}
impl ::rand::Rand for Fr {
    fn rand<R: ::rand::Rng>(rng: &mut R) -> Self {
        Fr::of(real::Fr::rand(rng))
    }
}
impl From<Fr> for FrRepr {
    fn from(e: Fr) -> FrRepr {
        e.into_repr()
    }
}
macro_rules! machine {
    ($s:expr) => {
        if Fr(*$s).tok() {
            ctx::escape("machine operation on a symbolic representation")
        }
    };
}
impl PrimeFieldRepr for FrRepr {
    fn is_odd(&self) -> bool {
        machine!(self);
        real::FrRepr(self.0).is_odd()
    }
    fn is_even(&self) -> bool {
        machine!(self);
        real::FrRepr(self.0).is_even()
    }
    fn is_zero(&self) -> bool {
        *self == FrRepr([0; 4])
    }
    fn shr(&mut self, n: u32) {
        machine!(self);
        let mut r = real::FrRepr(self.0);
        r.shr(n);
        self.0 = r.0;
    }
    fn div2(&mut self) {
        machine!(self);
        let mut r = real::FrRepr(self.0);
        r.div2();
        self.0 = r.0;
    }
    fn mul2(&mut self) {
        machine!(self);
        let mut r = real::FrRepr(self.0);
        r.mul2();
        self.0 = r.0;
    }
    fn shl(&mut self, n: u32) {
        machine!(self);
        let mut r = real::FrRepr(self.0);
        r.shl(n);
        self.0 = r.0;
    }
    fn num_bits(&self) -> u32 {
        machine!(self);
        real::FrRepr(self.0).num_bits()
    }
    fn add_nocarry(&mut self, o: &FrRepr) {
        machine!(self);
        machine!(o);
        let mut r = real::FrRepr(self.0);
        r.add_nocarry(&real::FrRepr(o.0));
        self.0 = r.0;
    }
    fn sub_noborrow(&mut self, o: &FrRepr) {
        machine!(self);
        machine!(o);
        let mut r = real::FrRepr(self.0);
        r.sub_noborrow(&real::FrRepr(o.0));
        self.0 = r.0;
    }
}

impl PrimeField for Fr {
    type Repr = FrRepr;
    fn from_repr(r: FrRepr) -> Result<Fr, PrimeFieldDecodingError> {
        if r.0.iter().any(|w| G::is_tok(*w)) && !maybe_concrete(&r) {
            // not below the modulus? decided by a concrete top limb; a symbolic one is taken to be below
            let m = <real::Fr as PrimeField>::char().0[3];
            if !G::is_tok(r.0[3]) || !G::handle(r.0[3]) {
                if r.0[3] > m {
                    return Err(PrimeFieldDecodingError::NotInField("symbolic".to_string()));
                }
                if r.0[3] == m {
                    ctx::escape("comparison of a symbolic representation with the modulus");
                }
            }
            return Ok(Fr::from_lin(lin_of_limbs(&r.0)));
        }
        real::Fr::from_repr(real::FrRepr(r.0)).map(Fr::of)
    }
    fn from_raw_repr(r: FrRepr) -> Result<Self, PrimeFieldDecodingError> {
        if Fr(r).magic() {
            return Ok(Fr(r));
        }
        if r.0.iter().any(|w| G::is_tok(*w)) && !maybe_concrete(&r) {
            return Ok(Fr::from_lin(@F@::scale(lin_of_limbs(&r.0), mont_rinv())));
        }
        real::Fr::from_raw_repr(real::FrRepr(r.0)).map(Fr::of)
    }
    fn into_repr(&self) -> FrRepr {
        if self.tok() {
            if !ctx().allow_as_int {
                ctx::escape("integer value of a symbolic element")
            }
            return FrRepr(limbs_of(self.lin()));
        }
        FrRepr(self.real().into_repr().0)
    }
    fn into_raw_repr(&self) -> FrRepr {
        if self.tok() {
            if !ctx().allow_as_int {
                ctx::escape("raw representation of a symbolic element")
            }
            if self.limbwise() {
                return self.0;
            }
            return FrRepr(limbs_of(@F@::scale(self.lin(), mont_r())));
        }
        self.0
    }
    fn char() -> FrRepr {
        FrRepr(<real::Fr as PrimeField>::char().0)
    }
    const NUM_BITS: u32 = <real::Fr as PrimeField>::NUM_BITS;
    const CAPACITY: u32 = <real::Fr as PrimeField>::CAPACITY;
    fn multiplicative_generator() -> Self {
        Fr::of(<real::Fr as PrimeField>::multiplicative_generator())
    }
    const S: u32 = <real::Fr as PrimeField>::S;
    fn root_of_unity() -> Self {
        Fr::of(<real::Fr as PrimeField>::root_of_unity())
    }
}

/// a word >= p that is not the name of an existing term is just a number
fn maybe_concrete(r: &FrRepr) -> bool {
    r.0.iter().all(|w| !G::handle(*w))
}

impl Field for Fr {
    fn zero() -> Self {
        Fr::of(<real::Fr as Field>::zero())
    }
    fn one() -> Self {
        Fr::of(<real::Fr as Field>::one())
    }
    fn is_zero(&self) -> bool {
        if self.tok() {
            @F@::eq(self.lin(), @F@::constant(<K as Coef>::zero()))
        } else {
            self.real().is_zero()
        }
    }
    fn add_assign(&mut self, o: &Fr) {
        if self.tok() || o.tok() {
            *self = Fr::from_lin(@F@::add(self.lin(), o.lin()));
        } else {
            let mut r = self.real();
            r.add_assign(&o.real());
            *self = Fr::of(r);
        }
    }
    fn double(&mut self) {
        let x = *self;
        self.add_assign(&x);
    }
    fn sub_assign(&mut self, o: &Fr) {
        if self.tok() || o.tok() {
            *self = Fr::from_lin(@F@::sub(self.lin(), o.lin()));
        } else {
            let mut r = self.real();
            r.sub_assign(&o.real());
            *self = Fr::of(r);
        }
    }
    fn negate(&mut self) {
        if self.tok() {
            *self = Fr::from_lin(@F@::neg(self.lin()));
        } else {
            let mut r = self.real();
            r.negate();
            *self = Fr::of(r);
        }
    }
    fn inverse(&self) -> Option<Self> {
        if self.tok() {
            if self.is_zero() {
                return None;
            }
            return Some(Fr::from_lin(@F@::inv(self.lin())));
        }
        self.real().inverse().map(Fr::of)
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn mul_assign(&mut self, o: &Fr) {
        if self.tok() || o.tok() {
            *self = Fr::from_lin(@F@::mul(self.lin(), o.lin()));
        } else {
            let mut r = self.real();
            r.mul_assign(&o.real());
            *self = Fr::of(r);
        }
    }
    fn square(&mut self) {
        let x = *self;
        self.mul_assign(&x);
    }
}
impl SqrtField for Fr {
    fn legendre(&self) -> LegendreSymbol {
        if self.tok() {
            ctx::escape("legendre")
        }
        self.real().legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        if self.tok() {
            ctx::escape("sqrt")
        }
        self.real().sqrt().map(Fr::of)
    }
}
impl Serialize for Fr {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        if self.tok() {
            return serializer.serialize_str(&format!("sym:{}", self.lin()));
        }
        self.real().serialize(serializer)
    }
}
impl<'de> Deserialize<'de> for Fr {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        real::Fr::deserialize(deserializer).map(Fr::of)
    }
}
