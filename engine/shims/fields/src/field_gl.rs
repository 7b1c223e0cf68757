//! Lifted Goldilocks field: the interface of /repo/fields/src/field_gl.rs, where an element is either
//! concrete (raw word < p, all operations are the real ones) or symbolic (raw word >= p names a term).
#![allow(unused_imports, dead_code)]
use crate::ff::*;
use core::ops::{Add, Div, Mul, Neg, Sub};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use symcore::coef::{Coef, Gl};
use symcore::ctx::{self, ctx, gl};

#[allow(dead_code, unused)]
#[path = "@REPO@/fields/src/field_gl.rs"]
pub mod real;

pub use real::MODULUS as REAL_MODULUS;
pub const MODULUS: FrRepr = FrRepr([real::MODULUS.0[0]]);
pub const ROOT_OF_UNITY: FrRepr = FrRepr([real::ROOT_OF_UNITY.0[0]]);
const P: u64 = symcore::coef::GLP;

/// Montgomery factor of the real representation, read off its ONE
pub fn mont_r() -> Gl {
    Gl(real::Fr::ONE.0 .0[0])
}
fn mont_rinv() -> Gl {
    static C: std::sync::OnceLock<Gl> = std::sync::OnceLock::new();
    *C.get_or_init(|| mont_r().inv().unwrap())
}

#[inline]
pub fn is_tok(w: u64) -> bool {
    w >= P
}
/// does the word name an existing term (rather than being a number that is no element)?
pub fn handle(w: u64) -> bool {
    is_tok(w) && ctx().gl.st.is_handle(w - P)
}
/// term of an element given by its raw word
pub fn lin_of(w: u64) -> u32 {
    if is_tok(w) {
        (w - P) as u32
    } else {
        gl::constant(Gl(w).mul(mont_rinv()))
    }
}
/// raw word of an element given by its term
pub fn word_of(l: u32) -> u64 {
    match gl::as_const(l) {
        Some(c) => c.mul(mont_r()).0,
        None => {
            assert!((l as u64) < u64::MAX - P);
            P + l as u64
        }
    }
}
/// a word that stands for the integer value (residue) of a term
pub fn int_word(l: u32) -> u64 {
    word_of(gl::scale(l, mont_rinv()))
}
/// term whose value is the integer a word stands for
pub fn lin_of_int(w: u64) -> u32 {
    if is_tok(w) {
        gl::scale(lin_of(w), mont_r())
    } else {
        gl::constant(Gl(w))
    }
}

#[derive(Eq, Serialize, Deserialize)]
pub struct Fr(pub FrRepr);

#[derive(Eq, Serialize, Deserialize)]
pub struct FrRepr(pub [u64; 1usize]);

impl Copy for FrRepr {}
impl Clone for FrRepr {
    fn clone(&self) -> FrRepr {
        *self
    }
}
impl PartialEq for FrRepr {
    fn eq(&self, o: &FrRepr) -> bool {
        word_eq(self.0[0], o.0[0])
    }
}
fn word_eq(a: u64, b: u64) -> bool {
    if !is_tok(a) && !is_tok(b) {
        a == b
    } else {
        gl::eq(lin_of(a), lin_of(b))
    }
}
impl Default for FrRepr {
    fn default() -> FrRepr {
        FrRepr([0])
    }
}
impl std::fmt::Debug for FrRepr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::fmt::Display for FrRepr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if is_tok(self.0[0]) {
            write!(f, "sym{}", self.0[0] - P)
        } else {
            write!(f, "0x{:016x}", self.0[0])
        }
    }
}
impl ::rand::Rand for FrRepr {
    fn rand<R: ::rand::Rng>(rng: &mut R) -> Self {
        FrRepr([real::FrRepr::rand(rng).0[0]])
    }
}
impl std::hash::Hash for FrRepr {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        if is_tok(self.0[0]) {
            ctx::escape("hashing a symbolic element")
        }
        self.0[0].hash(state)
    }
}
impl AsRef<[u64]> for FrRepr {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for FrRepr {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for FrRepr {
    fn from(v: u64) -> FrRepr {
        FrRepr([v])
    }
}
impl Ord for FrRepr {
    fn cmp(&self, o: &FrRepr) -> Ordering {
        if is_tok(self.0[0]) || is_tok(o.0[0]) {
            ctx::escape("ordering a symbolic representation")
        }
        real::FrRepr(self.0).cmp(&real::FrRepr(o.0))
    }
}
impl PartialOrd for FrRepr {
    fn partial_cmp(&self, o: &FrRepr) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! concrete {
    ($s:expr, $what:expr) => {
        if is_tok($s.0[0]) {
            ctx::escape(concat!("machine operation on a symbolic word: ", $what))
        }
    };
}
impl PrimeFieldRepr for FrRepr {
    fn is_odd(&self) -> bool {
        concrete!(self, "is_odd");
        real::FrRepr(self.0).is_odd()
    }
    fn is_even(&self) -> bool {
        concrete!(self, "is_even");
        real::FrRepr(self.0).is_even()
    }
    fn is_zero(&self) -> bool {
        word_eq(self.0[0], 0)
    }
    fn shr(&mut self, n: u32) {
        concrete!(self, "shr");
        let mut r = real::FrRepr(self.0);
        r.shr(n);
        self.0 = r.0;
    }
    fn div2(&mut self) {
        concrete!(self, "div2");
        let mut r = real::FrRepr(self.0);
        r.div2();
        self.0 = r.0;
    }
    fn mul2(&mut self) {
        concrete!(self, "mul2");
        let mut r = real::FrRepr(self.0);
        r.mul2();
        self.0 = r.0;
    }
    fn shl(&mut self, n: u32) {
        concrete!(self, "shl");
        let mut r = real::FrRepr(self.0);
        r.shl(n);
        self.0 = r.0;
    }
    fn num_bits(&self) -> u32 {
        concrete!(self, "num_bits");
        real::FrRepr(self.0).num_bits()
    }
    fn add_nocarry(&mut self, o: &FrRepr) {
        concrete!(self, "add_nocarry");
        concrete!(o, "add_nocarry");
        let mut r = real::FrRepr(self.0);
        r.add_nocarry(&real::FrRepr(o.0));
        self.0 = r.0;
    }
    fn sub_noborrow(&mut self, o: &FrRepr) {
        concrete!(self, "sub_noborrow");
        concrete!(o, "sub_noborrow");
        let mut r = real::FrRepr(self.0);
        r.sub_noborrow(&real::FrRepr(o.0));
        self.0 = r.0;
    }
}

impl Copy for Fr {}
impl Clone for Fr {
    fn clone(&self) -> Fr {
        *self
    }
}
impl PartialEq for Fr {
    fn eq(&self, o: &Fr) -> bool {
        word_eq(self.0 .0[0], o.0 .0[0])
    }
}
impl std::fmt::Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::fmt::Display for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.tok() {
            write!(f, "Fr({})", self.0)
        } else {
            std::fmt::Display::fmt(&self.real(), f)
        }
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Fr) -> Ordering {
        if self.tok() || o.tok() {
            ctx::escape("ordering symbolic elements")
        }
        self.real().cmp(&o.real())
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Fr) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl ::rand::Rand for Fr {
    fn rand<R: ::rand::Rng>(rng: &mut R) -> Self {
        Fr::of(real::Fr::rand(rng))
    }
}
impl From<Fr> for FrRepr {
    fn from(e: Fr) -> FrRepr {
        e.into_repr()
    }
}

impl Fr {
    #[inline]
    pub fn tok(&self) -> bool {
        is_tok(self.0 .0[0])
    }
    #[inline]
    pub fn real(&self) -> real::Fr {
        real::Fr(real::FrRepr(self.0 .0))
    }
    #[inline]
    pub fn of(r: real::Fr) -> Fr {
        Fr(FrRepr(r.0 .0))
    }
    pub fn lin(&self) -> u32 {
        lin_of(self.0 .0[0])
    }
    pub fn from_lin(l: u32) -> Fr {
        Fr(FrRepr([word_of(l)]))
    }
    pub const ZERO: Self = Self(FrRepr([0]));
    pub const ONE: Self = Self(FrRepr([real::Fr::ONE.0 .0[0]]));
    pub fn as_int(&self) -> u64 {
        self.into_repr().0[0]
    }
    pub fn exp(self, power: u64) -> Fr {
        if !self.tok() {
            return Fr::of(self.real().exp(power));
        }
        // square and multiply over the bits of the exponent (the real loop selects by bit masks)
        let mut r = Fr::ONE;
        for i in (0..64).rev() {
            r.square();
            if (power >> i) & 1 == 1 {
                r.mul_assign(&self);
            }
        }
        r
    }
}

fn not_in_field(r: FrRepr) -> PrimeFieldDecodingError {
    PrimeFieldDecodingError::NotInField(format!("{}", r))
}

impl PrimeField for Fr {
    type Repr = FrRepr;
    fn from_repr(r: FrRepr) -> Result<Fr, PrimeFieldDecodingError> {
        if handle(r.0[0]) {
            return Ok(Fr::from_lin(lin_of_int(r.0[0])));
        }
        real::Fr::from_repr(real::FrRepr(r.0)).map(Fr::of)
    }
    fn from_raw_repr(r: FrRepr) -> Result<Self, PrimeFieldDecodingError> {
        if handle(r.0[0]) {
            return Ok(Fr(r));
        }
        real::Fr::from_raw_repr(real::FrRepr(r.0)).map(Fr::of)
    }
    fn into_repr(&self) -> FrRepr {
        if self.tok() {
            if !ctx().allow_as_int {
                ctx::escape("integer value of a symbolic element")
            }
            return FrRepr([int_word(self.lin())]);
        }
        FrRepr(self.real().into_repr().0)
    }
    fn into_raw_repr(&self) -> FrRepr {
        self.0
    }
    fn char() -> FrRepr {
        FrRepr(<real::Fr as PrimeField>::char().0)
    }
    const NUM_BITS: u32 = <real::Fr as PrimeField>::NUM_BITS;
    const CAPACITY: u32 = <real::Fr as PrimeField>::CAPACITY;
    fn multiplicative_generator() -> Self {
        Fr::of(<real::Fr as PrimeField>::multiplicative_generator())
    }
    const S: u32 = <real::Fr as PrimeField>::S;
    fn root_of_unity() -> Self {
        Fr::of(<real::Fr as PrimeField>::root_of_unity())
    }
}

impl Field for Fr {
    fn zero() -> Self {
        Fr::of(<real::Fr as Field>::zero())
    }
    fn one() -> Self {
        Fr::of(<real::Fr as Field>::one())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    fn add_assign(&mut self, o: &Fr) {
        if self.tok() || o.tok() {
            *self = Fr::from_lin(gl::add(self.lin(), o.lin()));
        } else {
            let mut r = self.real();
            r.add_assign(&o.real());
            *self = Fr::of(r);
        }
    }
    fn double(&mut self) {
        if self.tok() {
            *self = Fr::from_lin(gl::scale(self.lin(), Gl(2)));
        } else {
            let mut r = self.real();
            r.double();
            *self = Fr::of(r);
        }
    }
    fn sub_assign(&mut self, o: &Fr) {
        if self.tok() || o.tok() {
            *self = Fr::from_lin(gl::sub(self.lin(), o.lin()));
        } else {
            let mut r = self.real();
            r.sub_assign(&o.real());
            *self = Fr::of(r);
        }
    }
    fn negate(&mut self) {
        if self.tok() {
            *self = Fr::from_lin(gl::neg(self.lin()));
        } else {
            let mut r = self.real();
            r.negate();
            *self = Fr::of(r);
        }
    }
    fn inverse(&self) -> Option<Self> {
        if self.tok() {
            if word_eq(self.0 .0[0], 0) {
                // what the real code does on zero
                return <real::Fr as Field>::zero().inverse().map(Fr::of);
            }
            return Some(Fr::from_lin(gl::inv(self.lin())));
        }
        self.real().inverse().map(Fr::of)
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn mul_assign(&mut self, o: &Fr) {
        if self.tok() || o.tok() {
            *self = Fr::from_lin(gl::mul(self.lin(), o.lin()));
        } else {
            let mut r = self.real();
            r.mul_assign(&o.real());
            *self = Fr::of(r);
        }
    }
    fn square(&mut self) {
        let x = *self;
        self.mul_assign(&x);
    }
}

impl Default for Fr {
    fn default() -> Self {
        Self::ZERO
    }
}
impl std::hash::Hash for Fr {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
impl From<u64> for Fr {
    fn from(v: u64) -> Fr {
        Fr::from_repr(FrRepr::from(v)).unwrap()
    }
}
impl From<Fr> for u64 {
    fn from(v: Fr) -> u64 {
        if v.tok() {
            ctx::escape("raw word of a symbolic element")
        }
        v.real().into()
    }
}
impl SqrtField for Fr {
    fn legendre(&self) -> LegendreSymbol {
        if self.tok() {
            ctx::escape("legendre symbol of a symbolic element")
        }
        self.real().legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        if self.tok() {
            ctx::escape("square root of a symbolic element")
        }
        self.real().sqrt().map(Fr::of)
    }
}
impl Add for Fr {
    type Output = Self;
    fn add(mut self, o: Self) -> Self {
        self.add_assign(&o);
        self
    }
}
impl Mul for Fr {
    type Output = Self;
    fn mul(mut self, o: Self) -> Self {
        self.mul_assign(&o);
        self
    }
}
impl Sub for Fr {
    type Output = Self;
    fn sub(mut self, o: Self) -> Self {
        self.sub_assign(&o);
        self
    }
}
impl Div for Fr {
    type Output = Self;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, o: Self) -> Self {
        self * o.inverse().unwrap()
    }
}
impl Neg for Fr {
    type Output = Self;
    fn neg(mut self) -> Self {
        self.negate();
        self
    }
}

#[derive(Clone, Copy, Debug)]
pub struct GL;
impl ScalarEngine for GL {
    type Fr = Fr;
}
