use crate::any::*;
use crate::digest::*;
use crate::f3g::F3G;
use crate::f5g::F5G;
use crate::inp::*;
use crate::traits::{FieldExtension, MTNodeType};
use ff::{Field, PrimeField};
use fields::field_gl::Fr as FGL;

fn four() -> [FGL; 4] {
    [fe(), fe(), fe(), fe()]
}
fn ints(e: &[FGL]) -> [u64; 4] {
    [e[0].as_int(), e[1].as_int(), e[2].as_int(), e[3].as_int()]
}
macro_rules! outer { ($m:ident, $raw:ident, $val:ident, $to:ident) => {
/// digest -> scalar -> digest
pub fn digest() {
    use crate::$m::*;
    let e = four();
    let d: ElementDigest<4, Fr> = ElementDigest::new(&e);
    let s = d.as_scalar::<Fr>();
    check(s.0 == ints(&e), "a digest's scalar is its four words, lowest first");
    let x = Fr(s);
    let back: ElementDigest<4, Fr> = ElementDigest::from_scalar(&x);
    check(back == d, "a digest survives the way through a scalar");
    check(back.as_elements().len() == 4 && ints(back.as_elements()) == ints(&e), "element by element");
}
/// scalar -> digest -> scalar, the four words being elements of the base field
pub fn scalar() {
    use crate::$m::*;
    let x = $raw();
    for w in x.into_raw_repr().0 {
        assume(w < P);
    }
    let d: ElementDigest<4, Fr> = ElementDigest::from_scalar(&x);
    check(ints(d.as_elements()) == x.into_raw_repr().0, "a scalar's digest is its four words");
    check(Fr(d.as_scalar::<Fr>()) == x, "a scalar survives the way through a digest");
}
/// every scalar
pub fn any_scalar() {
    use crate::$m::*;
    let x = $raw();
    let d: ElementDigest<4, Fr> = ElementDigest::from_scalar(&x);
    check(Fr(d.as_scalar::<Fr>()) == x, "a scalar survives the way through a digest");
}
/// integers
pub fn integer() {
    use crate::$m::*;
    let e = four();
    assume(below(&ints(&e), &Fr::char().0));
    let x = $to(&e);
    check(x.into_repr().0 == ints(&e), "four elements become the integer they spell");
    let b = crate::helper::fr_to_biguint(&x);
    for i in 0..4 {
        let w = (&b >> (64 * i)) & num_bigint::BigUint::from(u64::MAX);
        check(w == num_bigint::BigUint::from(ints(&e)[i]), "and the integer of the scalar is that one");
    }
}
/// one word of the integer back as an element
pub fn words() {
    use crate::$m::*;
    let x = $val();
    let v = x.into_repr().0;
    let b = crate::helper::fr_to_biguint(&x);
    for i in 0..4 {
        let w = (&b >> (64 * i)) & num_bigint::BigUint::from(u64::MAX);
        let g = crate::helper::biguint_to_be(&w).as_int();
        check(g == if v[i] >= P { v[i] - P } else { v[i] }, "a word of a scalar as an element of the base field");
    }
}
fn near_outer(mask: u64) -> crate::$m::Fr {
    use crate::$m::*;
    let m = Fr::char().0;
    let d = u8_() as u64 & if mask == 0 { 7 } else { 255 };
    let w = match choose(if mask == 0 { 3 } else { 4 }) {
        0 => [d, 0, 0, 0],
        1 => [996 + d, 0, 0, 0],
        2 => [m[0] - 1 - choose(4) as u64, m[1], m[2], m[3]],
        _ => [d & mask, 1, 0, 0],
    };
    assume(below(&w, &m));
    Fr::from_repr(FrRepr(w)).unwrap()
}
pub fn scalar_json(mask: u64) {
    json(&near_outer(mask), "a scalar survives its JSON form");
}
pub fn digest_json(mask: u64) {
    let x = near_outer(mask);
    for w in x.into_raw_repr().0 {
        assume(w < P);
    }
    let d: ElementDigest<4, crate::$m::Fr> = ElementDigest::from_scalar(&x);
    json(&d, "a digest survives its JSON form");
}
} }
mod outer_bn {
    use super::*;
    outer!(field_bn128, bn_raw, bn, to_bn128);
}
mod outer_bls {
    use super::*;
    outer!(field_bls12381, bls_raw, bls, to_bls12381);
}
macro_rules! cases { ($($name:ident = $f:expr;)*) => { $(pub fn $name() { $f })* } }
cases! {
    p19_bn_digest = outer_bn::digest();
    p19_bn_scalar = outer_bn::scalar();
    p19_bn_any_scalar = outer_bn::any_scalar();
    p19_bn_integer = outer_bn::integer();
    p19_bn_words = outer_bn::words();
    p19_bn_json = outer_bn::scalar_json(0);
    p19_bn_json_deep = outer_bn::scalar_json(15);
    p19_bn_json_digest = outer_bn::digest_json(0);
    p19_bn_json_digest_deep = outer_bn::digest_json(15);
    p19_bls_digest = outer_bls::digest();
    p19_bls_scalar = outer_bls::scalar();
    p19_bls_any_scalar = outer_bls::any_scalar();
    p19_bls_integer = outer_bls::integer();
    p19_bls_words = outer_bls::words();
    p19_bls_json = outer_bls::scalar_json(0);
    p19_bls_json_deep = outer_bls::scalar_json(15);
    p19_bls_json_digest = outer_bls::digest_json(0);
    p19_bls_json_digest_deep = outer_bls::digest_json(15);
}

/// digests of the base field: new keeps the first four, whatever follows
pub fn p19_gl_digest() {
    let e = four();
    let d: ElementDigest<4, FGL> = ElementDigest::new(&e);
    check(ints(d.as_elements()) == ints(&e), "a digest keeps its four elements");
    check(d.is_dim_1() == ((e[1].as_int() | e[2].as_int() | e[3].as_int()) == 0), "a digest is one-dimensional if the last three are zero");
    let more = [e[0], e[1], e[2], e[3], fe()];
    let d2: ElementDigest<4, FGL> = ElementDigest::new(&more);
    check(d == d2, "more elements than four do not matter");
    let g = four();
    let d3: ElementDigest<4, FGL> = ElementDigest::new(&g);
    check((d == d3) == (ints(&e) == ints(&g)), "equal digests have equal elements");
    check(ElementDigest::<4, FGL>::default() == ElementDigest::new(&[FGL::ZERO; 4]), "the default digest is zero");
}

/// a number of up to three digits at one of several places of the range of T
fn near(k: usize, mask: u64) -> u64 {
    let d = u8_() as u64 & mask;
    let v = AT[k % AT.len()] + d;
    assume(v < P);
    v
}
const AT: [u64; 4] = [0, 900, (1 << 32) - 128, P - 256];
fn el(v: u64) -> FGL {
    FGL::from_repr(fields::field_gl::FrRepr([v])).unwrap()
}
fn json<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(x: &T, what: &str) {
    let s = serde_json::to_string(x).unwrap();
    let y: T = serde_json::from_str(&s).unwrap();
    check(*x == y, what);
    mark(s.len() as u64);
}
pub fn p19_json_gl_dim1() {
    let x: ElementDigest<4, FGL> = ElementDigest::new(&[el(near(choose(4), 255)), FGL::ZERO, FGL::ZERO, FGL::ZERO]);
    json(&x, "a digest survives its JSON form");
}
pub fn p19_json_gl_one() {
    gl_one(15)
}
pub fn p19_json_gl_one_deep() {
    gl_one(255)
}
fn gl_one(mask: u64) {
    let mut e = [el(5), FGL::ZERO, el(u64::MAX >> 3), FGL::ZERO];
    let k = choose(4);
    e[k] = el(near(k % 3, mask));
    let x: ElementDigest<4, FGL> = ElementDigest::new(&e);
    json(&x, "a digest survives its JSON form");
}
pub fn p19_json_gl_last() {
    gl_last(15)
}
pub fn p19_json_gl_last_deep() {
    gl_last(255)
}
fn gl_last(mask: u64) {
    let mut e = [FGL::ZERO; 4];
    e[choose(4)] = el(near(0, mask));
    let x: ElementDigest<4, FGL> = ElementDigest::new(&e);
    json(&x, "a digest survives its JSON form");
}
pub fn p19_json_f3g() {
    f3g(15)
}
pub fn p19_json_f3g_deep() {
    f3g(255)
}
fn f3g(mask: u64) {
    let mut e = [el(5), FGL::ZERO, el(u64::MAX >> 3)];
    let k = choose(3);
    e[k] = el(near(k % 3, mask));
    json(&F3G::from_vec(e.to_vec()), "a cubic element survives its JSON form");
}
pub fn p19_json_f3g_base() {
    json(&F3G::from(el(near(choose(4), 255))), "a base element survives its JSON form");
}
pub fn p19_json_f5g() {
    f5g(3)
}
pub fn p19_json_f5g_deep() {
    f5g(255)
}
fn f5g(mask: u64) {
    let mut e = [el(5), FGL::ZERO, el(u64::MAX >> 3), FGL::ZERO, el(77)];
    let k = choose(5);
    e[k] = el(near(k % 3, mask));
    json(&F5G::from_vec(e.to_vec()), "a quintic element survives its JSON form");
}
pub fn p19_json_f5g_base() {
    json(&F5G::from(el(near(choose(4), 255))), "a base element survives its JSON form");
}
