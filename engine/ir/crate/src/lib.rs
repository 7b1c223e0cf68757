#![allow(dead_code, unused_imports, unexpected_cfgs, clippy::all)]
pub use ff;
pub use rand;
#[path = "@REPO@/fields/src/field_gl.rs"]
pub mod field_gl;
#[path = "@OUT@/field_ni.rs"]
pub mod field_ni;
use ff::{Field, PrimeField};

macro_rules! wrap {
    ($($name:ident($($a:ident),*) $body:block)*) => {
        $(#[no_mangle] pub fn $name($($a: u64),*) -> u128 { $body })*
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
        pub fn call(name: &str, v: &[u64]) -> u128 {
            match name { $(stringify!($name) => { let mut _i = v.iter(); $(let $a = *_i.next().unwrap();)* $name($($a),*) })* _ => panic!("no such wrapper") }
        }
    };
}
use field_gl::{Fr, FrRepr};
fn f(a: u64) -> Fr { Fr(FrRepr([a])) }
fn o(a: Fr) -> u128 { (a.0).0[0] as u128 }
fn some(a: Option<Fr>) -> u128 { match a { Some(x) => (1u128 << 64) | o(x), None => 0 } }
fn g(a: u64) -> field_ni::Fr { field_ni::Fr(field_ni::FrRepr([a])) }
fn h(a: field_ni::Fr) -> u128 { (a.0).0[0] as u128 }

wrap! {
    w_one() { o(Fr::one()) }
    w_zero() { o(Fr::zero()) }
    w_const_one() { o(Fr::ONE) }
    w_const_zero() { o(Fr::ZERO) }
    w_default() { o(Fr::default()) }
    w_mul(a, b) { let mut x = f(a); x.mul_assign(&f(b)); o(x) }
    w_op_mul(a, b) { o(f(a) * f(b)) }
    w_square(a) { let mut x = f(a); x.square(); o(x) }
    w_add(a, b) { let mut x = f(a); x.add_assign(&f(b)); o(x) }
    w_op_add(a, b) { o(f(a) + f(b)) }
    w_add_self(a) { o(f(a) + f(a)) }
    w_double(a) { let mut x = f(a); x.double(); o(x) }
    w_sub(a, b) { let mut x = f(a); x.sub_assign(&f(b)); o(x) }
    w_op_sub(a, b) { o(f(a) - f(b)) }
    w_sub_self(a) { o(f(a) - f(a)) }
    w_negate(a) { let mut x = f(a); x.negate(); o(x) }
    w_op_neg(a) { o(-f(a)) }
    w_is_zero(a) { f(a).is_zero() as u128 }
    w_eq(a, b) { (f(a) == f(b)) as u128 }
    w_cmp(a, b) { match f(a).cmp(&f(b)) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 } }
    n_cmp(a, b) { match g(a).cmp(&g(b)) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 } }
    w_frobenius(a, n) { let mut x = f(a); x.frobenius_map(n as usize); o(x) }
    w_from_repr(a) { some(Fr::from_repr(FrRepr([a])).ok()) }
    w_from_raw_repr(a) { some(Fr::from_raw_repr(FrRepr([a])).ok()) }
    w_from_u64(a) { o(Fr::from(a)) }
    w_into_repr(a) { f(a).into_repr().0[0] as u128 }
    w_into_raw_repr(a) { f(a).into_raw_repr().0[0] as u128 }
    w_repr_from(a) { FrRepr::from(f(a)).0[0] as u128 }
    w_as_int(a) { f(a).as_int() as u128 }
    w_to_u64(a) { u64::from(f(a)) as u128 }
    w_char() { Fr::char().0[0] as u128 }
    w_inverse(a) { some(f(a).inverse()) }
    n_inverse(a) { match g(a).inverse() { Some(x) => (1u128 << 64) | h(x), None => 0 } }
    n_div(a, b) { h(g(a) / g(b)) }
    n_exp(a, e) { h(g(a).exp(e)) }
    n_pow(a, e) { h(g(a).pow([e])) }
    w_exp(a, e) { o(f(a).exp(e)) }
    w_div(a, b) { o(f(a) / f(b)) }
    w_num_bits() { Fr::NUM_BITS as u128 }
    w_capacity() { Fr::CAPACITY as u128 }
    w_s() { Fr::S as u128 }
    w_root() { o(Fr::root_of_unity()) }
    w_generator() { o(Fr::multiplicative_generator()) }
}
