#![allow(dead_code, unused_imports, static_mut_refs, non_snake_case, clippy::all)]
#[macro_use]
extern crate serde_json;
extern crate ff;
extern crate log;
pub struct Skip;
pub mod any;
pub mod inp;
mod ser;
#[path = "@REPO@/starky/src/polutils.rs"]
pub mod polutils;
#[path = "@REPO@/starky/src/traits.rs"]
pub mod traits;
#[path = "@REPO@/starky/src/types.rs"]
pub mod types;
#[path = "@REPO@/starky/src/f3g.rs"]
pub mod f3g;
#[path = "@REPO@/starky/src/f5g.rs"]
pub mod f5g;
#[path = "@REPO@/starky/src/helper.rs"]
pub mod helper;
#[path = "@REPO@/starky/src/constant.rs"]
pub mod constant;
#[path = "@REPO@/starky/src/fft.rs"]
pub mod fft;
#[path = "@REPO@/starky/src/fft_p.rs"]
pub mod fft_p;
#[path = "@REPO@/starky/src/fft_worker.rs"]
pub mod fft_worker;
#[path = "@REPO@/starky/src/field_bn128.rs"]
pub mod field_bn128;
#[path = "@REPO@/starky/src/field_bls12381.rs"]
pub mod field_bls12381;
#[path = "@REPO@/starky/src/poseidon_bn128.rs"]
pub mod poseidon_bn128;
#[path = "@REPO@/starky/src/poseidon_bn128_constants.rs"]
pub mod poseidon_bn128_constants;
#[path = "@REPO@/starky/src/poseidon_bn128_constants_opt.rs"]
pub mod poseidon_bn128_constants_opt;
#[path = "@REPO@/starky/src/poseidon_bn128_opt.rs"]
pub mod poseidon_bn128_opt;
#[path = "@REPO@/starky/src/poseidon_bls12381.rs"]
pub mod poseidon_bls12381;
#[path = "@REPO@/starky/src/poseidon_bls12381_constants.rs"]
pub mod poseidon_bls12381_constants;
#[path = "@REPO@/starky/src/poseidon_bls12381_constants_opt.rs"]
pub mod poseidon_bls12381_constants_opt;
#[path = "@REPO@/starky/src/poseidon_bls12381_opt.rs"]
pub mod poseidon_bls12381_opt;
#[path = "@REPO@/starky/src/poseidon_opt.rs"]
pub mod poseidon_opt;
#[path = "@REPO@/starky/src/poseidon_constants_opt.rs"]
pub mod poseidon_constants_opt;

mod p03;
mod p28;

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => {
    pub static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    #[cfg(not(feature = "native"))]
    mod entry { $(#[no_mangle] pub extern "C" fn $f() { super::$m::$f() })* }
} }
include!("table.rs");
