#![allow(dead_code, unused_imports, static_mut_refs, non_snake_case, clippy::all)]
#[macro_use]
extern crate serde;
#[macro_use]
extern crate hex_literal;
extern crate bellpepper_core as bellperson;
extern crate byteorder;
extern crate ff;
extern crate itertools;
extern crate num_bigint;
extern crate num_traits;
extern crate rand;
pub mod any;
pub mod fld;
#[path = "@REPO@/algebraic-gpu/src/circom_circuit.rs"]
pub mod circom_circuit;
#[path = "@REPO@/algebraic-gpu/src/r1cs_file.rs"]
pub mod r1cs_file;
#[path = "@REPO@/algebraic-gpu/src/reader.rs"]
pub mod reader;
#[path = "@REPO@/algebraic-gpu/src/witness/mod.rs"]
pub mod witness;

mod p21;
mod p22;

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => {
    pub static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    #[cfg(not(feature = "native"))]
    mod entry { $(#[no_mangle] pub extern "C" fn $f() { super::$m::$f() })* }
} }
include!("table.rs");
