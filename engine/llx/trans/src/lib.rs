#![allow(dead_code, unused_imports, static_mut_refs, non_snake_case, clippy::all)]
#[macro_use]
extern crate serde_json;
extern crate ff;
extern crate log;
pub mod any;
pub mod inp;

// ---- the real sources
#[path = "@REPO@/starky/src/digest.rs"]
pub mod digest;
#[path = "@REPO@/starky/src/f3g.rs"]
pub mod f3g;
#[path = "@REPO@/starky/src/f5g.rs"]
pub mod f5g;
#[path = "@REPO@/starky/src/field_bls12381.rs"]
pub mod field_bls12381;
#[path = "@REPO@/starky/src/field_bn128.rs"]
pub mod field_bn128;
#[path = "@REPO@/starky/src/helper.rs"]
pub mod helper;
#[path = "serializer.rs"]
pub mod serializer;
#[path = "@REPO@/starky/src/traits.rs"]
pub mod traits;
#[path = "@REPO@/starky/src/transcript.rs"]
pub mod transcript;
#[path = "@REPO@/starky/src/transcript_bls12381.rs"]
pub mod transcript_bls12381;
#[path = "@REPO@/starky/src/transcript_bn128.rs"]
pub mod transcript_bn128;

// ---- stand-ins
pub mod hashes;
pub use hashes::{poseidon_bls12381_opt, poseidon_bn128_opt, poseidon_opt};

mod p11;
mod p19;

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => {
    pub static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    #[cfg(not(feature = "native"))]
    mod entry { $(#[no_mangle] pub extern "C" fn $f() { super::$m::$f() })* }
} }
include!("table.rs");
