extern crate rand;
#[path = "@REPO@/fields/src/field_gl.rs"]
pub mod field_gl;
pub use crate::ff::*;
pub extern crate ff;
