extern crate rand;
pub extern crate ff;
pub mod field_gl;
pub use crate::ff::*;
