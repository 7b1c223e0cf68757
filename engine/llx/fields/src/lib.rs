extern crate rand;
pub mod field_gl;
pub use crate::ff::*;
pub extern crate ff;
