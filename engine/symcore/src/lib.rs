extern crate ff;
pub mod coef;
pub mod ctx;
pub mod smt;
pub mod store;
