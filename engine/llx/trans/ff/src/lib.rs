//! ff_ce with `derive(PrimeField)` of the checked sources replaced by a model of the derived field
pub use ff_real::*;
pub use plain::PrimeField;
pub mod real {
    pub use ff_real::PrimeField;
}
