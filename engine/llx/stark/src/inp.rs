pub use crate::any::*;
pub const P: u64 = 0xFFFF_FFFF_0000_0001;
pub fn fe() -> fields::field_gl::Fr {
    let v = u64_();
    assume(v < P);
    use ff::PrimeField;
    fields::field_gl::Fr::from_repr(fields::field_gl::FrRepr([v])).unwrap()
}
