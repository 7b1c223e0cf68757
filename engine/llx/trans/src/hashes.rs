//! permutations stand in as arbitrary functions: every output is an arbitrary element, recorded in order
macro_rules! stub { ($m:ident, $f:ident, $fe:ty, $st:ty, $any:expr) => {
    pub mod $m {
        pub static mut OUT: Vec<$fe> = Vec::new();
        pub struct Poseidon;
        impl Poseidon {
            pub fn new() -> Self { Poseidon }
            pub fn $f(&self, _inp: &[$fe], _st: &$st, n: usize) -> anyhow::Result<Vec<$fe>> {
                let mut r = Vec::new();
                for _ in 0..n {
                    let x = $any;
                    r.push(x);
                    unsafe { OUT.push(x) }
                }
                Ok(r)
            }
        }
    }
}; }
stub!(poseidon_opt, hash, fields::field_gl::Fr, [fields::field_gl::Fr], crate::inp::fe());
stub!(poseidon_bn128_opt, hash_ex, crate::field_bn128::Fr, crate::field_bn128::Fr, crate::inp::bn());
stub!(poseidon_bls12381_opt, hash_ex, crate::field_bls12381::Fr, crate::field_bls12381::Fr, crate::inp::bls());
