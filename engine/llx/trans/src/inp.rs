pub use crate::any::*;
pub const P: u64 = 0xFFFF_FFFF_0000_0001;
pub fn fe() -> fields::field_gl::Fr {
    let v = match window(63) { Some(w) => w[0], None => u64_() };
    assume(v < P);
    use ff::PrimeField;
    fields::field_gl::Fr::from_repr(fields::field_gl::FrRepr([v])).unwrap()
}
/// where the next element starts in the stream of bits, where three arbitrary bits are, and what all others are
pub static mut WINDOW: Option<(isize, isize, bool)> = None;
fn window(bits: usize) -> Option<[u64; 4]> {
    let (at, pos, ones) = unsafe { WINDOW }?;
    unsafe { WINDOW = Some((at + bits as isize, pos, ones)) }
    let mut w = [0u64; 4];
    for k in 0..bits {
        w[k / 64] |= (ones as u64) << (k % 64);
    }
    for k in 0..3 {
        let b = pos + k - at;
        if b >= 0 && b < bits as isize {
            let v = u8_();
            assume(v < 2);
            let b = b as usize;
            w[b / 64] = w[b / 64] & !(1 << (b % 64)) | (v as u64) << (b % 64);
        }
    }
    Some(w)
}
pub fn words() -> [u64; 4] {
    [u64_(), u64_(), u64_(), u64_()]
}
/// a < b, without a branch
pub fn below(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut lt = false;
    for i in 0..4 {
        lt = (a[i] < b[i]) | ((a[i] == b[i]) & lt);
    }
    lt
}
macro_rules! outer { ($f:ident, $raw:ident, $m:ident) => {
    /// an element by its value
    pub fn $f() -> crate::$m::Fr {
        use ff::PrimeField;
        let w = window(253).unwrap_or_else(words);
        assume(below(&w, &crate::$m::Fr::char().0));
        crate::$m::Fr::from_repr(crate::$m::FrRepr(w)).unwrap()
    }
    /// an element by the words it is kept in
    pub fn $raw() -> crate::$m::Fr {
        use ff::PrimeField;
        let w = words();
        assume(below(&w, &crate::$m::Fr::char().0));
        crate::$m::Fr(crate::$m::FrRepr(w))
    }
} }
outer!(bn, bn_raw, field_bn128);
outer!(bls, bls_raw, field_bls12381);
