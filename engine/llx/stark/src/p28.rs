use crate::inp::*;

pub fn p28_log2_any() {
    let v = u64_();
    assume(v != 0);
    let r = crate::helper::log2_any(v as usize) as u32;
    check(r < 64, "in range");
    check(v >> r == 1, "floor of the logarithm");
}
fn br(d: usize) {
    let x = u64_() as usize;
    assume(x < 1 << d);
    let r = crate::fft_p::BR(x, d);
    let mut k = 0;
    while k < d {
        check((r >> k) & 1 == (x >> (d - 1 - k)) & 1, "bit k is bit d-1-k");
        k += 1;
    }
    check(r >> d == 0, "within its width");
    // asked again, and from its image
    check(crate::fft_p::BR(r, d) == x, "an involution");
    check(crate::fft_p::BR(x, d) == r, "the same when asked again");
}
pub fn p28_br_0() {
    br(0)
}
pub fn p28_br_1() {
    br(1)
}
pub fn p28_br_3() {
    br(3)
}
pub fn p28_br_5() {
    br(5)
}
/// transforms of another size, or a longer range, came first
pub fn p28_br_history() {
    let (y, e) = (u64_() as usize, u64_() as usize);
    assume(y <= 9 && e <= 3);
    crate::fft_p::BR(y, 2 + (e & 1));
    br(2);
    br(3);
}
/// any width asked after any other
pub fn p28_br_widths() {
    let d = choose(4);
    let e = choose(4);
    let y = u64_() as usize;
    assume(y < 1 << d);
    let r = crate::fft_p::BR(y, d);
    br(e);
    check(crate::fft_p::BR(y, d) == r, "the same after reversals of another width");
}
pub fn p28_log2_zero() {
    check(crate::helper::log2_any(0) == 0, "zero, by convention");
}
pub fn p28_get_ks() {
    let n = u64_() as usize;
    assume(n >= 1 && n <= 4);
    let k = crate::helper::get_ks(n);
    check(k.len() == n, "length");
}
pub fn p28_br_8_deep() {
    br(8)
}
/// big integers to base-field elements: the residue
fn big(n: usize) {
    let mut b = bytes(n);
    if n > 8 {
        // two words: the low one in a window at the top, where the residue wraps
        let k = b[7] & 1;
        b[2..8].copy_from_slice(&[0, 0, if k == 0 { 0 } else { 255 }, 255, 255, 255]);
        b[8] &= 3;
        b[3] = b[2];
    }
    let v = num_bigint::BigUint::from_bytes_le(&b);
    let e = crate::helper::biguint_to_be(&v).as_int();
    let mut w = 0u128;
    let mut i = n;
    while i > 0 {
        i -= 1;
        w = w << 8 | b[i] as u128;
    }
    let p = P as u128;
    // w mod p by subtraction: n <= 8 leaves at most one p; more bytes: p = 2^64 - 2^32 + 1
    let mut r = w;
    if n > 8 {
        let hi = w >> 64;
        r = (w & 0xffff_ffff_ffff_ffff) + hi * 0xffff_ffff;
    }
    while r >= p {
        r -= p;
    }
    check(e as u128 == r, "residue of the big integer");
}
pub fn p28_big_residue_1() {
    big(8)
}
pub fn p28_big_residue_2() {
    big(9)
}
pub fn p28_element_to_big() {
    use ff::PrimeField;
    let x = fe();
    let b = crate::helper::fr_to_biguint(&x);
    check(b.to_u64_digits() == if x.as_int() == 0 { vec![] } else { vec![x.as_int()] }, "the element's integer");
    check(crate::helper::biguint_to_be(&b) == x, "and back");
}
