use crate::any::*;
use crate::inp::WINDOW;
use crate::traits::Transcript;
use ff::PrimeField;

/// positions: bit k of the stream is bit k % w of squeezed word k / w
fn positions(bits: impl Fn(usize) -> u64, got: &[usize], n: usize, nbits: usize) {
    check(got.len() == n, "as many positions as asked for");
    let mut k = 0;
    for i in 0..n {
        let mut a = 0u64;
        for j in 0..nbits {
            a |= bits(k) << j;
            k += 1;
        }
        check(got[i] as u64 == a, "a position is its slice of the squeezed words");
        check(nbits == 64 || (got[i] as u64) >> nbits == 0, "a position is below the domain size");
    }
}
fn gl(skip: usize, n: usize, nbits: usize) {
    unsafe { crate::poseidon_opt::OUT.clear() }
    let mut t = crate::transcript::TranscriptGL::new();
    for _ in 0..skip {
        t.get_fields1().unwrap();
    }
    let got = t.get_permutations(n, nbits).unwrap();
    let w: Vec<u64> = unsafe { crate::poseidon_opt::OUT.iter().map(|x| x.as_int()).collect() };
    positions(|k| (w[skip + k / 63] >> (k % 63)) & 1, &got, n, nbits);
    // the next element squeezed is the next unused one
    let used = skip + (n * nbits + 62) / 63;
    let next = t.get_fields1().unwrap();
    check(unsafe { next == crate::poseidon_opt::OUT[used] }, "whole words are used up, no more and no less");
}
macro_rules! outer { ($g:ident, $t:ty, $m:ident) => {
fn $g(skip: usize, n: usize, nbits: usize) {
    unsafe { crate::$m::OUT.clear() }
    let mut t = <$t>::new();
    // some field elements were squeezed before: three come from each outer element, which is not used again
    for _ in 0..skip {
        t.get_fields1().unwrap();
    }
    let first = (skip + 2) / 3;
    let got = t.get_permutations(n, nbits).unwrap();
    let w: Vec<[u64; 4]> = unsafe { crate::$m::OUT.iter().map(|x| x.into_repr().0).collect() };
    positions(|k| { let b = k % 253; (w[first + k / 253][b / 64] >> (b % 64)) & 1 }, &got, n, nbits);
    // what is squeezed next: the rest of a partly read element, else the next unused one
    let used = first + (n * nbits + 252) / 253;
    let next = t.get_fields1().unwrap();
    let m = 0xFFFF_FFFF_0000_0001u64;
    let (e, k) = if skip % 3 == 0 { (used, 0) } else { (first - 1, skip % 3) };
    let w = unsafe { crate::$m::OUT[e].into_repr().0[k] };
    let w = if w >= m { w - m } else { w };
    check(next.as_int() == w, "whole words are used up, no more and no less");
} } }
outer!(bn, crate::transcript_bn128::TranscriptBN128, poseidon_bn128_opt);
outer!(bls, crate::transcript_bls12381::TranscriptBLS128, poseidon_bls12381_opt);

/// three neighbouring bits arbitrary, around a word's end or the first position's, all others 0 or all 1: whatever the code branches on
fn win(f: fn(usize, usize, usize), per: usize, word: usize, skip: usize, n: usize, nbits: usize) {
    let words = (n * nbits + word - 1) / word;
    let k = choose(words + 1);
    let pos = if k < words { (k + 1) * word } else { nbits } as isize - 2 + choose(2) as isize;
    let first = (skip + per - 1) / per;
    unsafe { WINDOW = Some((-((first * word) as isize), pos, choose(2) == 1)) }
    f(skip, n, nbits);
    unsafe { WINDOW = None }
}
macro_rules! windows { ($($name:ident = $f:ident, $per:expr, $word:expr, $s:expr, $n:expr, $b:expr;)*) => { $(pub fn $name() { win($f, $per, $word, $s, $n, $b) })* } }
windows! {
    p11_gl_window_8x8 = gl, 1, 63, 0, 8, 8;
    p11_gl_window_20x13 = gl, 1, 63, 2, 20, 13;
    p11_bn_window_32x17 = bn, 3, 253, 4, 32, 17;
    p11_bn_window_14x18 = bn, 3, 253, 0, 14, 18;
    p11_bls_window_32x17 = bls, 3, 253, 4, 32, 17;
    p11_bls_window_14x18 = bls, 3, 253, 0, 14, 18;
}
macro_rules! cases { ($($name:ident = $f:ident($s:expr, $n:expr, $b:expr);)*) => { $(pub fn $name() { $f($s, $n, $b) })* } }
cases! {
    p11_gl_1x1 = gl(0, 1, 1);
    p11_gl_8x7 = gl(0, 8, 7);
    p11_gl_3x21 = gl(0, 3, 21);
    p11_gl_4x16 = gl(3, 4, 16);
    p11_gl_2x32 = gl(11, 2, 32);
    p11_gl_7x20 = gl(12, 7, 20);
    p11_gl_63x2 = gl(1, 63, 2);
    p11_gl_1x63 = gl(5, 1, 63);
    p11_gl_40x20 = gl(0, 40, 20);
    p11_gl_128x23_deep = gl(2, 128, 23);
    p11_bn_1x1 = bn(0, 1, 1);
    p11_bn_8x20 = bn(0, 8, 20);
    p11_bn_11x23 = bn(0, 11, 23);
    p11_bn_16x16 = bn(1, 16, 16);
    p11_bn_32x17 = bn(4, 32, 17);
    p11_bn_253x1 = bn(51, 253, 1);
    p11_bn_128x20_deep = bn(2, 128, 20);
    p11_bls_1x1 = bls(0, 1, 1);
    p11_bls_8x20 = bls(0, 8, 20);
    p11_bls_11x23 = bls(0, 11, 23);
    p11_bls_16x16 = bls(1, 16, 16);
    p11_bls_32x17 = bls(4, 32, 17);
    p11_bls_253x1 = bls(51, 253, 1);
    p11_bls_128x20_deep = bls(2, 128, 20);
}
