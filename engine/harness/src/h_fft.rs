//! P04: the transforms against the definition of the discrete Fourier transform.
use crate::sx::*;
use starky::fft::FFT;
use starky::fft_p;
use starky::polutils::{extend_pol, eval_pol};
use starky::traits::FieldExtension;

const TWO_ADICITY: u32 = 32;
const GEN: u64 = 7;
const SHIFT: u64 = 49;

/// primitive 2^b-th root of unity: 7^((p-1)/2^b)
fn root(b: usize) -> GL {
    let mut w = c(GEN);
    // 7^(2^32-1), then square up to the wanted order
    let mut acc = one();
    for _ in 0..32 {
        acc = acc * w;
        w = w * w;
    }
    let mut r = acc;
    for _ in 0..(TWO_ADICITY as usize - b) {
        r = r * r;
    }
    r
}
fn emb<F: FieldExtension>(x: GL) -> F {
    F::from(x)
}
/// definition: sum_j p_j w^(ij)
fn naive<F: FieldExtension>(p: &[F], b: usize) -> Vec<F> {
    let n = p.len();
    let w = root(b);
    let mut wi = one();
    (0..n)
        .map(|_| {
            let mut x = one();
            let mut s = F::ZERO;
            for pj in p {
                s = s + *pj * emb::<F>(x);
                x = x * wi;
            }
            wi = wi * w;
            s
        })
        .collect()
}
/// textbook divide and conquer (checked against `naive` below), natural order
fn dft<F: FieldExtension>(p: &[F], b: usize) -> Vec<F> {
    if b == 0 {
        return p.to_vec();
    }
    let ev: Vec<F> = p.iter().step_by(2).copied().collect();
    let od: Vec<F> = p.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (dft(&ev, b - 1), dft(&od, b - 1));
    let h = p.len() / 2;
    let w = root(b);
    let mut x = one();
    let mut r = vec![F::ZERO; 2 * h];
    for i in 0..h {
        let t = o[i] * emb::<F>(x);
        r[i] = e[i] + t;
        r[i + h] = e[i] - t;
        x = x * w;
    }
    r
}
fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// kinds of columns
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Base,
    Full,
    /// element e = c_e * y_h(e), 16 symbolic y
    Fam,
}
fn cols<F: FieldExtension>(k: K, n: usize, n_pols: usize, deg: usize) -> Vec<F> {
    let y: Vec<GL> = if k == K::Fam { gls("y", 16) } else { vec![] };
    (0..n * n_pols)
        .map(|e| match k {
            K::Base => emb::<F>(gl(&format!("x{e}"))),
            K::Full => F::from_vec((0..deg).map(|d| gl(&format!("x{e}.{d}"))).collect()),
            K::Fam => {
                let h = mix(e as u64);
                emb::<F>(c(h >> 1) * y[(h & 15) as usize])
            }
        })
        .collect()
}
fn col<F: FieldExtension>(b: &[F], n_pols: usize, k: usize) -> Vec<F> {
    b.iter().skip(k).step_by(n_pols).copied().collect()
}
fn coset<F: FieldExtension>(coef: &[F], bext: usize) -> Vec<F> {
    let mut v = coef.to_vec();
    let mut s = one();
    for x in v.iter_mut() {
        *x = *x * emb::<F>(s);
        s = s * c(SHIFT);
    }
    v.resize(1 << bext, F::ZERO);
    dft(&v, bext)
}

fn serial<F: FieldExtension + Val>(h: &mut H, f: &str, deg: usize, nb: usize, k: K) {
    h.case(&format!("{f}.serial.{k:?}.{nb}"), || {
        let p = cols::<F>(k, 1 << nb, 1, deg);
        let mut s = FFT::<F>::new();
        let e = s.fft(&p);
        eq(&e, &dft(&p, nb), "fft");
        eq(&s.ifft(&e), &p, "ifft(fft)");
        eq(&s.fft(&s2(&mut FFT::<F>::new(), &p)), &p, "fft(ifft)");
    });
    fn s2<F: FieldExtension>(s: &mut FFT<F>, p: &[F]) -> Vec<F> {
        s.ifft(p)
    }
}
fn ext_serial<F: FieldExtension + Val>(h: &mut H, f: &str, deg: usize, nb: usize, x: usize, k: K) {
    h.case(&format!("{f}.extend_pol.{k:?}.{nb}+{x}"), || {
        let coef = cols::<F>(k, 1 << nb, 1, deg);
        let ev = dft(&coef, nb);
        eq(&extend_pol(&ev, x), &coset(&coef, nb + x), "extend");
    });
}
fn par<F: FieldExtension + Val>(h: &mut H, f: &str, deg: usize, nb: usize, np: usize, w: usize, k: K) {
    h.case(&format!("{f}.parallel.{k:?}.{nb}x{np}.w{w}"), || {
        num_cpus::set(w);
        let n = 1usize << nb;
        let p = cols::<F>(k, n, np, deg);
        let mut e = vec![F::ZERO; n * np];
        fft_p::fft(&p, np, nb, &mut e);
        for i in 0..np {
            eq(&col(&e, np, i), &dft(&col(&p, np, i), nb), &format!("fft column {i}"));
        }
        let mut b = vec![F::ZERO; n * np];
        fft_p::ifft(&e, np, nb, &mut b);
        eq(&b, &p, "ifft(fft)");
    });
}
fn interp<F: FieldExtension + Val>(h: &mut H, f: &str, deg: usize, nb: usize, x: usize, np: usize, w: usize, k: K) {
    h.case(&format!("{f}.interpolate.{k:?}.{nb}+{x}x{np}.w{w}"), || {
        num_cpus::set(w);
        let n = 1usize << nb;
        let p = cols::<F>(k, n, np, deg);
        let mut ev = vec![F::ZERO; n * np];
        for i in 0..np {
            for (j, v) in dft(&col(&p, np, i), nb).into_iter().enumerate() {
                ev[j * np + i] = v;
            }
        }
        let mut out = vec![F::ZERO; (n << x) * np];
        fft_p::interpolate(&ev, np, nb, &mut out, nb + x);
        for i in 0..np {
            eq(&col(&out, np, i), &coset(&col(&p, np, i), nb + x), &format!("column {i}"));
        }
    });
}

pub fn p04(h: &mut H) {
    let t = h.thorough;
    // the oracle itself
    for nb in 0..=5 {
        h.case(&format!("oracle.{nb}"), || {
            let p = cols::<F3G>(K::Base, 1 << nb, 1, 3);
            eq(&dft(&p, nb), &naive(&p, nb), "divide and conquer = definition");
            // evaluation form: the i-th value is the polynomial at w^i
            let w = root(nb);
            let mut x = one();
            for (i, e) in naive(&p, nb).iter().enumerate() {
                if i < 4 {
                    eq(&eval_pol(&p, &F3G::from(x)), e, "eval");
                }
                x = x * w;
            }
        });
    }
    for nb in 0..=(if t { 9 } else { 7 }) {
        serial::<F3G>(h, "f3", 3, nb, K::Base);
    }
    for nb in 0..=(if t { 6 } else { 4 }) {
        serial::<F3G>(h, "f3", 3, nb, K::Full);
        serial::<F5G>(h, "f5", 5, nb, K::Base);
    }
    for nb in 0..=(if t { 6 } else { 4 }) {
        for x in 0..=3 {
            ext_serial::<F3G>(h, "f3", 3, nb, x, K::Base);
        }
    }
    ext_serial::<F3G>(h, "f3", 3, 2, 2, K::Full);
    serial::<F3G>(h, "f3", 3, 12, K::Fam);
    ext_serial::<F3G>(h, "f3", 3, 9, 2, K::Fam);

    // every small size; the processor count enters the block and chunk sizes
    for nb in 0..=(if t { 8 } else { 6 }) {
        for np in 1..=3 {
            for w in [1, 2, 5] {
                par::<F3G>(h, "f3", 3, nb, np, w, K::Base);
            }
        }
    }
    for nb in 0..=3 {
        par::<F3G>(h, "f3", 3, nb, 2, 3, K::Full);
    }
    par::<F5G>(h, "f5", 5, 3, 2, 3, K::Base);
    for nb in 0..=(if t { 6 } else { 4 }) {
        for x in 0..=3 {
            for np in 1..=3 {
                interp::<F3G>(h, "f3", 3, nb, x, np, [1, 2, 7][np - 1], K::Base);
            }
        }
    }
    interp::<F3G>(h, "f3", 3, 2, 1, 2, 2, K::Full);
    // several blocks per layer, several chunks
    let mut big = vec![(13, 1, 2), (13, 2, 9), (12, 3, 64)];
    if t {
        big.extend([(14, 1, 2), (14, 2, 65), (15, 1, 17), (16, 1, 64), (17, 1, 3)]);
    }
    for (nb, np, w) in big {
        par::<F3G>(h, "f3", 3, nb, np, w, K::Fam);
    }
    let mut big = vec![(12, 1, 1, 2), (13, 1, 1, 3), (11, 2, 2, 64), (2, 1, 4096, 4), (3, 1, 1500, 3), (2, 1, 4096, 5), (3, 1, 1400, 4), (4, 1, 1400, 8), (11, 1, 3, 2)];
    if t {
        big.extend([(13, 2, 1, 64), (14, 1, 1, 2), (12, 1, 4, 8)]);
    }
    for (nb, x, np, w) in big {
        interp::<F3G>(h, "f3", 3, nb, x, np, w, K::Fam);
    }
    // histories: other sizes and index look-ups first, in either order
    for (i, pre) in [vec![(5usize, 3usize)], vec![(33, 5), (3, 2), (5, 2)], vec![(0, 4), (17, 4), (18, 4)]].into_iter().enumerate() {
        h.case(&format!("history.{i}"), || {
            num_cpus::set(4);
            for (x, b) in &pre {
                fft_p::BR(*x, *b);
            }
            for nb in [4usize, 2, 5, 3, 4] {
                let p = cols::<F3G>(K::Base, 1 << nb, 1, 3);
                let mut e = vec![F3G::ZERO; 1 << nb];
                fft_p::fft(&p, 1, nb, &mut e);
                eq(&e, &dft(&p, nb), &format!("fft {nb}"));
                let mut o = vec![F3G::ZERO; 2 << nb];
                fft_p::interpolate(&e, 1, nb, &mut o, nb + 1);
                eq(&o, &coset(&p, nb + 1), &format!("interpolate {nb}"));
            }
            let mut s = FFT::<F3G>::new();
            for nb in [3usize, 1, 4, 2] {
                let p = cols::<F3G>(K::Base, 1 << nb, 1, 3);
                eq(&s.fft(&p), &dft(&p, nb), &format!("serial {nb}"));
            }
        });
    }
}
