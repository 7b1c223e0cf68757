//! P05, P06: the optimised permutations against the plain round-by-round ones.
use crate::gl_rc::*;
use crate::sx::*;
use ff::{Field as _, PrimeField as _};
use starky::poseidon_opt::Poseidon;

fn pow7(x: GL) -> GL {
    let x2 = x * x;
    let x4 = x2 * x2;
    x4 * x2 * x
}
/// plain Poseidon: 4 full, 22 partial, 4 full rounds; add constants, S-box, MDS
pub fn gl_permute(s: &[GL]) -> Vec<GL> {
    let mut s = s.to_vec();
    for r in 0..30 {
        for i in 0..12 {
            s[i] = s[i] + c(RC[r * 12 + i]);
        }
        if r < 4 || r >= 26 {
            for x in s.iter_mut() {
                *x = pow7(*x);
            }
        } else {
            s[0] = pow7(s[0]);
        }
        s = (0..12)
            .map(|i| {
                let mut a = s[i] * c(MDS_DIAG[i]);
                for j in 0..12 {
                    a = a + s[(i + j) % 12] * c(MDS_CIRC[j]);
                }
                a
            })
            .collect();
    }
    s
}

pub fn p05(h: &mut H) {
    for out in 0..=12 {
        h.case(&format!("gl.hash.out{out}"), || {
            let inp = gls("x", 8);
            let cap = gls("c", 4);
            let st: Vec<GL> = inp.iter().chain(cap.iter()).copied().collect();
            let want = gl_permute(&st);
            let p = Poseidon::new();
            let got = p.hash(&inp, &cap, out).unwrap();
            eq(&got, &want[..out].to_vec(), "permutation");
            // a pure function: the same call again, and after another one
            let _ = p.hash(&gls("other", 8), &cap, 4).unwrap();
            eq(&Poseidon::new().hash(&inp, &cap, out).unwrap(), &got, "again");
            eq(&p.hash(&inp, &cap, out).unwrap(), &got, "again, same object");
        });
    }
    // partly concrete states take the same path
    for k in 0..3 {
        h.case(&format!("gl.hash.mixed{k}"), || {
            let mut st = gls("x", 12);
            for i in 0..12 {
                if (i + k) % 3 == 0 {
                    st[i] = c([0, 1, 0xffff_ffff_0000_0000][(i / 3) % 3]);
                }
            }
            let got = Poseidon::new().hash(&st[..8], &st[8..], 12).unwrap();
            eq(&got, &gl_permute(&st), "permutation");
        });
    }
    for n in 0..=16 {
        for m in 0..=6 {
            if n == 8 && m == 4 {
                continue;
            }
            h.case(&format!("gl.length.{n}.{m}"), || {
                truth(Poseidon::new().hash(&gls("x", n), &gls("c", m), 4).is_err(), "rejected");
            });
        }
    }
    // a chain of hashes is the composition
    h.case("gl.compose", || {
        let inp = gls("x", 8);
        let a = Poseidon::new().hash(&inp, &gls("c", 4), 4).unwrap();
        let b = gls("d", 4);
        let x: Vec<GL> = a.iter().chain(b.iter()).copied().collect();
        let got = Poseidon::new().hash(&x, &[zero(); 4], 12).unwrap();
        let mut st = x.clone();
        st.extend([zero(); 4]);
        eq(&got, &gl_permute(&st), "second");
    });
}

/// Grain generator of the Poseidon paper: 80-bit register, self-shrinking output
struct Grain(u128);
impl Grain {
    fn new(sbox: u128, bits: u128, t: u128, rp: u128) -> Grain {
        let mut v = 0u128;
        for (x, n) in [(1, 2), (sbox, 4), (bits, 12), (t, 12), (8, 10), (rp, 10), ((1 << 30) - 1, 30)] {
            v = (v << n) | x;
        }
        // bit 79 is the oldest
        let mut g = Grain(v);
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> u128 {
        let b = |i: u32| (self.0 >> (79 - i)) & 1;
        let n = b(62) ^ b(51) ^ b(38) ^ b(23) ^ b(13) ^ b(0);
        self.0 = ((self.0 << 1) | n) & ((1 << 80) - 1);
        n
    }
    fn bit(&mut self) -> u128 {
        loop {
            let (a, b) = (self.raw(), self.raw());
            if a == 1 {
                return b;
            }
        }
    }
    fn limbs(&mut self, n: u32) -> [u64; 4] {
        let mut r = [0u64; 4];
        for _ in 0..n {
            let mut carry = self.bit() as u64;
            for x in r.iter_mut() {
                let c = *x >> 63;
                *x = (*x << 1) | carry;
                carry = c;
            }
        }
        r
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Mds {
    /// drawn from the same generator (circomlib)
    Grain,
    /// 1/(i + t + j) (Neptune)
    Cauchy,
}

macro_rules! outer {
    ($name:ident, $F:ty, $R:path, $var:path, $refm:ident, $optm:ident, $bits:expr,
     $rp:expr, ($osbox:expr, $orp:expr, $omds:expr, $pick:expr)) => {
        mod $name {
            use super::*;
            use $R as Repr;
            fn num(v: u64) -> $F {
                <$F>::from_repr(Repr([v, 0, 0, 0])).unwrap()
            }
            /// round constants and matrix by the specification
            fn params(sbox: u128, t: usize, rp: usize, mds: Mds) -> (Vec<$F>, Vec<Vec<$F>>) {
                let mut g = Grain::new(sbox, $bits, t as u128, rp as u128);
                let mut k = vec![];
                while k.len() < (8 + rp) * t {
                    if let Ok(x) = <$F>::from_repr(Repr(g.limbs($bits))) {
                        k.push(x);
                    }
                }
                let pt: Vec<$F> = match mds {
                    Mds::Cauchy => (0..2 * t as u64).map(num).collect(),
                    Mds::Grain => (0..2 * t)
                        .map(|_| {
                            // reduced modulo p, not rejected
                            let l = g.limbs($bits);
                            let mut a = num(0);
                            for w in l.iter().rev() {
                                for sh in [32, 0] {
                                    for _ in 0..32 {
                                        a.double();
                                    }
                                    a.add_assign(&num((w >> sh) & 0xffff_ffff));
                                }
                            }
                            a
                        })
                        .collect(),
                };
                let m = (0..t)
                    .map(|i| {
                        (0..t)
                            .map(|j| {
                                let mut x = pt[i];
                                x.add_assign(&pt[t + j]);
                                x.inverse().unwrap()
                            })
                            .collect()
                    })
                    .collect();
                (k, m)
            }
            /// 8 full rounds around rp partial ones, x^5
            fn plain(s: &[$F], rp: usize, k: &[$F], m: &[Vec<$F>]) -> Vec<$F> {
                let t = s.len();
                let mut s = s.to_vec();
                for r in 0..8 + rp {
                    for i in 0..t {
                        s[i].add_assign(&k[r * t + i]);
                    }
                    let full = r < 4 || r >= 4 + rp;
                    for i in 0..(if full { t } else { 1 }) {
                        let x = s[i];
                        s[i].square();
                        s[i].square();
                        s[i].mul_assign(&x);
                    }
                    s = (0..t)
                        .map(|i| {
                            let mut a = num(0);
                            for j in 0..t {
                                let mut x = m[i][j];
                                x.mul_assign(&s[j]);
                                a.add_assign(&x);
                            }
                            a
                        })
                        .collect();
                }
                s
            }
            fn state(n: usize, init: bool) -> (Vec<$F>, $F, Vec<$F>) {
                let inp: Vec<$F> = (0..n).map(|i| $var(&format!("x{i}"))).collect();
                let i0 = if init { $var("init") } else { num(0) };
                let mut s = vec![i0];
                s.extend(inp.iter().copied());
                (inp, i0, s)
            }
            pub fn run(h: &mut H) {
                const RP: [usize; 16] = $rp;
                const ORP: [usize; 16] = $orp;
                for n in 1..=16usize {
                    let t = n + 1;
                    for init in [true, false] {
                        let nm = if init { "" } else { ".zero" };
                        h.case(&format!("{}.reference.{n}{nm}", stringify!($name)), || {
                            let (k, m) = params(0, t, RP[n - 1], Mds::Grain);
                            let (inp, i0, s) = state(n, init);
                            let s = plain(&s, RP[n - 1], &k, &m);
                            #[allow(deprecated)]
                            let r = starky::$refm::Poseidon::new();
                            for out in [t, 1] {
                                eq(&r.hash_ex(&inp, &i0, out).unwrap(), &s[..out].to_vec(), "state");
                            }
                            eq(&r.hash(&inp, &i0).unwrap(), &s[0], "hash");
                        });
                        h.case(&format!("{}.optimised.{n}{nm}", stringify!($name)), || {
                            let (k, m) = params($osbox, t, ORP[n - 1], $omds);
                            let (inp, i0, s) = state(n, init);
                            let s = plain(&s, ORP[n - 1], &k, &m);
                            let o = starky::$optm::Poseidon::new();
                            for out in [t, 1, t] {
                                eq(&o.hash_ex(&inp, &i0, out).unwrap(), &s[..out].to_vec(), "state");
                            }
                            eq(&o.hash(&inp, &i0).unwrap(), &s[$pick], "hash");
                        });
                    }
                }
                for n in [0usize, 17, 18, 32] {
                    h.case(&format!("{}.reject.{n}", stringify!($name)), || {
                        let (inp, init, _) = state(n, true);
                        #[allow(deprecated)]
                        let r = starky::$refm::Poseidon::new();
                        let o = starky::$optm::Poseidon::new();
                        truth(r.hash(&inp, &init).is_err(), "reference");
                        truth(r.hash_ex(&inp, &init, 1).is_err(), "reference ex");
                        truth(o.hash(&inp, &init).is_err(), "optimised");
                        truth(o.hash_ex(&inp, &init, 1).is_err(), "optimised ex");
                    });
                }
            }
        }
    };
}
outer!(bn128, BN, starky::field_bn128::FrRepr, bn, poseidon_bn128, poseidon_bn128_opt, 254,
    [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68],
    (0, [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68], Mds::Grain, 0));
// the optimised BLS hash is Neptune's: its own parameters, and the second state element is the digest
outer!(bls12381, BLS, starky::field_bls12381::FrRepr, bls, poseidon_bls12381, poseidon_bls12381_opt, 255,
    [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68],
    (1, [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59], Mds::Cauchy, 1));

pub fn p06(h: &mut H) {
    bn128::run(h);
    bls12381::run(h);
}
