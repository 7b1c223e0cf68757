//! P10 transcripts: the challenges of every schedule of absorb and squeeze operations.
use crate::sx::*;
use ff::{Field as _, PrimeField as _};
use starky::traits::{MTNodeType, Transcript};
use std::collections::VecDeque;

/// the specified sponge, over any permutation
struct Sponge<F: Copy> {
    state: Vec<F>,
    pending: Vec<F>,
    out: VecDeque<F>,
    /// outer fields: words of the last squeezed element not yet handed out
    words: VecDeque<GL>,
    rate: usize,
    zero: F,
    /// (inputs, state) -> (outputs, next state)
    perm: fn(&[F], &[F]) -> (Vec<F>, Vec<F>),
}
impl<F: Copy> Sponge<F> {
    fn permute(&mut self) {
        self.pending.resize(self.rate, self.zero);
        let (o, s) = (self.perm)(&self.pending, &self.state);
        self.out = o.into();
        self.words.clear();
        self.state = s;
        self.pending.clear();
    }
    fn absorb(&mut self, e: F) {
        self.out.clear();
        self.words.clear();
        self.pending.push(e);
        if self.pending.len() == self.rate {
            self.permute();
        }
    }
    fn squeeze(&mut self) -> F {
        if self.out.is_empty() {
            self.permute();
        }
        self.out.pop_front().unwrap()
    }
}

pub trait Kind {
    type T: Transcript;
    type F: Copy;
    const NAME: &'static str;
    fn sponge() -> Sponge_<Self::F>;
    fn word(s: &mut Sponge_<Self::F>) -> GL;
    /// field elements absorbed for one item of put()
    fn items(e: &[GL]) -> Vec<Self::F>;
    /// low bits of the integer values of n squeezed elements, `per` bits each
    fn bits(s: &mut Sponge_<Self::F>, total: usize) -> Vec<bool>;
    const FULL: usize;
}
pub struct Sponge_<F: Copy>(Sponge<F>);

pub struct Gl_;
impl Kind for Gl_ {
    type T = starky::transcript::TranscriptGL;
    type F = GL;
    const NAME: &'static str = "gl";
    const FULL: usize = 8;
    fn sponge() -> Sponge_<GL> {
        Sponge_(Sponge {
            state: vec![zero(); 4],
            pending: vec![],
            out: VecDeque::new(),
            words: VecDeque::new(),
            rate: 8,
            zero: zero(),
            perm: |p, s| {
                let o = starky::poseidon_opt::Poseidon::new().hash(&p.to_vec(), &[s[0], s[1], s[2], s[3]], 12).unwrap();
                let s = o[..4].to_vec();
                (o, s)
            },
        })
    }
    fn word(s: &mut Sponge_<GL>) -> GL {
        s.0.squeeze()
    }
    fn items(e: &[GL]) -> Vec<GL> {
        e.to_vec()
    }
    fn bits(s: &mut Sponge_<GL>, total: usize) -> Vec<bool> {
        let n = (total - 1) / 63 + 1;
        let v: Vec<GL> = (0..n).map(|_| s.0.squeeze()).collect();
        (0..total).map(|i| bit(num_bigint::BigUint::from(v[i / 63].as_int()), i % 63)).collect()
    }
}
fn bit(v: num_bigint::BigUint, i: usize) -> bool {
    ((v >> i) & num_bigint::BigUint::from(1u32)) == num_bigint::BigUint::from(1u32)
}

macro_rules! outer {
    ($K:ident, $T:ty, $F:ty, $R:path, $P:ty, $name:expr) => {
        pub struct $K;
        impl Kind for $K {
            type T = $T;
            type F = $F;
            const NAME: &'static str = $name;
            const FULL: usize = 16;
            fn sponge() -> Sponge_<$F> {
                Sponge_(Sponge {
                    state: vec![<$F>::zero()],
                    pending: vec![],
                    out: VecDeque::new(),
                    words: VecDeque::new(),
                    rate: 16,
                    zero: <$F>::zero(),
                    perm: |p, s| {
                        let o = <$P>::new().hash_ex(&p.to_vec(), &s[0], 17).unwrap();
                        let s = vec![o[0]];
                        (o, s)
                    },
                })
            }
            fn word(s: &mut Sponge_<$F>) -> GL {
                if s.0.words.is_empty() {
                    let e = s.0.squeeze();
                    let w = e.into_repr().0;
                    for x in &w[..3] {
                        s.0.words.push_back(starky::helper::biguint_to_be(&num_bigint::BigUint::from(*x)));
                    }
                }
                s.0.words.pop_front().unwrap()
            }
            fn items(e: &[GL]) -> Vec<$F> {
                use $R as R;
                if e.len() == 1 {
                    vec![<$F>::from_repr(R([e[0].as_int(), 0, 0, 0])).unwrap()]
                } else {
                    vec![<$F>::from_raw_repr(starky::ElementDigest::<4, $F>::new(e).as_scalar::<$F>()).unwrap()]
                }
            }
            fn bits(s: &mut Sponge_<$F>, total: usize) -> Vec<bool> {
                let n = (total - 1) / 253 + 1;
                let v: Vec<$F> = (0..n).map(|_| s.0.squeeze()).collect();
                (0..total)
                    .map(|i| {
                        let k = i % 253;
                        bit(num_bigint::BigUint::from(v[i / 253].into_repr().0[k / 64]), k % 64)
                    })
                    .collect()
            }
        }
    };
}
outer!(Bn_, starky::transcript_bn128::TranscriptBN128, BN, starky::field_bn128::FrRepr, starky::poseidon_bn128_opt::Poseidon, "bn128");
outer!(Bls_, starky::transcript_bls12381::TranscriptBLS128, BLS, starky::field_bls12381::FrRepr, starky::poseidon_bls12381_opt::Poseidon, "bls12381");

/// a: absorb one element; d: absorb a four-element item; c: absorb one less than the rate; f: absorb exactly the rate;
/// g: squeeze one; G: squeeze an extension element; q: squeeze 11; w: query positions (2 x 1 bit)
fn schedule<K: Kind>(h: &mut H, s: &str) {
    h.case_with(&format!("{}.{s}", K::NAME), Opts { as_int: true, ..Opts::default() }, || {
        let mut t = K::T::new();
        let mut u = K::T::new();
        let mut m = K::sponge();
        let mut k = 0;
        let mut next = |n: usize| -> Vec<GL> {
            k += n;
            (k - n..k).map(|i| gl(&format!("e{i}"))).collect()
        };
        let put = |t: &mut K::T, u: &mut K::T, m: &mut Sponge_<K::F>, items: Vec<Vec<GL>>| {
            // all at once, and one by one
            t.put(&items).unwrap();
            for i in &items {
                u.put(&[i.clone()]).unwrap();
                for e in K::items(i) {
                    m.0.absorb(e);
                }
            }
        };
        for o in s.chars() {
            match o {
                'a' => {
                    let v = next(1);
                    put(&mut t, &mut u, &mut m, vec![v]);
                }
                'd' => {
                    let mut v = next(4);
                    // a digest is below the outer modulus
                    if K::FULL == 16 {
                        v[3] = c(0x1122_3344_5566_7788);
                    }
                    put(&mut t, &mut u, &mut m, vec![v]);
                }
                'c' => {
                    let v = next(K::FULL - 1);
                    put(&mut t, &mut u, &mut m, v.into_iter().map(|x| vec![x]).collect());
                }
                'f' => {
                    let v = next(K::FULL);
                    put(&mut t, &mut u, &mut m, v.into_iter().map(|x| vec![x]).collect());
                }
                'e' => put(&mut t, &mut u, &mut m, vec![]),
                'g' | 'q' => {
                    for _ in 0..(if o == 'g' { 1 } else { 11 }) {
                        let w = K::word(&mut m);
                        eq(&t.get_fields1().unwrap(), &w, "squeezed");
                        eq(&u.get_fields1().unwrap(), &w, "squeezed, one by one");
                    }
                }
                'G' => {
                    let w = [K::word(&mut m), K::word(&mut m), K::word(&mut m)];
                    eq(&c3(&t.get_field::<F3G>()).to_vec(), &w.to_vec(), "challenge");
                    eq(&c3(&u.get_field::<F3G>()).to_vec(), &w.to_vec(), "challenge, one by one");
                }
                'w' => {
                    let b = K::bits(&mut m, 2);
                    let p = t.get_permutations(2, 1).unwrap();
                    truth(p == vec![b[0] as usize, b[1] as usize], "positions");
                    let _ = u.get_permutations(2, 1).unwrap();
                }
                _ => unreachable!(),
            }
        }
        // what has been absorbed shows up in the next challenge
        let w = K::word(&mut m);
        eq(&t.get_fields1().unwrap(), &w, "last");
    });
}
fn words(alpha: &str, n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut all = vec![];
    for _ in 0..n {
        v = v.iter().flat_map(|s| alpha.chars().map(move |c| format!("{s}{c}"))).collect();
        all.extend(v.clone());
    }
    all
}
fn kind<K: Kind>(h: &mut H, short: usize) {
    for s in words("adcfgGq", short) {
        schedule::<K>(h, &s);
    }
    for s in ["e", "eg", "ge", "geg", "aeg", "wg", "gwg", "gw", "awG", "wag", "dGGw", "fwag", "Gwdg", "cgcgcg", "aaaaaaaaaaaaaaaaag", "gagagagag", "GdGdGGdGw", "qqqqq", "qqaqq", "fqqfqq", "ffffg", "dddddddddddddddddg"] {
        schedule::<K>(h, s);
    }
}
pub fn p10(h: &mut H) {
    let t = h.thorough;
    kind::<Gl_>(h, if t { 5 } else { 4 });
    kind::<Bn_>(h, if t { 4 } else { 3 });
    kind::<Bls_>(h, if t { 4 } else { 3 });
}
