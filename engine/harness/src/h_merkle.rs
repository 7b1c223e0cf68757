//! P07 leaf hashing, P08 openings of committed trees, P09 what an accepted opening implies.
use crate::sx::*;
use ff::{Field as _, PrimeField as _};
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{MTNodeType, MerkleTree};
use starky::{linearhash::LinearHash, linearhash_bls12381::LinearHashBLS12381, linearhash_bn128::LinearHashBN128};
type E4<F> = starky::ElementDigest<4, F>;

/// what the specification of a back end says
pub trait Spec: MerkleTree {
    const NAME: &'static str;
    const ARITY: usize;
    fn leaf(row: &[GL]) -> Self::MTNode;
    /// parent of a full group of children
    fn node(ch: &[Self::MTNode]) -> Self::MTNode;
    fn zero_node() -> Self::MTNode {
        Self::MTNode::new(&[zero(); 4])
    }
    /// children in order, given the path entry and the child at position pos
    fn group(me: &Self::MTNode, pos: usize, sib: &[Self::BaseField]) -> Vec<Self::MTNode>;
    fn sym_path(name: &str) -> Vec<Self::BaseField>;
    /// the code's own leaf functions, prover and verifier side
    fn code_leaves(row: &[GL]) -> Vec<Self::MTNode>;
}

/// 8 elements per permutation, capacity = previous output, zero padding; up to 4 elements are their own digest
pub fn gl_sponge(v: &[GL]) -> [GL; 4] {
    let mut st = [zero(); 4];
    if v.len() <= 4 {
        st[..v.len()].copy_from_slice(v);
        return st;
    }
    for ch in v.chunks(8) {
        let mut b = ch.to_vec();
        b.resize(8, zero());
        let n = starky::poseidon_opt::Poseidon::new().hash(&b, &st, 4).unwrap();
        st.copy_from_slice(&n);
    }
    st
}
/// rows are cut into at most four (or 8-element) pieces whose digests are hashed again
pub fn gl_leaf(v: &[GL], batch: usize) -> [GL; 4] {
    if v.len() <= 4 {
        return gl_sponge(v);
    }
    let bs = if batch == 0 { std::cmp::max(8, (v.len() + 3) / 4) } else { batch };
    let h: Vec<GL> = v.chunks(bs).flat_map(|x| gl_sponge(x)).collect();
    gl_sponge(&h)
}

impl Spec for MerkleTreeGL {
    const NAME: &'static str = "gl";
    const ARITY: usize = 2;
    fn leaf(row: &[GL]) -> Self::MTNode {
        Self::MTNode::new(&gl_leaf(row, 0))
    }
    fn node(ch: &[Self::MTNode]) -> Self::MTNode {
        let v: Vec<GL> = ch.iter().flat_map(|c| c.as_elements().to_vec()).collect();
        Self::MTNode::new(&gl_sponge(&v))
    }
    fn group(me: &Self::MTNode, pos: usize, sib: &[GL]) -> Vec<Self::MTNode> {
        let s = Self::MTNode::new(sib);
        if pos == 0 { vec![*me, s] } else { vec![s, *me] }
    }
    fn sym_path(name: &str) -> Vec<GL> {
        gls(name, 4)
    }
    fn code_leaves(row: &[GL]) -> Vec<Self::MTNode> {
        let h = LinearHash::new();
        let mut v = vec![h.hash(row, 0).unwrap()];
        if !row.is_empty() {
            v.push(h.hash_element_matrix(&[row.to_vec()], 0).unwrap());
            if row.len() % 2 == 0 {
                let (a, b) = row.split_at(row.len() / 2);
                v.push(h.hash_element_matrix(&[a.to_vec(), b.to_vec()], 0).unwrap());
            }
        }
        v
    }
}

macro_rules! outer {
    ($T:ty, $F:ty, $R:path, $L:ty, $name:expr, $var:path, $P:path) => {
        impl Spec for $T {
            const NAME: &'static str = $name;
            const ARITY: usize = 16;
            /// three elements to a word, sixteen words to a permutation, chained; a single word is its own digest
            fn leaf(row: &[GL]) -> Self::MTNode {
                use $R as R;
                let two64 = <$F>::from_repr(R([0, 1, 0, 0])).unwrap();
                let words: Vec<$F> = row
                    .chunks(3)
                    .map(|g| {
                        let mut a = <$F>::zero();
                        for x in g.iter().rev() {
                            a.mul_assign(&two64);
                            a.add_assign(&<$F>::from_repr(R([x.as_int(), 0, 0, 0])).unwrap());
                        }
                        a
                    })
                    .collect();
                let mut st = <$F>::zero();
                if words.len() == 1 {
                    st = words[0];
                } else {
                    for g in words.chunks(16) {
                        st = <$P>::new().hash(g, &st).unwrap();
                    }
                }
                Self::MTNode::from_scalar(&st)
            }
            fn node(ch: &[Self::MTNode]) -> Self::MTNode {
                let v: Vec<$F> = ch.iter().map(|c| <$F>::from_raw_repr(c.as_scalar::<$F>()).unwrap()).collect();
                Self::MTNode::from_scalar(&<$P>::new().hash(&v, &<$F>::zero()).unwrap())
            }
            fn group(me: &Self::MTNode, pos: usize, sib: &[$F]) -> Vec<Self::MTNode> {
                (0..16).map(|i| if i == pos { *me } else { Self::MTNode::from_scalar(&sib[i]) }).collect()
            }
            fn sym_path(name: &str) -> Vec<$F> {
                (0..16).map(|i| $var(&format!("{name}{i}"))).collect()
            }
            fn code_leaves(row: &[GL]) -> Vec<Self::MTNode> {
                let h = <$L>::new();
                let mut v = vec![h.hash_element_array(row).unwrap()];
                let m = |x: &[Vec<GL>]| Self::MTNode::from_scalar(&h.hash_element_matrix(x).unwrap());
                v.push(m(&[row.to_vec()]));
                v.push(m(&row.iter().map(|x| vec![*x]).collect::<Vec<_>>()));
                let (a, b) = row.split_at(row.len() / 2);
                v.push(m(&[a.to_vec(), b.to_vec()]));
                v
            }
        }
    };
}
outer!(MerkleTreeBN128, BN, starky::field_bn128::FrRepr, LinearHashBN128, "bn128", bn, starky::poseidon_bn128_opt::Poseidon);
outer!(MerkleTreeBLS12381, BLS, starky::field_bls12381::FrRepr, LinearHashBLS12381, "bls12381", bls, starky::poseidon_bls12381_opt::Poseidon);

fn el<T: Spec>(n: &T::MTNode) -> Vec<GL> {
    n.as_elements().to_vec()
}
pub fn spec_root<T: Spec>(leaves: &[T::MTNode]) -> T::MTNode {
    let mut v = leaves.to_vec();
    while v.len() > 1 {
        while v.len() % T::ARITY != 0 {
            v.push(T::zero_node());
        }
        v = v.chunks(T::ARITY).map(|g| T::node(g)).collect();
    }
    v[0]
}
pub fn spec_fold<T: Spec>(leaf: &T::MTNode, mut idx: usize, path: &[Vec<T::BaseField>]) -> T::MTNode {
    let mut me = *leaf;
    for s in path {
        me = T::node(&T::group(&me, idx % T::ARITY, s));
        idx /= T::ARITY;
    }
    me
}
fn depth<T: Spec>(h: usize) -> usize {
    let (mut d, mut n) = (0, h);
    while n > 1 {
        n = (n + T::ARITY - 1) / T::ARITY;
        d += 1;
    }
    d
}

fn big() -> Opts {
    Opts { as_int: true, ..Opts::default() }
}

fn leaf_cases<T: Spec>(h: &mut H, widths: &[usize]) {
    for &w in widths {
        h.case_with(&format!("{}.leaf.{w}", T::NAME), big(), || {
            let row = gls("r", w);
            let want = T::leaf(&row);
            for (i, l) in T::code_leaves(&row).iter().enumerate() {
                eq(&el::<T>(l), &el::<T>(&want), &format!("form {i}"));
            }
        });
    }
}
pub fn p07(h: &mut H) {
    let t = h.thorough;
    let mut w: Vec<usize> = (0..=40).collect();
    w.extend([47, 48, 49, 64, 65, 95, 96, 97, 144, 145]);
    if t {
        w.extend(50..=64);
        w.extend(66..=110);
        w.extend([200, 257, 512, 513]);
    }
    leaf_cases::<MerkleTreeGL>(h, &w);
    leaf_cases::<MerkleTreeBN128>(h, &w);
    leaf_cases::<MerkleTreeBLS12381>(h, &w);
    for &(w, b) in &[(5, 1), (5, 4), (9, 3), (16, 5), (17, 8), (24, 8), (33, 16), (40, 7), (12, 100), (4, 2)] {
        h.case(&format!("gl.batch.{w}.{b}"), || {
            let row = gls("r", w);
            eq(&LinearHash::new().hash(&row, b).unwrap().as_elements().to_vec(), &gl_leaf(&row, b).to_vec(), "batch");
        });
    }
    // four words whose concatenation is not below the outer modulus, widths at the packing limits, extreme values
    for (k, top) in [0xffff_ffff_0000_0000u64, 0x3064_4e72_e131_a02a, 0x73ed_a753_299d_7d49, 0, 1].iter().enumerate() {
        for w in [1usize, 2, 3, 4, 5, 6, 7] {
            h.case_with(&format!("extreme.{k}.{w}"), big(), || {
                let mut row = gls("r", w);
                row[w - 1] = c(*top);
                macro_rules! go {
                    ($T:ty) => {
                        for (i, l) in <$T>::code_leaves(&row).iter().enumerate() {
                            eq(&el::<$T>(l), &el::<$T>(&<$T>::leaf(&row)), &format!("{} form {i}", <$T>::NAME));
                        }
                    };
                }
                go!(MerkleTreeGL);
                go!(MerkleTreeBN128);
                go!(MerkleTreeBLS12381);
            });
        }
    }
    // inner nodes
    macro_rules! node {
        ($T:ty, $L:ty, $F:ty, $R:path, $P:path, $var:path) => {
            h.case_with(&format!("{}.node", <$T>::NAME), big(), || {
                let ch: Vec<$F> = (0..16).map(|i| $var(&format!("n{i}"))).collect();
                let e: Vec<E4<$F>> = ch.iter().map(|x| E4::<$F>::from_scalar(x)).collect();
                let init = $var("init");
                let got = <$L>::new().hash_node(&e, &init).unwrap();
                let want = E4::<$F>::from_scalar(&<$P>::new().hash(&ch, &init).unwrap());
                eq(&got.as_elements().to_vec(), &want.as_elements().to_vec(), "node");
            });
        };
    }
    node!(MerkleTreeBN128, LinearHashBN128, BN, starky::field_bn128::FrRepr, starky::poseidon_bn128_opt::Poseidon, bn);
    node!(MerkleTreeBLS12381, LinearHashBLS12381, BLS, starky::field_bls12381::FrRepr, starky::poseidon_bls12381_opt::Poseidon, bls);
}

/// rows: all symbolic, or only some cells (the rest concrete), for tall or wide matrices
fn matrix(w: usize, h: usize, sparse: Option<&dyn Fn(usize, usize) -> bool>) -> Vec<GL> {
    let mut v = vec![];
    for i in 0..h {
        for j in 0..w {
            let s = sparse.map(|f| f(i, j)).unwrap_or(true);
            v.push(if s { gl(&format!("m{i}.{j}")) } else { c((i * 1_000_003 + j * 7919 + 1) as u64) });
        }
    }
    v
}
fn tree_case<T: Spec>(h: &mut H, w: usize, ht: usize, workers: &[usize], sparse: Option<&dyn Fn(usize, usize) -> bool>, idxs: &[usize]) {
    h.case_with(&format!("{}.tree.{ht}x{w}{}", T::NAME, if sparse.is_some() { ".sparse" } else { "" }), big(), || {
        let m = matrix(w, ht, sparse);
        let leaves: Vec<T::MTNode> = m.chunks(w).map(|r| T::leaf(r)).collect();
        let want = spec_root::<T>(&leaves);
        for &k in workers {
            num_cpus::set(k);
            let mut t = T::new();
            t.merkelize(m.clone(), w, ht).unwrap();
            let root = t.root();
            eq(&el::<T>(&root), &el::<T>(&want), "root is the fold of the rows");
            truth(t.element_size() == w * ht, "element count");
            for &i in idxs.iter().filter(|i| **i < ht) {
                let row = &m[i * w..(i + 1) * w];
                for j in 0..w.min(70) {
                    eq(&t.get_element(i, j), &row[j], "get_element");
                }
                let (v, path) = t.get_group_proof(i).unwrap();
                eq(&v, &row.to_vec(), "opened row");
                truth(path.len() == depth::<T>(ht), "path length");
                eq(&el::<T>(&spec_fold::<T>(&leaves[i], i, &path)), &el::<T>(&want), "path folds to the root");
                truth(T::new().verify_group_proof(&root, &path, i, &v).unwrap(), "opening verifies");
            }
            truth(t.get_group_proof(ht).is_err(), "row past the end");
            if m.len() <= 64 {
                let mut e = vec![<T::ExtendField as starky::traits::FieldExtension>::ZERO; m.len()];
                t.to_extend(&mut e);
                for (a, b) in e.iter().zip(&m) {
                    use starky::traits::FieldExtension;
                    eq(&a.as_elements()[0], b, "to_extend");
                    truth(a.as_elements().iter().skip(1).all(|x| *x == GL::ZERO), "to_extend upper");
                }
            }
        }
    });
}
pub fn p08(h: &mut H) {
    let t = h.thorough;
    let all: Vec<usize> = (0..600).collect();
    for ht in 1..=(if t { 20 } else { 9 }) {
        for w in [1usize, 3, 4, 5, 9] {
            tree_case::<MerkleTreeGL>(h, w, ht, &[4, 1], None, &all);
        }
    }
    tree_case::<MerkleTreeGL>(h, 33, 4, &[2], None, &all);
    tree_case::<MerkleTreeGL>(h, 2, 33, &[2, 9], None, &all);
    for ht in [1usize, 2, 3, 15, 16, 17, 18] {
        for w in [1usize, 3, 4, 7] {
            if !t && ht > 3 && w > 3 && ht != 17 {
                continue;
            }
            tree_case::<MerkleTreeBN128>(h, w, ht, &[4], None, &[0, 1, 2, 14, 15, 16, 17]);
            tree_case::<MerkleTreeBLS12381>(h, w, ht, &[4], None, &[0, 1, 2, 14, 15, 16, 17]);
        }
    }
    tree_case::<MerkleTreeBN128>(h, 50, 2, &[4, 1], None, &all);
    tree_case::<MerkleTreeBLS12381>(h, 50, 2, &[4, 1], None, &all);
    if t {
        tree_case::<MerkleTreeBN128>(h, 2, 257, &[4, 1], None, &[0, 15, 16, 255, 256]);
        tree_case::<MerkleTreeBLS12381>(h, 2, 257, &[4, 1], None, &[0, 15, 16, 255, 256]);
    }
    // three levels: mostly concrete rows
    let far = |i: usize, _: usize| [0, 15, 256, 273, 288].contains(&i);
    tree_case::<MerkleTreeBN128>(h, 1, 289, &[4], Some(&far), &[0, 15, 16, 255, 256, 273, 288]);
    tree_case::<MerkleTreeBLS12381>(h, 1, 289, &[4], Some(&far), &[0, 15, 16, 255, 256, 273, 288]);
    // several chunks per level and per row range: mostly concrete cells, symbolic ones on both sides of the cuts
    let hot = |i: usize, _: usize| [0, 4095, 4096, 8191, 8192, 8200].contains(&i);
    tree_case::<MerkleTreeGL>(h, 2, 8201, &[3, 64], Some(&hot), &[0, 1, 4095, 4096, 4097, 8191, 8192, 8200]);
    let edge = |i: usize, j: usize| i % 2 == 0 && (j == 16383 || j == 0);
    tree_case::<MerkleTreeGL>(h, 16384, 5, &[2, 9], Some(&edge), &[0, 1, 2, 3, 4]);
}

fn bind_case<T: Spec>(h: &mut H, w: usize, d: usize, idx: usize) {
    let name = |k: &str| format!("{}.{k}.w{w}.d{d}.i{idx}", T::NAME);
    let paths = |n: &str| -> Vec<Vec<T::BaseField>> { (0..d).map(|k| T::sym_path(&format!("{n}{k}."))).collect() };
    // the fold of the row along the path is accepted
    h.case_with(&name("fold"), big(), || {
        let (row, path) = (gls("r", w), paths("s"));
        let want = spec_fold::<T>(&T::leaf(&row), idx, &path);
        truth(T::new().verify_group_proof(&want, &path, idx, &row).unwrap(), "the fold is accepted");
        truth(T::new().eq_root(&want, &want), "a root equals itself");
    });
    // whatever is accepted has the fold as its root: any row, any path, any root
    h.case_with(&name("bind"), big(), || {
        let (row, path) = (gls("r", w), paths("s"));
        let want = spec_fold::<T>(&T::leaf(&row), idx, &path);
        let root = T::MTNode::new(&gls("root", 4));
        let ok = T::new().verify_group_proof(&root, &path, idx, &row).unwrap();
        if ok {
            eq(&el::<T>(&root), &el::<T>(&want), "accepted only if the root is the fold");
        } else {
            truth(el::<T>(&root) != el::<T>(&want), "rejected only if the root is not the fold");
        }
    });
    // one thing changed at a time: accepted only if the folds agree
    h.case_with(&name("root"), big(), || {
        let (row, path) = (gls("r", w), paths("s"));
        let want = el::<T>(&spec_fold::<T>(&T::leaf(&row), idx, &path));
        for k in 0..4 {
            let mut r = want.clone();
            r[k] = gl("x");
            assume_ne(r[k], want[k]);
            truth(!T::new().verify_group_proof(&T::MTNode::new(&r), &path, idx, &row).unwrap(), "another root is rejected");
        }
    });
    let mods: Vec<usize> = (0..w.min(5)).chain(if w > 5 { Some(w - 1) } else { None }).collect();
    for j in mods {
        h.case_with(&format!("{}.row{j}", name("mod")), big(), || {
            let (row, path) = (gls("r", w), paths("s"));
            let root = spec_fold::<T>(&T::leaf(&row), idx, &path);
            let mut r2 = row.clone();
            r2[j] = gl("x");
            if T::new().verify_group_proof(&root, &path, idx, &r2).unwrap() {
                eq(&el::<T>(&spec_fold::<T>(&T::leaf(&r2), idx, &path)), &el::<T>(&root), "another row element");
            }
        });
    }
    for l in 0..d {
        h.case_with(&format!("{}.sib{l}", name("mod")), big(), || {
            let (row, path) = (gls("r", w), paths("s"));
            let root = spec_fold::<T>(&T::leaf(&row), idx, &path);
            let mut p2 = path.clone();
            let other = T::sym_path("x");
            let at = (idx / T::ARITY.pow(l as u32)) % T::ARITY;
            let n = other.len();
            for (k, o) in other.into_iter().enumerate() {
                // one neighbour of the position, or (binary trees) every element of the sibling
                if n == 4 || k == (at + 1) % n {
                    p2[l][k] = o;
                }
            }
            if T::new().verify_group_proof(&root, &p2, idx, &row).unwrap() {
                eq(&el::<T>(&spec_fold::<T>(&T::leaf(&row), idx, &p2)), &el::<T>(&root), "another sibling");
            }
        });
        h.case_with(&format!("{}.pos{l}", name("mod")), big(), || {
            let (row, path) = (gls("r", w), paths("s"));
            let root = spec_fold::<T>(&T::leaf(&row), idx, &path);
            let i2 = idx ^ T::ARITY.pow(l as u32);
            if T::new().verify_group_proof(&root, &path, i2, &row).unwrap() {
                eq(&el::<T>(&spec_fold::<T>(&T::leaf(&row), i2, &path)), &el::<T>(&root), "another row number");
            }
        });
    }
}
pub fn p09(h: &mut H) {
    let t = h.thorough;
    for w in [1usize, 4, 5, 9, 17] {
        for d in 0..=(if t { 4 } else { 3 }) {
            for idx in 0..(1usize << d) {
                bind_case::<MerkleTreeGL>(h, w, d, idx);
            }
        }
    }
    bind_case::<MerkleTreeGL>(h, 6, 9, 0b101100111);
    bind_case::<MerkleTreeGL>(h, 6, 20, 0xABCDE);
    for w in [1usize, 3, 4, 7] {
        for idx in 0..16 {
            if !t && w > 3 && idx % 5 != 0 {
                continue;
            }
            bind_case::<MerkleTreeBN128>(h, w, 1, idx);
            bind_case::<MerkleTreeBLS12381>(h, w, 1, idx);
        }
        for (d, idx) in [(0usize, 0usize), (2, 0), (2, 0x5a), (2, 0xff), (3, 0x73c)] {
            bind_case::<MerkleTreeBN128>(h, w, d, idx);
            bind_case::<MerkleTreeBLS12381>(h, w, d, idx);
        }
    }
    // two roots are the same only if every element is
    h.case("eq_root", || {
        let (a, b) = (gls("a", 4), gls("b", 4));
        let r = MerkleTreeGL::new().eq_root(&E4::<GL>::new(&a), &E4::<GL>::new(&b));
        truth(r == (a == b), "gl");
    });
}
